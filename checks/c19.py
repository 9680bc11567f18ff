"""C19: differential runs - params against a closed right-hand side, scalar against one-element states, caller's arrays overwritten, two solvers interleaved against each alone."""
import warnings

from .c11 import event, solving
from .common import *

BOUNDS = "26 solvers; dimension 1 and 2, 1 and 2 parameters; any right-hand side, t0 in [-4,4], h in (0,2]; every observable after each of up to five calls (thorough six) of step, step(n), step(upto_t), skip, run, run_events, interpolate; adaptive solvers accept every step, or (dimension 1) reject up to two attempts"
ASSUMPTIONS = ["implicit equations and the bisection along the step are replaced by their contracts (C13-C15)"]


def build(ctx, name, f, t0, y0, h, first, reject=False, params=None):
    kw = {}
    if name in ADAPTIVE and not reject:
        kw.update(atol=float("inf"), min_factor=1.0, max_factor=1.0)
    return make(ctx, name, f, t0, y0, h, first=klass(first) if first else None, params=params, **kw)


def drive(ctx, s, op, h, k=0):
    """Do the call and return everything seen."""
    out = []
    if op == "step":
        out += list(s.step())
    elif op == "step2":
        t, y = s.step(n=2)
        out += [t, y.copy()]
    elif op == "upto":
        t, y = s.step(upto_t=s.t + 1.5 * h)
        out += [t, y.copy()]
    elif op == "skip":
        s.skip()
    elif op == "skipupto":
        s.skip(upto_t=s.t + 1.5 * h)
    elif op == "run":
        out += [x.copy() for x in s.run([s.t + 0.5 * h, s.t + 1.5 * h])]
    elif op == "run_events":
        e, _ = event(ctx, "y0", 0, False, 1)
        t, y, te, ye = s.run_events([s.t + 0.5 * h], e)
        out += [t, y] + [x for x in te] + [x for x in ye]
    elif op == "interpolate":
        out.append(s.interpolate(s.t - 0.25 * (s.t - s.cache.ts[-2])))
    out += snapshot(s) + [s.t, s.y.copy(), s.f.copy()]
    return [flat(x) for x in out]


def equal(ctx, a, b, tag):
    ctx.check(len(a) == len(b), f"{tag}: number of results")
    for u, v in zip(a, b):
        ctx.check(len(u) == len(v), f"{tag}: size of results")
        ctx.closes(u, v, tag)


def start(ctx, dim):
    return ctx.real("t0", -4, 4), ctx.pos("h", 2), ctx.vec("y", dim)


def h_params(ctx, name, dim, np_, first, ops, reject, how):
    t0, h, y0 = start(ctx, dim)
    p = ctx.vec("p", np_)
    F = ctx.rhs("f", dim, nparams=np_)
    f1 = limited(ctx, F, budget(name, 3) + 4) if reject else F
    given = p if how == "array" else list(flat(p))
    keep = flat(p.copy())

    def f2(t, y):
        return F(t, y, p)

    with solving(ctx, memo=True), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = build(ctx, name, f1, t0, y0.copy(), h, first, reject, params=given)
        b = build(ctx, name, f2, t0, y0.copy(), h, first, reject)
        for i, op in enumerate(ops):
            equal(ctx, drive(ctx, a, op, h), drive(ctx, b, op, h), f"params: {op}")
        ctx.check(a.user_rhs is f1, "user_rhs")
        ctx.closes(p, keep, "parameters modified")
        ctx.closes(a.rhs(t0, y0), F(t0, y0, p), "rhs")
    ctx.reach("done")


def h_scalar(ctx, name, first, ops, how):
    t0, h, y0 = start(ctx, 1)
    f = ctx.rhs("f", 1)
    given = {"scalar": y0[0], "list": [y0[0]], "0d": y0.reshape(())}[how]
    with solving(ctx, memo=True), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = build(ctx, name, f, t0, given, h, first)
        b = build(ctx, name, f, t0, y0.copy(), h, first)
        ctx.check(a.y.shape == (1,), "shape of the state")
        for op in ops:
            equal(ctx, drive(ctx, a, op, h), drive(ctx, b, op, h), f"scalar: {op}")
    ctx.reach("done")


def h_int(ctx, name, first, ops):
    """Integer initial data."""
    _, h, _ = start(ctx, 1)
    f = ctx.rhs("f", 2)
    with solving(ctx, memo=True), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = build(ctx, name, f, 1, np.array([2, -3]), h, first)
        b = build(ctx, name, f, 1.0, np.array([2.0, -3.0]), h, first)
        for op in ops:
            equal(ctx, drive(ctx, a, op, h), drive(ctx, b, op, h), f"integers: {op}")
    ctx.reach("done")


def h_caller(ctx, name, dim, first, ops):
    """The caller's y0 is not modified and later changes of it do nothing; neither do changes of results."""
    t0, h, y0 = start(ctx, dim)
    f = ctx.rhs("f", dim)
    keep = flat(y0.copy())
    mine, his = y0.copy(), y0.copy()
    with solving(ctx, memo=True), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = build(ctx, name, f, t0, mine, h, first)
        b = build(ctx, name, f, t0, his, h, first)
        for i, op in enumerate(ops):
            ra, rb = drive(ctx, a, op, h), drive(ctx, b, op, h)
            equal(ctx, ra, rb, f"caller's y0 changed: {op}")
            ctx.closes(his, keep, "caller's initial state modified")
            mine[:] = 3.25 + i
            # results of run and interpolate belong to the caller
            x = a.interpolate(a.t)
            x[:] = -11.0
            t, y = a.run([a.t + 0.25 * h])
            u, v = b.run([b.t + 0.25 * h])
            ctx.closes(y, v, "result")
            y[:] = 17.0
            t[:] = 17.0
    ctx.reach("done")


def h_given(ctx, name, first, ops):
    """Later changes of the arrays given as parameters and step size do nothing."""
    t0, h, y0 = start(ctx, 1)
    p = ctx.vec("p", 2)
    F = ctx.rhs("f", 1, nparams=2)
    q = p.copy()

    def f(t, y):
        return F(t, y, q)

    with solving(ctx, memo=True), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        hs = ctx.array([h]).reshape(())
        a = build(ctx, name, F, t0, y0.copy(), hs, first, params=p)
        b = build(ctx, name, f, t0, y0.copy(), h, first)
        for i, op in enumerate(ops):
            p[:] = 3.25 + i
            hs[()] = 0.75
            equal(ctx, drive(ctx, a, op, h), drive(ctx, b, op, h), f"caller's params or h changed: {op}")
            ctx.close(hs[()], 0.75, "the array given as step size modified")
    ctx.reach("done")


def h_reused(ctx, name, first, ops):
    """A right-hand side that returns the same array, filled again, at every call."""
    t0, h, y0 = start(ctx, 1)
    f = ctx.rhs("f", 1)
    buf = ctx.array([0.0])

    def g(t, y):
        buf[:] = f(t, y)
        return buf

    with solving(ctx, memo=True), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = build(ctx, name, g, t0, y0.copy(), h, first)
        b = build(ctx, name, f, t0, y0.copy(), h, first)
        for op in ops:
            equal(ctx, drive(ctx, a, op, h), drive(ctx, b, op, h), f"rhs reuses its array: {op}")
    ctx.reach("done")


def h_two(ctx, one, two, ops, first, dims, h2):
    """Two solvers, calls interleaved, against each on its own."""
    t0, h, y0 = start(ctx, dims[0])
    f = ctx.rhs("f", dims[0])
    g = ctx.rhs("g", dims[1])
    z0 = ctx.vec("z", dims[1])
    s0 = ctx.real("s0", -4, 4)
    k = ctx.pos("k", 2) if h2 else h

    with solving(ctx, memo=True), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = build(ctx, one, f, t0, y0.copy(), h, first[0])
        alone = [drive(ctx, a, op, h) for op in ops]
        c = build(ctx, two, g, s0, z0.copy(), k, first[1])
        alone2 = [drive(ctx, c, op, k) for op in ops]
        a = build(ctx, one, f, t0, y0.copy(), h, first[0])
        c = build(ctx, two, g, s0, z0.copy(), k, first[1])
        for i, op in enumerate(ops):
            equal(ctx, drive(ctx, a, op, h), alone[i], f"first of two solvers: {op}")
            equal(ctx, drive(ctx, c, op, k), alone2[i], f"second of two solvers: {op}")
    ctx.reach("done")


def tasks(tier):
    out = []
    deep = tier != "quick"

    def add(tag, fn, **cfg):
        out.append(Task(tag, fn, cfg, need=["done"]))

    first_of = lambda n: "ForwardEuler" if n in MULTI and steps_of(n) > 1 else None
    all_ops = ("step", "run", "run_events", "upto", "interpolate", "skipupto")
    seqs = [("step", "run"), ("skip", "upto", "interpolate"), ("run_events",)]
    seqs += [("step2", "run_events", "skipupto", "run", "interpolate")]
    if deep:
        seqs += [("run_events", "run_events", "step"), ("upto", "skip", "step2", "interpolate", "run", "step"), ("interpolate", "skip", "run_events", "upto")]
    for name in ADAPTIVE[::-1] + FIXED:
        fi = first_of(name)
        for seq in seqs:
            q = ",".join(seq)
            for dim, np_, how in ((1, 1, "array"), (2, 2, "array"), (1, 2, "list")):
                if (dim == 2 and len(seq) > 3) or (how == "list" and seq != seqs[0] and not deep):
                    continue
                add(f"params:{name}:{dim}:{np_}:{how}:{q}", h_params, name=name, dim=dim, np_=np_, first=fi, ops=seq, reject=False, how=how)
            for how in ("scalar", "list", "0d"):
                if how == "scalar" or seq == seqs[0] or deep:
                    add(f"scalar:{name}:{how}:{q}", h_scalar, name=name, first=fi, ops=seq, how=how)
            add(f"caller:{name}:{q}", h_caller, name=name, dim=1, first=fi, ops=seq)
        add(f"given:{name}", h_given, name=name, first=fi, ops=("step", "run", "skip"))
        add(f"reused:{name}", h_reused, name=name, first=fi, ops=seqs[0])
        add(f"int:{name}", h_int, name=name, first=fi, ops=seqs[0])
        add(f"caller:{name}:2", h_caller, name=name, dim=2, first=fi, ops=("step", "run"))
        # the same class twice, and with another one
        add(f"two:{name}:{name}", h_two, one=name, two=name, ops=("step", "interpolate", "run"), first=(fi, fi), dims=(1, 1), h2=True)
        add(f"two:{name}:{name}:dims", h_two, one=name, two=name, ops=("step", "upto"), first=(fi, fi), dims=(1, 2), h2=True)
        other = {"RungeKutta45": "DOP853", "DOP853": "RungeKutta23"}.get(name, "RungeKutta45")
        add(f"two:{name}:{other}", h_two, one=name, two=other, ops=("step", "interpolate", "run"), first=(fi, first_of(other)), dims=(1, 1), h2=False)
    for name in ADAPTIVE[:2] + deep * ADAPTIVE[2:]:
        add(f"reject:{name}", h_params, name=name, dim=1, np_=1, first=None, ops=("step",), reject=True, how="array")
    return out
