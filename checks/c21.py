"""C21: differential runs - shifted time for autonomous systems, permuted equations, an added independent equation."""
import itertools
import warnings

from .c11 import solving
from .c19 import build, equal
from .common import *

BOUNDS = "26 solvers; shifts in [-16,16]; dimension 1 and 2 (shift), 2 and 3 with every permutation (relabelling), 1 + 1, 1 + 2 and 2 + 1 at either end (added equation; fixed-step explicit solvers); any right-hand side, t0 in [-4,4], h in (0,2]; everything seen after each of up to four calls; adaptive solvers accept every step, or reject up to two attempts (dimension 1; permutations: RungeKutta23 and RungeKutta45 dimension 2)"
ASSUMPTIONS = ["implicit equations and the bisection along the step are replaced by their contracts (C13-C15): of several roots, corresponding ones are taken"]


def drive(ctx, s, op, h, t0, bound=None):
    """Do the call; (times, relative to t0, and states) seen."""
    T, Y = [], []
    if op == "step":
        t, y = s.step()
        T, Y = list(t), [y]
    elif op == "step2":
        T, Y = s.step(n=2)
    elif op == "upto":
        T, Y = s.step(upto_t=s.t + 1.5 * h)
    elif op == "skip":
        s.skip()
    elif op == "skipupto":
        s.skip(upto_t=s.t + 1.5 * h)
    elif op == "run":
        T, Y = s.run([s.t + 0.5 * h, s.t + 1.25 * h])
    elif op == "run back":
        T, Y = s.run([s.t + 1.25 * h, s.t + 0.5 * h])
    elif op == "interpolate":
        w = s.t - 0.25 * (s.t - s.cache.ts[-2])
        T, Y = [w], [s.interpolate(w)]
    T = [t - t0 for t in list(T)] + [t - t0 for t in list(s.cache.ts)] + [s.t - t0]
    Y = [flat(y) for y in list(Y)] + [flat(y) for y in list(s.cache.ys)] + [flat(y) for y in list(s.cache.fs)]
    return [T] + Y


def h_shift(ctx, name, dim, first, ops, reject, bounded):
    t0 = ctx.real("t0", -4, 4)
    d = ctx.real("d", -16, 16)
    h = ctx.pos("h", 2)
    y0 = ctx.vec("y", dim)
    f = ctx.rhs("f", dim, time=False)
    def fresh():
        return limited(ctx, lambda t, y: f(t, y), budget(name, 3) + 4) if reject else f

    late = t0 + d
    with solving(ctx, memo=True), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        kw = {}
        if bounded:
            span = ctx.pos("span", 8)
        if name in ADAPTIVE and not reject:
            kw.update(atol=float("inf"), min_factor=1.0, max_factor=1.0)

        def new(start):
            return make(ctx, name, fresh(), start, y0.copy(), h, first=klass(first) if first else None, t_bound=start + span if bounded else np.inf, **kw)

        def calls(start):
            out = []
            try:
                s = new(start)
                for op in ops:
                    out.append(drive(ctx, s, op, h, start))
            except (RuntimeError, ValueError) as e:
                out.append([type(e).__name__])
            return out

        a, b = calls(t0), calls(late)
        ctx.check(len(a) == len(b), "ends at another call")
        for op, u, v in zip(ops, a, b):
            if u and isinstance(u[0], str) or v and isinstance(v[0], str):
                ctx.check(u == v, f"shifted: {op}: error")
                continue
            equal(ctx, u, v, f"shifted: {op}")
    ctx.reach("done")


def relabel(out, perm):
    return [out[0]] + [[y[p] for p in perm] for y in out[1:]]


def h_permute(ctx, name, dim, perm, first, ops, reject):
    t0 = ctx.real("t0", -4, 4)
    h = ctx.pos("h", 2)
    y0 = ctx.vec("y", dim)
    f = ctx.rhs("f", dim)
    back = [perm.index(i) for i in range(dim)]
    f1 = limited(ctx, f, budget(name, 2) + 3) if reject else f

    def g(t, z):
        # z[i] = y[perm[i]]
        v = flat(f(t, ctx.array([z[back[i]] for i in range(dim)])))
        return ctx.array([v[p] for p in perm])

    z0 = ctx.array([y0[p] for p in perm])
    log = []
    with solving(ctx, memo=True), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = build(ctx, name, f1, t0, y0.copy(), h, first, reject)
        if ctx.sym and name in IMPLICIT:
            out = [drive(ctx, a, op, h, t0) for op in ops]
            with corresponding(back):
                b = build(ctx, name, g, t0, z0, h, first, reject)
                other = [drive(ctx, b, op, h, t0) for op in ops]
        else:
            out = [drive(ctx, a, op, h, t0) for op in ops]
            b = build(ctx, name, g, t0, z0, h, first, reject)
            other = [drive(ctx, b, op, h, t0) for op in ops]
        for op, u, v in zip(ops, out, other):
            equal(ctx, relabel(u, perm), v, f"relabelled: {op}")
    ctx.reach("done")


class corresponding:
    """The root of a relabelled equation is the relabelled root."""

    def __init__(self, back):
        self.back = back

    def __enter__(self):
        back = self.back
        n = len(back)
        perm = [back.index(i) for i in range(n)]
        self.plain = stubs.RootStub.__call__

        def call(stub, func, y0, *a, **kw):
            # hand the equation over in its original labelling
            from sx import npshim

            y0 = npshim.asarray(y0)
            if y0.size != n:
                return self.plain(stub, func, y0, *a, **kw)

            def orig(y, *args):
                v = flat(func(npshim.array([flat(y)[p] for p in perm], dtype=float), *args))
                return npshim.array([v[back[i]] for i in range(n)], dtype=float)

            y = flat(self.plain(stub, orig, npshim.array([flat(y0)[back[i]] for i in range(n)], dtype=float), *a, **kw))
            return npshim.array([y[p] for p in perm], dtype=float)

        stubs.RootStub.__call__ = call
        return self

    def __exit__(self, *a):
        stubs.RootStub.__call__ = self.plain


def h_added(ctx, name, dim, extra, front, first, ops):
    t0 = ctx.real("t0", -4, 4)
    h = ctx.pos("h", 2)
    y0, z0 = ctx.vec("y", dim), ctx.vec("z", extra)
    f, g = ctx.rhs("f", dim), ctx.rhs("g", extra)
    n = dim + extra
    mine = list(range(extra, n)) if front else list(range(dim))
    its = list(range(extra)) if front else list(range(dim, n))

    def join(u, v):
        return ctx.array(flat(v) + flat(u)) if front else ctx.array(flat(u) + flat(v))

    def both(t, x):
        return join(f(t, ctx.array([x[i] for i in mine])), g(t, ctx.array([x[i] for i in its])))

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = build(ctx, name, f, t0, y0.copy(), h, first)
        b = build(ctx, name, both, t0, join(y0, z0), h, first)
        for op in ops:
            u, v = drive(ctx, a, op, h, t0), drive(ctx, b, op, h, t0)
            ctx.check(len(u) == len(v), "number of results")
            ctx.closes(u[0], v[0], f"added equation: {op}: times")
            for p, q in zip(u[1:], v[1:]):
                ctx.check(len(q) == n, "size of results")
                ctx.closes(p, [q[i] for i in mine], f"added equation: {op}")
    ctx.reach("done")


def tasks(tier):
    out = []
    deep = tier != "quick"

    def add(tag, fn, **cfg):
        out.append(Task(tag, fn, cfg, need=["done"]))

    first_of = lambda n: "ForwardEuler" if n in MULTI and steps_of(n) > 1 else None
    seqs = [("step", "run"), ("upto", "interpolate", "run back"), ("skip", "skipupto", "step2")]
    if deep:
        seqs += [("run", "step", "upto", "run"), ("step2", "interpolate", "run back", "skip")]
    for name in ADAPTIVE[::-1]:
        if name != "DOP853" or deep:
            add(f"shift:{name}:reject", h_shift, name=name, dim=1, first=None, ops=("step", "step"), reject=True, bounded=False)
            add(f"shift:{name}:reject:run", h_shift, name=name, dim=1, first=None, ops=("run",), reject=True, bounded=False)
            for perm in itertools.permutations(range(2)):
                add(f"permute:{name}:{perm}:reject", h_permute, name=name, dim=2, perm=perm, first=None, ops=("step",), reject=True)
    for name in ADAPTIVE[::-1] + FIXED:
        fi = first_of(name)
        for seq in seqs:
            q = ",".join(seq)
            for dim in (1, 2):
                add(f"shift:{name}:{dim}:{q}", h_shift, name=name, dim=dim, first=fi, ops=seq, reject=False, bounded=False)
            add(f"shift:{name}:bounded:{q}", h_shift, name=name, dim=1, first=fi, ops=seq, reject=False, bounded=True)
        for dim in (2, 3):
            for perm in itertools.permutations(range(dim)):
                if list(perm) == sorted(perm) or (dim == 3 and perm not in ((1, 2, 0), (0, 2, 1)) and not deep):
                    continue
                for seq in seqs[: 2 if dim == 2 or deep else 1]:
                    add(f"permute:{name}:{perm}:{','.join(seq)}", h_permute, name=name, dim=dim, perm=perm, first=fi, ops=seq, reject=False)
        if name in FIXED and name not in IMPLICIT:
            for dim, extra in ((1, 1), (1, 2), (2, 1)):
                for front in (False, True):
                    for seq in seqs[: 1 + (dim + extra == 2) + deep]:
                        add(f"added:{name}:{dim}+{extra}:{front}:{','.join(seq)}", h_added, name=name, dim=dim, extra=extra, front=front, first=fi, ops=seq)
    return out
