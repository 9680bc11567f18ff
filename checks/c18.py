"""C18: the recorded history - AlignedBuffer under every push history, and f == rhs(t, y), ordered times, shifted history for every solver after any calls."""
import warnings

from .c11 import event, new, solving
from .common import *

BOUNDS = "buffer: capacities 1 to 6 (thorough 12), states of size 1 to 3, up to 2 capacity + 3 pushes of arbitrary values, arrays reused and overwritten by the caller; solvers: 26, dimension 1 and 2, any right-hand side, t0 in [-4,4], h in (0,2], every sequence of two (thorough three) calls out of step, step(n=2), step(upto_t), skip, run, run_events, interpolate; adaptive solvers with one rejected attempt allowed, or always accepting"
ASSUMPTIONS = ["implicit equations and the bisection along the step are replaced by their contracts (C13-C15)"]


def h_buffer(ctx, cap, size, pushes, reuse):
    from nbkode.buffer import AlignedBuffer

    def point(k):
        return ctx.real(f"t{k}", -9, 9), ctx.vec(f"y{k}_", size), ctx.vec(f"f{k}_", size)

    t, y, f = point(0)
    b = AlignedBuffer(cap, t, y.copy(), f.copy())
    want = [(t, flat(y), flat(f))] * cap
    by, bf = y, f
    if reuse:
        # the caller's arrays: filled again for every push
        b = AlignedBuffer(cap, t, by, bf)

    def same():
        ctx.check(len(b.ts) == cap and b.ys.shape == (cap, size) and b.fs.shape == (cap, size), "shape")
        for i, (t, y, f) in enumerate(want):
            ctx.close(b.ts[i], t, "recorded time")
            ctx.closes(b.ys[i], y, "recorded state")
            ctx.closes(b.fs[i], f, "recorded derivative")
        ctx.close(b.t, want[-1][0], "current time")
        ctx.closes(b.y, want[-1][1], "current state")
        ctx.closes(b.f, want[-1][2], "current derivative")

    same()
    for k in range(1, pushes + 1):
        t, y, f = point(k)
        want = want[1:] + [(t, flat(y), flat(f))]
        if reuse:
            by[:], bf[:] = y, f
            b.push(t, by, bf)
            by[:], bf[:] = 7.5, -7.5  # overwritten afterwards
        else:
            b.push(t, y, f)
        same()
    ctx.reach("done")


def h_current(ctx, cap, size):
    """Pushing the buffer's own current state."""
    from nbkode.buffer import AlignedBuffer

    t, y, f = ctx.real("t"), ctx.vec("y", size), ctx.vec("f", size)
    b = AlignedBuffer(cap, t, y, f)
    want = [(t, flat(y), flat(f))] * cap
    for k in range(cap + 1):
        t, f = ctx.real(f"t{k}"), ctx.vec(f"f{k}_", size)
        b.push(t, b.y + 1.0, f)
        want = want[1:] + [(t, [v + 1.0 for v in want[-1][1]], flat(f))]
        b.push(t, b.y, b.f)
        want = want[1:] + [want[-1]]
        for i, (u, y, g) in enumerate(want):
            ctx.close(b.ts[i], u, "recorded time")
            ctx.closes(b.ys[i], y, "recorded state")
            ctx.closes(b.fs[i], g, "recorded derivative")
    ctx.reach("done")


def consistent(ctx, s, f, tag):
    ts, ys, fs = s.cache.ts, s.cache.ys, s.cache.fs
    n = len(ts)
    for i in range(n):
        ctx.closes(fs[i], f(ts[i], ctx.array(flat(ys[i]))), f"{tag}: derivative is not the rhs at the recorded point")
        if i:
            ctx.check(ts[i - 1] <= ts[i], f"{tag}: recorded times decrease")
    ctx.close(s.t, ts[n - 1], f"{tag}: t")
    ctx.closes(s.y, ys[n - 1], f"{tag}: y")
    ctx.closes(s.f, fs[n - 1], f"{tag}: f")
    ctx.closes(s.f, f(s.t, ctx.array(flat(s.y))), f"{tag}: f is not the rhs")


def call(ctx, s, op, h):
    if op == "step":
        s.step()
    elif op == "step2":
        s.step(n=2)
    elif op == "upto":
        s.step(upto_t=s.t + 1.5 * h)
    elif op == "skip":
        s.skip()
    elif op == "skip2":
        s.skip(n=2)
    elif op == "skipupto":
        s.skip(upto_t=s.t + 1.5 * h)
    elif op == "run":
        s.run([s.t + 0.5 * h, s.t + 1.5 * h])
    elif op == "run_events":
        e, _ = event(ctx, "y0", 0, True, None)
        s.run_events([s.t + 0.5 * h, s.t + 1.25 * h], e)
    elif op == "interpolate":
        s.interpolate(s.t)
        s.interpolate(s.t - 0.25 * (s.t - s.cache.ts[-2]))


def h_solver(ctx, name, ops, dim, first, reject, bounded):
    t0 = ctx.real("t0", -4, 4)
    h = ctx.pos("h", 2)
    y0 = ctx.vec("y", dim)
    f = ctx.rhs("f", dim)
    g = limited(ctx, f, budget(name, 3) + 4) if reject else f
    with solving(ctx), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        kw = dict(t_bound=t0 + ctx.pos("tb", 6)) if bounded else {}
        if reject or bounded:
            if not reject and name in ADAPTIVE:
                kw.update(atol=float("inf"), min_factor=1.0, max_factor=1.0)
            try:
                s = make(ctx, name, g, t0, y0, h, first=klass(first) if first else None, **kw)
            except (RuntimeError, ValueError):
                return
        else:
            s = new(ctx, name, g, t0, y0, h, first)
        consistent(ctx, s, f, "new")
        n = len(s.cache.ts)
        for i, op in enumerate(ops):
            before = [(t, flat(y), flat(k)) for t, y, k in zip(list(s.cache.ts), list(s.cache.ys.copy()), list(s.cache.fs.copy()))]
            try:
                call(ctx, s, op, h)
            except (RuntimeError, ValueError):
                ctx.check(bounded, "refused")
                return
            consistent(ctx, s, f, op)
            if op in ("step", "skip"):
                for k in range(n - 1):
                    ctx.close(s.cache.ts[k], before[k + 1][0], f"{op}: history not shifted by one")
                    ctx.closes(s.cache.ys[k], before[k + 1][1], f"{op}: history not shifted by one")
            elif op == "interpolate":
                for k in range(n):
                    ctx.close(s.cache.ts[k], before[k][0], "interpolate changes the history")
                    ctx.closes(s.cache.ys[k], before[k][1], "interpolate changes the history")
    ctx.reach("done")


def tasks(tier):
    out = []
    deep = tier != "quick"

    def add(tag, fn, **cfg):
        out.append(Task(tag, fn, cfg, need=["done"]))

    import itertools

    ops = ["step", "upto", "skip2", "run", "run_events", "interpolate"]
    pairs = [("run_events", "step"), ("step2", "skipupto"), ("run", "interpolate"), ("skip", "upto"), ("step", "step")]
    for name in ADAPTIVE[::-1] + FIXED:
        first = "ForwardEuler" if name in MULTI and steps_of(name) > 1 else None
        seqs = list(pairs)
        if deep and name in ("RungeKutta45", "RungeKutta4", "AdamsBashforth3", "BDF2", "RungeKutta23"):
            seqs += [p for p in itertools.product(ops, repeat=2)] + [("step", "run", "skip"), ("run_events", "run", "step")]
        for seq in dict.fromkeys(seqs):
            add(f"solver:{name}:{','.join(seq)}", h_solver, name=name, ops=seq, dim=1, first=first, reject=False, bounded=False)
        add(f"solver:{name}:2", h_solver, name=name, ops=("step", "run"), dim=2, first=first, reject=False, bounded=False)
        for seq in (("step2",), ("run",), ("skip",)):
            add(f"bounded:{name}:{seq[0]}", h_solver, name=name, ops=seq, dim=1, first=first, reject=False, bounded=True)
    for name in ADAPTIVE[:2] + (ADAPTIVE[2:] if deep else []):
        for seq in (("step",), ("step", "skip"), ("run",)):
            if name == "DOP853" and len(seq) > 1:
                continue
            add(f"reject:{name}:{','.join(seq)}", h_solver, name=name, ops=seq, dim=1, first=None, reject=True, bounded=False)
    for cap in range(1, 13 if deep else 7):
        for size in (1, 2, 3):
            for reuse in (False, True):
                add(f"buffer:{cap}:{size}:{reuse}", h_buffer, cap=cap, size=size, pushes=2 * cap + 3, reuse=reuse)
            add(f"current:{cap}:{size}", h_current, cap=cap, size=size)
    return out
