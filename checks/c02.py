"""C02: the same right-hand side (an uninterpreted function) drives several solvers through different call sequences; their whole histories must be the same terms."""
from .common import *

BOUNDS = "26 solvers (multistep ones from a flat and from a generic history); dimension 1 and 2; t0 in [-4,4], h in (0,2]; targets and bounds in [-8,16] or infinite; up to 3 steps (adaptive: <=3 attempts)"
ASSUMPTIONS = ["implicit equations: the root finder is replaced by its contract (C14, C15)"]


def same(ctx, a, b, tag):
    """Same time, state, derivative, step size and history."""
    ctx.close(a.t, b.t, f"{tag}: t")
    ctx.closes(a.y, b.y, f"{tag}: y")
    ctx.closes(a.f, b.f, f"{tag}: f")
    ctx.closes(a.h, b.h, f"{tag}: step size")
    for u, v, w in zip(snapshot(a), snapshot(b), ("ts", "ys", "fs")):
        ctx.closes(u, v, f"{tag}: history {w}")


def setup(ctx, name, dim, first, calls):
    t0 = ctx.real("t0", -4, 4)
    h = ctx.pos("h", 2)
    f = limited(ctx, ctx.rhs("f", dim), calls)
    y0 = ctx.vec("y", dim)
    fc = klass(first) if first else None

    def new(bound):
        return make(ctx, name, f, t0, y0.copy(), h, t_bound=bound, first=fc)

    return t0, h, f, new


def attempt(s, kind, kw):
    try:
        return getattr(s, kind)(**kw), None
    except RuntimeError as e:
        return None, e


def h_skip(ctx, name, what, dim, first, maxn, calls):
    t0, h, f, new = setup(ctx, name, dim, first, calls)
    with rootless(ctx):
        bound = float("inf")
        if what in ("", "n") and ctx.choice("bounded", [True, False]):
            bound = ctx.real("tb", -8, 16)
            ctx.assume(bound >= t0 + (steps_of(name) - 1) * h)
        a, b = new(bound), new(bound)
        kw = {}
        if "n" in what:
            kw["n"] = ctx.choice("n", range(1, maxn + 1))
        if "t" in what:
            kw["upto_t"] = ctx.real("target", -8, 16)
            if "n" not in what:
                ctx.assume(kw["upto_t"] < a.t + (maxn + 0.5) * h)
        _, e1 = attempt(a, "step", kw)
        _, e2 = attempt(b, "skip", kw)
        ctx.check((e1 is None) == (e2 is None), "skip and step raise alike")
        same(ctx, a, b, "skip vs step")
        ctx.reach("done")


def h_rows(ctx, name, n, dim, first, calls):
    """Rows of step(n) = successive states; they stay; step() = step(n=1); split."""
    t0, h, f, new = setup(ctx, name, dim, first, calls)
    with rootless(ctx):
        inf = float("inf")
        ref = new(inf)
        ts, ys = [], []
        outs = []
        for i in range(n):
            out = ref.step()
            outs.append((out, flat(np.array(out[0])), flat(np.array(out[1]))))
            ts.append(ref.t)
            ys.append(flat(ref.y.copy()))
        a = new(inf)
        ta, ya = a.step(n=n)
        ctx.check(len(ta) == n and len(ya) == n, "one row per step")
        for u, v, m in ((ta, ya, n), *((o[0][0], o[0][1][None], 1) for o in outs)):
            ctx.check(getattr(u, "shape", None) == (m,), "shape of the returned times")
            ctx.check(getattr(v, "shape", None) == (m, dim), "shape of the returned states")
        ctx.closes(ta, ts, "step(n): times")
        ctx.closes(ya, ys, "step(n): states")
        same(ctx, a, ref, "step(n) vs step() n times")
        for i, (out, _, _) in enumerate(outs):
            ctx.closes(out[0], [ts[i]], "step(): time")
            ctx.closes(out[1], ys[i], "step(): state")
        keep = flat(np.array(ta)), flat(np.array(ya))
        if n >= 2:
            k = ctx.choice("k", range(1, n))
            b = new(inf)
            t1, y1 = b.step(n=k)
            k1 = flat(np.array(t1)), flat(np.array(y1))
            t2, y2 = b.step(n=n - k)
            same(ctx, b, ref, "step(a) then step(b)")
            ctx.closes(t1, ts[:k], "split: times of the first part, afterwards")
            ctx.closes(y1, ys[:k], "split: states of the first part, afterwards")
            ctx.closes(t2, ts[k:], "split: times")
            ctx.closes(y2, ys[k:], "split: states")
            c = new(inf)
            t3, y3 = c.step(upto_t=ts[k - 1] + 0.0) if name not in ADAPTIVE else c.step(n=k)
            if name in ADAPTIVE or len(t3) == k:
                ctx.check(getattr(t3, "shape", None) == (k,), "shape of the returned times")
                ctx.check(getattr(y3, "shape", None) == (k, dim), "shape of the returned states")
            ctx.closes(t3, ts[:k], "step(upto_t): times")
            ctx.closes(y3, ys[:k], "step(upto_t): states")
            if name not in ADAPTIVE:
                c.skip(n=n - k)
                same(ctx, c, ref, "step(upto_t) then skip")
                ctx.closes(y3, ys[:k], "step(upto_t): states, afterwards")
                d = new(inf)
                d.skip(n=k)
                t4, y4 = d.step(n=n - k, upto_t=ts[-1] + 0.5 * h)
                ctx.closes(t4, ts[k:], "step(n, upto_t): times")
                ctx.closes(y4, ys[k:], "step(n, upto_t): states")
        a.skip(n=1)
        ctx.closes(ta, keep[0], "returned times change later")
        ctx.closes(ya, keep[1], "returned states change later")
        if n == 1:
            t1, y1 = flat(outs[0][0][0]), outs[0][2]
            ref.skip()
            ctx.closes(outs[0][0][1], y1, "state returned by step() changes later")
            # what is returned is not the solver's own memory
            out = ref.step()
            before = snapshot(ref)
            out[1][...] = out[1] + 1.0
            out[0][...] = out[0] + 1.0
            after = snapshot(ref)
            for u, v in zip(before, after):
                ctx.closes(u, v, "returned array is the solver's memory")
        ctx.reach("done")


def tasks(tier):
    out = []
    deep = tier != "quick"
    for name in ADAPTIVE[::-1] + FIXED:
        ad = name in ADAPTIVE
        firsts = [None]
        if name in MULTI and steps_of(name) > 1:
            firsts.append("ForwardEuler")
        for first in firsts:
            tag = f"{name}{'+' + first if first else ''}"
            for what in ("", "n", "t", "nt"):
                if first and what not in ("n", "nt") and not deep:
                    continue
                dim = 2 if what in ("", "nt") and (not ad or deep) else 1
                maxn = 3 if not ad else 2
                att = 4 if deep else 3
                if name == "DOP853" and not deep:
                    att, maxn = 2, 2
                calls = 200 if not ad else budget(name, att)
                out.append(Task(f"skip:{tag}:{what}:{dim}", h_skip, dict(name=name, what=what, dim=dim, first=first, maxn=maxn, calls=calls), need=["done"]))
            for n in (1, 2, 3):
                if ad and n == 3:
                    continue
                dim = 2 if not ad else 1
                calls = 300 if not ad else budget(name, 3 if not deep and name == "DOP853" else 4)
                out.append(Task(f"rows:{tag}:{n}", h_rows, dict(name=name, n=n, dim=dim, first=first, calls=calls), need=["done"]))
    return out
