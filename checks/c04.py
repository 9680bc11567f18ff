"""C04: run with symbolic times in symbolic order against single-time runs, stepwise integration plus interpolation, and split runs, all driven by the same uninterpreted right-hand side."""
from .common import *

BOUNDS = "26 solvers; dimension 1 (2 for some); 0 to 3 requested times, each any real between the oldest recorded time and 2.2 steps ahead (adaptive: reached within 2 or 3 attempts), any order, repetitions included; started after 0..2 steps"
ASSUMPTIONS = ["implicit equations: the root finder is replaced by its contract (C14, C15)"]


def h_run(ctx, name, m, steps, first, calls, ahead, dim, mode):
    t0 = ctx.real("t0", -4, 4)
    h = ctx.pos("h", 2)
    f = limited(ctx, ctx.rhs("f", dim), calls)
    y0 = ctx.vec("y", dim)
    fc = klass(first) if first else None

    def new():
        s = make(ctx, name, f, t0, y0, h, first=fc)
        if steps:
            s.skip(n=steps)
        return s

    with rootless(ctx):
        s = new()
        t, lo = s.t, s.cache.ts[0]
        T = [ctx.real(f"T{i}", -30, 30) for i in range(m)]
        for x in T:
            ctx.assume(x >= lo)
            ctx.assume(x <= t + ahead * h)
        if mode == "scalar":
            ts, ys = s.run(T[0])
            arr = None
        elif mode == "list":
            ts, ys = s.run(list(T))
            arr = None
        else:
            arr = ctx.array(T)
            ts, ys = s.run(arr)
        ctx.check(len(ts) == m and len(ys) == m, "one value per requested time")
        if len(ts) != m or len(ys) != m:
            return
        ctx.closes(ts, T, "times returned in the requested order")
        if arr is not None:
            ctx.closes(arr, T, "the caller's array is modified")
        ctx.check(ys.shape == (m, dim), "shape of the states")
        got = [flat(np.array(ys[i])) for i in range(m)]
        for i in range(m):
            if m > 1:
                r = new()
                t1, y1 = r.run(T[i])
                ctx.closes(got[i], flat(y1), "value depends on the other requested times")
            d = new()
            for _ in range(8):
                if not ctx.true(d.t < T[i]):
                    break
                d.step()
            ctx.closes(got[i], flat(d.interpolate(T[i])), "value is not the dense output of the step containing it")
            ctx.closes(flat(np.array(ys[i])), got[i], "a returned value changes later")
        if m > 1:
            order = sorted(range(m), key=_Key(ctx, T))
            sp = new()
            outs = [(i, sp.run(T[i])) for i in order]
            for i, (ti, yi) in outs:
                ctx.closes(ti, [T[i]], "split runs: time")
                ctx.closes(flat(yi), got[i], "split runs: value depends on the split")
        s.skip(n=1)
        for i in range(m):
            ctx.closes(flat(np.array(ys[i])), got[i], "a returned value changes when the solver advances")
        ctx.reach("done")


def h_empty(ctx, name, first, steps):
    """No requested times: no values, nothing done."""
    t0, h = ctx.real("t0", -4, 4), ctx.pos("h", 2)
    f = limited(ctx, ctx.rhs("f", 2), budget(name, 3) if name in ADAPTIVE else 300)
    with rootless(ctx):
        s = make(ctx, name, f, t0, ctx.vec("y", 2), h, first=klass(first) if first else None)
        if steps:
            s.skip(n=steps)
        before = snapshot(s)
        for empty in ([], ctx.array([])):
            ts, ys = s.run(empty)
            ctx.check(len(ts) == 0 and len(ys) == 0, "a value nobody asked for")
            got = s.run_events(empty, [lambda t, y: y[0], lambda t, y: y[1] - t])
            ctx.check([len(x) for x in got] == [0, 0, 2, 2], "size of the results of run_events")
            ctx.check(not any(len(x) for x in (*got[2], *got[3])), "an event without a step")
        ctx.closes([v for x in snapshot(s) for v in flat(x)], [v for x in before for v in flat(x)], "the solver changed")
    ctx.reach("done")


def _Key(ctx, T):
    class K:
        def __init__(self, i):
            self.i = i

        def __lt__(self, o):
            return ctx.true(T[self.i] < T[o.i])

    return K


def tasks(tier):
    out = []
    deep = tier != "quick"
    for name in ADAPTIVE[::-1] + FIXED:
        for steps in (0, 1):
            out.append(Task(f"{name}:empty:{steps}", h_empty, dict(name=name, first="ForwardEuler" if name in MULTI and steps else None, steps=steps), need=["done"]))
        ad = name in ADAPTIVE
        multi = name in MULTI
        for m, steps, mode in ((2, 0, "array"), (2, 2, "array"), (1, 1, "scalar"), (1, 0, "list"), (3, 1, "array")):
            if m == 3 and not deep and name not in ("ForwardEuler", "Heun3", "BDF3"):
                continue
            ahead = 1.2 if m == 3 else 2.2
            if ad:
                if m == 2 and not deep:
                    steps = min(steps, 1)
                att = 3 if (m == 1 or deep) and name != "DOP853" else 2
                calls = budget(name, att)
                ahead = 1.5 if m > 1 else 2.5
            else:
                calls = 300
            dim = 2 if not ad and m == 2 and steps == 0 else 1
            first = "ForwardEuler" if multi and steps else None
            out.append(Task(f"{name}:{m}:{steps}:{mode}", h_run, dict(name=name, m=m, steps=steps, first=first, calls=calls, ahead=ahead, dim=dim, mode=mode), need=["done"]))
    return out
