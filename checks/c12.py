"""C12: terminal events against an independent run: what is returned before, at and after the earliest terminal event."""
import itertools
import warnings

from .c11 import TOL, event, new, sign, solving, triggers
from .common import *

BOUNDS = "26 solvers; dimension 1 and 2; any right-hand side, t0 in [-4,4], h in (0,2]; one to three events (t = c with either slope, y_j = c) in every list order and terminal-flag combination; up to 3 requested times anywhere after the current time (also unsorted, current and past ones), up to 3 steps; crossings and requested times at least 1e-6 apart or equal"
ASSUMPTIONS = ["implicit equations and the bisection along the step are replaced by their contracts (C13-C15)"]
GAP = 1e-5


def apart(ctx, xs):
    for a, b in itertools.combinations(xs, 2):
        ctx.assume(bor(a - b > GAP, b - a > GAP))


def same(a, b):
    d = a - b
    return not d.t if isinstance(d, core.Sym) else bool(d == 0)


def h_times(ctx, name, spec, ntimes, first, order, past, span):
    """Events at known times c_i (slope +-1), requested times anywhere."""
    t0 = ctx.real("t0", -4, 4)
    h = ctx.pos("h", 2)
    y0 = ctx.vec("y", 1)
    f = ctx.rhs("f", 1)
    with solving(ctx), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a, b = new(ctx, name, f, t0, y0, h, first), new(ctx, name, f, t0, y0, h, first)
        start = a.t
        evs, at = [], []
        for i, (slope, terminal, d) in enumerate(spec):
            c = ctx.real(f"c{i}", -40, 40)
            ctx.assume(c > start - h)
            ctx.assume(c < start + (span + 0.5) * h)
            at.append(c)

            def ev(t, y, c=c, slope=slope):
                return slope * (t - c)

            if terminal is not None:
                ev.terminal = terminal
            if d is not None:
                ev.direction = d
            evs.append(ev)
        want = []
        for i in range(ntimes):
            w = ctx.real(f"w{i}", -40, 40)
            ctx.assume(w > (start if not want else want[-1]))
            ctx.assume(w <= start + span * h)
            want.append(w)
        apart(ctx, at + want + [start])
        asked = list(want)
        if past:
            asked = [start] + asked
        if order == "unsorted":
            asked = asked[::-1]
        ts, ys, te, ye = a.run_events(asked, evs if len(evs) > 1 or order == "unsorted" else evs[0])
        # the earliest terminal event the run comes across
        tend = b.t
        runto = want[-1]
        stop, which = None, None
        for i, (slope, terminal, d) in enumerate(spec):
            if terminal and not (d and d * slope < 0):
                if ctx.true(at[i] > start):
                    # crossed while stepping: by the end of the step that reaches the last time
                    if stop is None or ctx.true(at[i] < stop):
                        stop, which = at[i], i
        steps = 0
        while steps < span + 1 and ctx.true(b.t < runto) and not (stop is not None and ctx.true(b.t >= stop)):
            b.step()
            steps += 1
        if stop is not None and ctx.true(b.t < stop):
            stop = None  # not reached
        # the sequence of times expected
        expect = [w for w in want if stop is None or ctx.true(w < stop)]
        r = new(ctx, name, f, t0, y0, h, first)
        tr, yr = r.run(expect) if expect else ([], [])
        k = len(expect) + (1 if past else 0)
        ctx.check(len(ts) == k + (stop is not None), "number of times returned")
        if len(ts) != k + (stop is not None):
            return
        got_t, got_y = list(ts[:k]), [flat(y) for y in ys[:k]]
        if order == "unsorted":
            got_t, got_y = got_t[::-1], got_y[::-1]
        if past:
            ctx.close(got_t[0], start, "past time")
            got_t, got_y = got_t[1:], got_y[1:]
        ctx.closes(got_t, expect, "times before the event")
        for u, v in zip(got_y, yr):
            ctx.closes(u, v, "states before the event")
        if stop is not None:
            e = ts[k] - stop
            ctx.check(band(e <= TOL, e >= -TOL), "last time is not that of the earliest terminal event")
            ctx.closes(te[which][-1] if len(te[which]) else float("nan"), ts[k], "terminal event not reported at the end time")
            ctx.closes(ye[which][-1] if len(ye[which]) else float("nan"), flat(ys[k]), "terminal event not reported with the end state")
            # the solution there: from an independent solver that has just done that step
            ctx.closes(ys[k], b.interpolate(ts[k]), "state at the end time")
            ctx.reach(f"terminated by {which}")
        else:
            ctx.reach("not terminated")
        ctx.close(a.t, b.t, "solver stops after the step with the event")
        ctx.closes(a.y, b.y, "solver state after the step with the event")
        # which events are reported
        for i, (slope, terminal, d) in enumerate(spec):
            hit = not (d and d * slope < 0) and ctx.true(at[i] > start) and ctx.true(at[i] < b.t)
            if hit and stop is not None and ctx.true(at[i] > stop):
                hit = False
            if not ctx.true(bor(at[i] - b.t > GAP, b.t - at[i] > GAP)):
                continue
            ctx.check(len(te[i]) == (1 if hit else 0), "event reported although it does not occur before the end" if not hit else "event not reported")
            if hit and len(te[i]):
                e = te[i][0] - at[i]
                ctx.check(band(e <= TOL, e >= -TOL), "time of the event")


def h_state(ctx, name, first, dirs, terminal, n):
    """Events on the state: the first step with a matching terminal crossing ends the run."""
    t0 = ctx.real("t0", -4, 4)
    h = ctx.pos("h", 2)
    y0 = ctx.vec("y", 2)
    f = ctx.rhs("f", 2)
    evs = [event(ctx, f"y{i}", i, t, d) for i, (d, t) in enumerate(zip(dirs, terminal))]
    with solving(ctx), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a, b = new(ctx, name, f, t0, y0, h, first), new(ctx, name, f, t0, y0, h, first)
        start = a.t
        want = [start + (i + 0.5) * h for i in range(n)]
        ts, ys, te, ye = a.run_events(want, [e for e, _ in evs])
        last = [sign(ctx, g(b.t, b.y)) for _, g in evs]
        k = 0
        for i in range(n):
            lo = b.t
            b.step()
            hits = []
            for j, (_, g) in enumerate(evs):
                s = sign(ctx, g(b.t, b.y))
                if terminal[j] and triggers(dirs[j] or 0, last[j], s):
                    hits.append(j)
                last[j] = s
            if hits:
                T, Y = ts[-1], ys[-1]
                ctx.check(band(T >= lo, T <= b.t), "end time outside the step of the first terminal event")
                ctx.closes(Y, b.interpolate(T), "state at the end time")
                ok = False
                for j in hits:
                    if len(te[j]) and same(te[j][-1], T):
                        ok = True
                        ctx.closes(ye[j][-1], Y, "terminal event with the end state")
                        v = evs[j][1](T, b.interpolate(T))
                        ctx.check(band(v <= TOL, v >= -TOL), "event function is not zero at the end time")
                ctx.check(ok, "the end time is not that of a terminal event")
                for l in te:
                    for t in l:
                        ctx.check(t <= T, "event after the end")
                m = len(ts) - 1
                # requested times before the end, all of them
                ctx.check(i <= m <= i + 1, "requested times before the end")
                if not i <= m <= i + 1:
                    return
                ctx.check((m == i + 1) == ctx.true(want[i] < T), "requested times before the end")
                r = new(ctx, name, f, t0, y0, h, first)
                tr, yr = r.run(want[:m]) if m else ([], [])
                ctx.closes(ts[:m], want[:m], "times before the end")
                if m:
                    ctx.closes(ys[:m], yr, "states before the end")
                ctx.reach("terminated")
                return
        ctx.check(len(ts) == n, "ended without a terminal event")
        ctx.reach("not terminated")


def tasks(tier):
    out = []
    deep = tier != "quick"
    T, N = True, None
    one = [(1, T, N)]
    specs = {
        "one": one,
        "one down": [(-1, T, -1)],
        "wrong direction": [(1, T, -1)],
        "not terminal": [(-1, False, N)],
        "terminal and not": [(1, N, N), (-1, T, N)],
        "not and terminal": [(-1, T, N), (1, N, 1)],
        "two terminal": [(1, T, N), (-1, T, -1)],
        "late first": [(1, T, 1), (1, T, -1), (-1, T, 0)],
    }

    def add(name, tag, ntimes, order="sorted", past=False, span=2):
        first = "ForwardEuler" if name in MULTI and steps_of(name) > 1 else None
        need = ["not terminated"]
        sp = specs[tag]
        if any(t and not (d and d * s < 0) for s, t, d in sp):
            need = need + [f"terminated by {i}" for i, (s, t, d) in enumerate(sp) if t and not (d and d * s < 0)]
        out.append(Task(f"times:{name}:{tag}:{ntimes}:{order}:{past}:{span}", h_times, dict(name=name, spec=sp, ntimes=ntimes, first=first, order=order, past=past, span=span), need=need))

    big = ("RungeKutta45", "DOP853", "RungeKutta23", "RungeKutta4", "ForwardEuler", "AdamsBashforth3", "BDF2")
    for name in ADAPTIVE[::-1] + FIXED:
        first = "ForwardEuler" if name in MULTI and steps_of(name) > 1 else None
        add(name, "one", 2)
        add(name, "terminal and not", 1)
        out.append(Task(f"state:{name}", h_state, dict(name=name, first=first, dirs=[None, -1], terminal=[True, True], n=2 if deep or name != "DOP853" else 1), need=["terminated", "not terminated"]))
        if name in big or deep:
            add(name, "one", 3, span=2 + deep)
            add(name, "one down", 2, "unsorted")
            add(name, "one", 2, "unsorted", True)
            add(name, "one", 1, "sorted", True)
            add(name, "wrong direction", 1)
            add(name, "not terminal", 2)
            add(name, "not and terminal", 2)
            add(name, "two terminal", 2)
            add(name, "late first", 1)
            if name == "DOP853" and not deep:
                continue
            for dirs, term in (([1, None], [True, None]), ([-1, 1], [False, True])):
                out.append(Task(f"state:{name}:{dirs}:{term}", h_state, dict(name=name, first=first, dirs=dirs, terminal=term, n=2 + (deep and name != "DOP853")), need=["terminated", "not terminated"]))
    return out
