"""C11: run_events against an independent stepping of the same solver: which steps record which events, where, and with which state."""
import warnings

from .common import *
from sx import stubs

BOUNDS = "26 solvers; dimension 1 and 2; any right-hand side, t0 in [-4,4], h in (0,2]; events y_j = c, t = c (either sign) and y_0 + t = c for any c; directions -1, 0, 1 and fractional ones; one to three events; up to 3 steps (thorough 4), one or two run_events calls, adaptive steps always accepted"
ASSUMPTIONS = ["implicit equations and the bisection along the step are replaced by their contracts (C13-C15)"]
TOL = 1e-6


def event(ctx, kind, i, terminal=None, direction=None):
    """(callable, same function) of an event of that kind."""
    c = ctx.real(f"c{i}", -40, 40)

    if kind == "t":
        def g(t, y):
            return t - c
    elif kind == "-t":
        def g(t, y):
            return c - t
    elif kind == "m":
        def g(t, y):
            return y[0] + t - c
    else:
        j = int(kind[1:])

        def g(t, y):
            return y[j] - c

    def ev(t, y):
        return g(t, y)

    if terminal is not None:
        ev.terminal = terminal
    if direction is not None:
        ev.direction = direction
    return ev, g


def new(ctx, name, f, t0, y0, h, first):
    if name in ADAPTIVE:
        o = dict(atol=float("inf"), rtol=0.0, min_factor=1.0, max_factor=1.0)
        return klass(name)(f, t0, y0.copy(), first_step=h, **o)
    return make(ctx, name, f, t0, y0.copy(), h, first=klass(first) if first else None)


def sign(ctx, v):
    if ctx.true(v > 0):
        return 1
    return 0 if ctx.true(v == 0) else -1


def triggers(d, a, b):
    """Does the sign pass from a to b (a step from a zero counts, as in SciPy) in direction d?"""
    up, down = a <= 0 <= b, a >= 0 >= b
    return up if d > 0 else down if d < 0 else up or down


@contextlib.contextmanager
def solving(ctx, log=None, memo=False):
    with rootless(ctx, probe=memo):
        if ctx.sym:
            with stubs.bisection(log, memo):
                yield
        else:
            yield


def h_find(ctx, name, kinds, dirs, n, first, dim, calls):
    t0 = ctx.real("t0", -4, 4)
    h = ctx.pos("h", 2)
    y0 = ctx.vec("y", dim)
    f = ctx.rhs("f", dim)
    evs = [event(ctx, k, i, None, d) for i, (k, d) in enumerate(zip(kinds, dirs))]
    log = []
    with solving(ctx, log), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a, b, r = (new(ctx, name, f, t0, y0, h, first) for _ in range(3))
        start = a.t
        want = [start + (i + 0.5) * h for i in range(n)]
        if calls == 1:
            args = evs[0][0] if len(evs) == 1 else [e for e, _ in evs]
            out = [a.run_events(want, args)]
        else:
            # a current and a past time first, then the rest in two calls
            out = [a.run_events(want[:1], [e for e, _ in evs])]
            out.append(a.run_events([a.t, start + 0.5 * h] + want[1:], [e for e, _ in evs]))
        tb, yb = b.run(want)
        # the same times and states as without events
        if calls == 1:
            ctx.closes(out[0][0], tb, "times with events")
            ctx.closes(out[0][1], yb, "states with events")
        else:
            ctx.closes(out[0][0], tb[:1], "times with events")
            ctx.closes(out[0][1], yb[:1], "states with events")
            ctx.close(out[1][0][1], want[0], "times with events: past")
            ctx.closes(out[1][1][1], yb[0], "states with events: past")
            ctx.closes(out[1][0][2:], tb[1:], "times with events")
            ctx.closes(out[1][1][2:], yb[1:], "states with events")
        ctx.close(a.t, b.t, "final time with events")
        ctx.closes(a.y, b.y, "final state with events")
        # which events
        per_call = [n] if calls == 1 else [1, n - 1]
        keep = []
        for o, m in zip(out, per_call):
            _, _, te, ye = o
            ctx.check(len(te) == len(evs) and len(ye) == len(evs), "one list per event function")
            pos = [0] * len(evs)
            last = [sign(ctx, g(r.t, r.y)) for _, g in evs]
            for i in range(m):
                lo = r.t
                r.step()
                for j, (_, g) in enumerate(evs):
                    s = sign(ctx, g(r.t, r.y))
                    if triggers(dirs[j] or 0, last[j], s):
                        got = pos[j] < len(te[j])
                        if s != 0 and last[j] == 0 and pos[j] and i and ctx.true(te[j][pos[j] - 1] == lo):
                            ctx.reach("same crossing")
                            last[j] = s
                            continue
                        ctx.check(got, f"event not reported")
                        if not got:
                            return
                        t, y = te[j][pos[j]], ye[j][pos[j]]
                        pos[j] += 1
                        if s == 0:
                            ctx.close(t, r.t, "event at the end of the step")
                        elif last[j] == 0:
                            ctx.close(t, lo, "event at the start of the step")
                        else:
                            ctx.check(band(t > lo, t < r.t), "event outside its step")
                            ctx.reach("inside")
                        w = r.interpolate(t)
                        ctx.closes(y, w, "state of the event")
                        v = g(t, w)
                        ctx.check(band(v <= TOL, v >= -TOL), "not a zero of the event function")
                        keep.append((y, flat(np.array(y))))
                        ctx.reach("event")
                    last[j] = s
            for j in range(len(evs)):
                ctx.check(pos[j] == len(te[j]), "event reported without a crossing")
        for e in log:
            ctx.check((e[2] - e[1]) <= TOL * 2.0 ** e[7] if e[7] < 100 else True, "too few bisections")
        a.step()
        for y, k in keep:
            ctx.closes(y, k, "state of an event changes later")
        ctx.reach("done")


def tasks(tier):
    out = []
    deep = tier != "quick"
    n = 4 if deep else 3

    def add(name, kinds, dirs, n, calls=1, dim=1, first=None):
        multi = name in MULTI
        if first is None and multi and steps_of(name) > 1:
            first = "ForwardEuler"
        out.append(
            Task(
                f"find:{name}:{','.join(kinds)}:{','.join(map(str, dirs))}:{n}:{calls}",
                h_find,
                dict(name=name, kinds=kinds, dirs=dirs, n=n, first=first, dim=dim, calls=calls),
                need=["event", "done"],
            )
        )

    for name in ADAPTIVE[::-1] + FIXED:
        big = name in ("RungeKutta4", "ForwardEuler", "AdamsBashforth3", "BDF2", "RungeKutta45", "RungeKutta23", "DOP853")
        for d in (None, 1, -1, 0.25, -3.5):
            if not deep and not big and d not in (None, -1):
                continue
            add(name, ["y0"], [d], n if name not in ADAPTIVE else 2)
        add(name, ["m", "t"], [1, None], 2)
        if big:
            add(name, ["y1", "-t"], [None, -1], 2, dim=2)
            if deep or name != "DOP853":
                add(name, ["-t", "y0", "t"], [0, -1, 1], 2)
            add(name, ["y0"], [None], 3, calls=2)
    return out
