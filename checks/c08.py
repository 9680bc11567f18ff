"""C08: the history right after construction against an independent run of the first stepper, at any t0, h and t_bound."""
import warnings

from .common import *

BOUNDS = "18 multistep solvers; dimension 1 and 2; any right-hand side, t0 in [-4,4], h in (0,2], t_bound anywhere in [-8,32] or infinite; first steppers: every fixed-step explicit Runge-Kutta solver, forward and backward Euler, the adaptive solvers with steps of any fixed length in [h/2, 3h] that are always accepted, the default one on y'=c; none"
ASSUMPTIONS = ["implicit equations: the root finder is replaced by its contract (C14, C15)", "a variable first stepper's run is itself right (C01, C06)"]

_cls = {}


def stepper(name, h1):
    """The solver class, variable-step ones with steps of length h1 always accepted."""
    base = klass(name)
    if name not in ADAPTIVE:
        return base

    class First(base, abstract=True):
        def __init__(self, *a, **kw):
            super().__init__(*a, first_step=h1, atol=float("inf"), rtol=0.0, min_factor=1.0, max_factor=1.0, **kw)

    return First


def same_history(ctx, s, want, f, tag):
    """want: list of (t, y)."""
    m = len(s.cache.ts)
    ctx.check(m >= len(want), f"{tag}: history too short")
    ts, ys, fs = snapshot(s)
    n = len(ys) // m
    for i, (t, y) in enumerate(want):
        j = m - len(want) + i
        ctx.close(ts[j], t, f"{tag}: time of history point")
        ctx.closes(ys[j * n : (j + 1) * n], y, f"{tag}: state of history point")
        ctx.closes(fs[j * n : (j + 1) * n], f(t, ctx.array(flat(y))), f"{tag}: derivative at history point")
    ctx.close(s.t, want[-1][0], f"{tag}: t")
    ctx.closes(s.y, want[-1][1], f"{tag}: y")


def h_fixed(ctx, name, first, dim, bounded):
    t0 = ctx.real("t0", -4, 4)
    h = ctx.pos("h", 2)
    f = ctx.rhs("f", dim)
    y0 = ctx.vec("y", dim)
    k = klass(name).ORDER
    fc = klass(first)
    with rootless(ctx):
        r = fc(f, t0, y0.copy(), h=h) if first not in MULTI else fc(f, t0, y0.copy(), h=h, first_stepper_cls=None)
        want = [(t0, flat(y0))]
        for _ in range(k - 1):
            r.step()
            want.append((r.t, flat(r.y.copy())))
        tb = ctx.real("tb", -8, 32) if bounded else float("inf")
        if bounded:
            ctx.assume(tb >= t0)
        try:
            s = klass(name)(f, t0, y0.copy(), h=h, t_bound=tb, first_stepper_cls=fc)
        except RuntimeError:
            # only when the history does not fit before the bound
            ctx.check(want[-1][0] > tb, "refused although the history fits")
            ctx.reach("refused")
            return
        if bounded:
            for t in snapshot(s)[0]:
                ctx.check(t <= tb, "history beyond t_bound")
            ctx.check(s.t <= tb, "starts beyond t_bound")
            if not ctx.true(want[-1][0] <= tb):
                ctx.reach("truncated")
                return
        same_history(ctx, s, want, f, f"{first}")
        ctx.closes(y0, want[0][1], "initial state modified")
        ctx.reach("done")


def h_variable(ctx, name, first, dim, bounded, calls):
    t0 = ctx.real("t0", -4, 4)
    h = ctx.pos("h", 2)
    h1 = ctx.pos("h1", 6)
    ctx.assume(h1 >= 0.5 * h)
    ctx.assume(h1 <= 3 * h)
    f = counted(ctx, ctx.rhs("f", dim), calls)
    y0 = ctx.vec("y", dim)
    X = stepper(first, h1)
    with rootless(ctx):
        tb = float("inf")
        if bounded:
            tb = ctx.real("tb", -8, 32)
            ctx.assume(tb >= t0)
        n = klass(name).ORDER
        try:
            s = klass(name)(f, t0, y0.copy(), h=h, t_bound=tb, first_stepper_cls=X)
        except (RuntimeError, ValueError):
            ctx.check(t0 + (n - 1) * h > tb, "refused although the history fits")
            ctx.reach("refused")
            return
        if bounded:
            for t in snapshot(s)[0]:
                ctx.check(t <= tb, "history beyond t_bound")
            if not ctx.true(t0 + (n - 1) * h <= tb):
                ctx.reach("truncated")
                return
        r = X(f, t0, y0.copy(), t_bound=tb)
        ts, ys = r.run([t0 + i * h for i in range(1, n)])
        want = [(t0, flat(y0))] + [(t, flat(y)) for t, y in zip(ts, ys)]
        same_history(ctx, s, want, f, f"{first}")
        ctx.close(s.t, t0 + (n - 1) * h, "starting time")
        ctx.reach("done")


def h_none(ctx, name, dim):
    t0 = ctx.real("t0", -4, 4)
    h = ctx.pos("h", 2)
    f = ctx.rhs("f", dim)
    y0 = ctx.vec("y", dim)
    with rootless(ctx):
        s = klass(name)(f, t0, y0, h=h, first_stepper_cls=None)
        ctx.close(s.t, t0, "starting time")
        ctx.closes(s.y, y0, "starting state")
        ctx.closes(s.f, f(t0, y0), "starting derivative")
        for t in snapshot(s)[0]:
            ctx.check(t <= t0, "history after t0")
        ctx.reach("done")


def h_auto(ctx, name, how):
    """The default first stepper on y' = c: the history lies on the line."""
    t0 = ctx.real("t0", -4, 4)
    h = ctx.real("h", 0.25, 1)
    y0 = np.array([1.0, -2.0])

    def f(t, y):
        return ctx.array([1.0, -0.5])

    kw = dict() if how == "default" else dict(first_stepper_cls=how)
    with rootless(ctx), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = klass(name)(f, t0, y0, h=h, **kw)
        n = klass(name).ORDER
        want = [(t0 + i * h, [y0[0] + i * h, y0[1] - 0.5 * i * h]) for i in range(n)]
        same_history(ctx, s, want, f, how)
        ctx.reach("done")


def tasks(tier):
    out = []
    deep = tier != "quick"
    big = [n for n in MULTI if steps_of(n) > 1 and n != "AdamsMoulton2"]
    for name in big[::-1]:
        for first in ADAPTIVE[::-1]:
            n = steps_of(name) - (name in AM)
            calls = 2 * (2 * n + 2) * STAGES[first] + 40
            for bounded in (False, True):
                if not deep and (bounded or first == "DOP853") and name not in ("AdamsBashforth3", "AdamsMoulton4", "BDF2"):
                    continue
                out.append(Task(f"variable:{name}:{first}:{bounded}", h_variable, dict(name=name, first=first, dim=1, bounded=bounded, calls=calls), need=["done"]))
    for name in MULTI:
        out.append(Task(f"none:{name}", h_none, dict(name=name, dim=2), need=["done"]))
        for first in ["RungeKutta4", "ForwardEuler", "BackwardEuler"] + (ERK if deep or name in ("BDF4", "AdamsBashforth5") else []):
            for bounded in (False, True):
                if bounded and first == "BackwardEuler":
                    continue
                out.append(Task(f"fixed:{name}:{first}:{bounded}", h_fixed, dict(name=name, first=first, dim=2 if first != "BackwardEuler" else 1, bounded=bounded), need=["done"]))
        for how in ("default", "RungeKutta23"):
            out.append(Task(f"auto:{name}:{how}", h_auto, dict(name=name, how=how), need=["done"]))
    return out
