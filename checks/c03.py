"""C03: every kind of request with symbolic times from a solver advanced some steps; ValueError exactly outside the valid range, and then nothing changed."""
from .common import *

BOUNDS = "26 solvers; dimension 1 (2 in some); after 0..2 steps (more for long histories); t0 in [-4,4], h in (0,2]; one or two requested times, each any real in [-20,20]; t_bound any or infinite; in-range requests at most 2.5 steps ahead (adaptive: within 3 attempts in all)"
ASSUMPTIONS = ["implicit equations: the root finder is replaced by its contract (C14, C15)"]


def full(s):
    k = []
    if hasattr(s, "K"):
        k = flat(np.array(s.K)) if False else []
    return [s.t, flat(s.y.copy()), flat(s.f.copy()), flat(np.array(s.h))] + snapshot(s) + k


def h_request(ctx, name, kind, steps, first, calls, ahead, dim, events):
    t0 = ctx.real("t0", -4, 4)
    h = ctx.pos("h", 2)
    f = limited(ctx, ctx.rhs("f", dim), calls)
    y0 = ctx.vec("y", dim)
    bound = float("inf")
    if ctx.choice("bounded", [True, False]):
        bound = ctx.real("tb", -20, 20)
        ctx.assume(bound >= t0 + (steps + (steps_of(name) - 1 if first else 0)) * h)
    fc = klass(first) if first else None
    with rootless(ctx), (stubs.bisection() if ctx.sym else contextlib.nullcontext()):
        s = make(ctx, name, f, t0, y0, h, t_bound=bound, first=fc)
        for _ in range(steps):
            try:
                s.skip()
            except RuntimeError:
                if ctx.sym:
                    raise PathAbort("bound")
                return
        T = ctx.real("T", -20, 20)
        ts = [T]
        if kind in ("run2", "events2"):
            ts.append(ctx.real("T2", -20, 20))
        t, lo = s.t, s.cache.ts[0]
        for x in ts:
            ctx.assume(bor(x <= t + ahead * h, x > bound))
        oob = bor(*[x > bound for x in ts])
        if kind in ("run", "run2", "events", "events2"):
            oob = bor(oob, *[x < lo for x in ts])
        if kind == "interpolate":
            oob = bor(T < lo, T > t)
        invalid = ctx.true(oob)
        before = full(s)
        exc = None

        def ev(t, y):
            return 1.0

        try:
            if kind == "interpolate":
                s.interpolate(T)
            elif kind == "run":
                s.run(T)
            elif kind == "run2":
                s.run(ctx.array(ts))
            elif kind == "events":
                s.run_events(T, events and ctx.jitted(ev))
            elif kind == "events2":
                s.run_events(ctx.array(ts), [ctx.jitted(ev)])
            elif kind == "step_t":
                s.step(upto_t=T)
            elif kind == "step_nt":
                s.step(n=2, upto_t=T)
            elif kind == "skip_t":
                s.skip(upto_t=T)
            elif kind == "skip_nt":
                s.skip(n=2, upto_t=T)
        except ValueError as e:
            exc = e
        if invalid:
            ctx.reach("invalid")
            ctx.check(exc is not None, "request outside the valid range accepted")
            after = full(s)
            for a, b, w in zip(before, after, ("t", "y", "f", "h", "ts", "ys", "fs")):
                ctx.closes(a, b, f"rejected request changed {w}")
        else:
            ctx.reach("valid")
            ctx.check(exc is None, f"request inside the valid range rejected: {exc}")


def tasks(tier):
    out = []
    deep = tier != "quick"
    kinds = ["interpolate", "run", "run2", "events", "events2", "step_t", "step_nt", "skip_t", "skip_nt"]
    for name in ADAPTIVE[::-1] + FIXED:
        ad = name in ADAPTIVE
        for kind in kinds:
            for steps in (0, 2):
                if not deep and kind in ("skip_nt", "step_nt") and steps == 0:
                    continue
                att = 3
                if ad and not deep:
                    att = 2
                    if kind in ("run2", "events2", "events"):
                        steps = min(steps, 1)
                        att = steps + 1
                calls = 200 if not ad else budget(name, att)
                out.append(Task(
                    f"{name}:{kind}:{steps}", h_request,
                    dict(name=name, kind=kind, steps=steps, first="ForwardEuler" if name in MULTI and steps else None, calls=calls, ahead=2.5 if kind not in ("run2", "events2") else 1.5, dim=2 if kind == "run2" and not ad else 1, events=True),
                    need=["invalid", "valid"],
                ))
    return out
