"""C01: step/skip with every combination of count and target, from an arbitrary solver state."""
from .common import *

BOUNDS = "26 solvers; dimension 1; t0 in [-4,4], h in (0,2], bounds and targets in [-8,8] or infinite; <=2 calls, <=3 steps per call; adaptive: <=3 attempts in all, scripted step-size factors (1/2 on reject or accept, 2 on zero error); rhs values in [-8,8]"
ASSUMPTIONS = ["implicit equations: the root finder is replaced by its contract (C14, C15)"]


def call(ctx, s, name, kind, what, n, target, bound, tag):
    """One call; returns False if the solver stopped (exception)."""
    adaptive = name in ADAPTIVE
    t = s.t
    y = flat(s.y)
    h = s.h.item() if hasattr(s.h, "item") else s.h
    kw = {}
    if "n" in what:
        kw["n"] = n
    if "t" in what:
        kw["upto_t"] = target
    behind = "t" in what and bool(target < t)
    beyond = "t" in what and not behind and bool(target > bound)
    exc = None
    out = None
    try:
        out = getattr(s, kind)(**kw)
    except (ValueError, RuntimeError) as e:
        exc = e
    if behind:
        ctx.reach("behind")
        ctx.check(exc is None, f"{tag} target behind the solver raises")
        ctx.close(s.t, t, f"{tag} target behind the solver moves it")
        if kind == "step" and exc is None:
            ctx.check(len(out[0]) == 0, f"{tag} target behind the solver returns steps")
        return True
    if beyond:
        ctx.reach("beyond")
        ctx.check(isinstance(exc, ValueError), f"{tag} target beyond t_bound accepted")
        ctx.close(s.t, t, f"{tag} rejected call moves the solver")
        return False
    count = n if "n" in what else (1 if what == "" else None)
    limit = target if "t" in what else bound
    # expected
    if not adaptive:
        exp = []
        tc = t
        while count is None or len(exp) < count:
            if tc + h > limit:
                break
            tc = tc + h
            exp.append(tc)
        done = count is None or len(exp) == count
        must_raise = what in ("", "n") and not done
        if must_raise:
            ctx.reach("raises")
        ctx.check(
            isinstance(exc, RuntimeError) if must_raise else exc is None,
            f"{tag} RuntimeError exactly when the count does not fit (raised {type(exc).__name__})",
        )
        ctx.close(s.t, tc, f"{tag} current time")
        if kind == "step" and exc is None:
            ctx.closes(out[0], exp, f"{tag} times")
        if len(exp) == 2:
            ctx.reach("two")
    else:
        ts = None
        if kind == "step" and exc is None:
            ts = flat(out[0])
            prev = t
            for x in ts:
                ctx.check(x > prev, f"{tag} times increase")
                ctx.check(x <= limit, f"{tag} step beyond the limit")
                prev = x
            ctx.close(s.t, prev, f"{tag} current time")
            if count is not None:
                ctx.check(len(ts) <= count, f"{tag} more steps than asked for")
        ctx.check(s.t <= limit, f"{tag} beyond the limit")
        hn = s.h.item() if hasattr(s.h, "item") else s.h
        if what in ("", "n"):
            if exc is not None:
                ctx.reach("raises")
                ctx.check(isinstance(exc, RuntimeError), f"{tag} exception type")
                ctx.check(s.t >= limit, f"{tag} raised although another step fits")
            elif ts is not None:
                ctx.check(len(ts) == count, f"{tag} number of steps")
                if count == 2:
                    ctx.reach("two")
        else:
            ctx.check(exc is None, f"{tag} raised")
            if ts is not None and (count is None or len(ts) < count):
                ctx.check(s.t + hn > limit, f"{tag} stopped although another step fits")
    if kind == "skip":
        ctx.check(out is None, f"{tag} skip returns a value")
    if exc is None and kind == "step":
        ctx.check(len(out[0]) == len(flat(out[1])), f"{tag} one state per step")
    return exc is None


def h_calls(ctx, name, kind, what, maxn, second, attempts=3):
    adaptive = name in ADAPTIVE
    t0 = ctx.real("t0", -4, 4)
    h = ctx.pos("h", 2)
    f = limited(ctx, ctx.rhs("f", 1), 60 if not adaptive else budget(name, attempts))
    y0 = ctx.vec("y", 1)
    bounded = ctx.choice("bounded", [True, False])
    bound = ctx.real("tb", -8, 16) if bounded else float("inf")
    if bounded:
        ctx.assume(bound >= t0)
    with rootless(ctx):
        s = make(ctx, name, f, t0, y0, h, t_bound=bound)
        n = ctx.choice("n", range(0, maxn + 1)) if "n" in what else None
        target = ctx.real("target", -8, 16)
        if "t" in what:
            if n is None:
                ctx.assume(target < t0 + (maxn + 0.5) * h)
        ok = call(ctx, s, name, kind, what, n, target, bound, "first call:")
        ctx.reach("done")
        if second and ok:
            n2 = 1
            target2 = ctx.real("target2", -8, 16)
            if "t" in second:
                ctx.assume(target2 < s.t + 1.5 * h)
            k2 = "skip" if kind == "step" else "step"
            call(ctx, s, name, k2, second, n2, target2, bound, "second call:")


def h_fp64(ctx, name, kind, what):
    """IEEE double arithmetic of the time axis; the right-hand side is zero."""
    t0, h, bound = ctx.real("t0"), ctx.real("h"), ctx.real("tb")
    for v in (t0, h, bound):
        ctx.assume(abs(v) <= 1e300)
    ctx.assume(h > 0.0)
    ctx.assume(t0 <= bound)
    zero = np.zeros(1)

    def f(t, y):
        return zero

    s = make(ctx, name, ctx.jitted(f), t0, np.array([1.0]), h, t_bound=bound if what == "n" else np.inf)
    try:
        out = s.step(n=2) if what == "n" else s.step(n=2, upto_t=bound)
        ts = flat(out[0])
    except RuntimeError:
        ts = None
    ctx.reach("done" if ts is not None else "raises")
    ctx.check(s.t <= bound, "fp64: beyond the limit")
    if ts is not None:
        prev = t0
        for x in ts:
            ctx.check(x <= bound, "fp64: step beyond the limit")
            ctx.check(x >= prev, "fp64: time goes back")
            prev = x
        ctx.check(s.t == prev, "fp64: current time")


def tasks(tier):
    out = []
    deep = tier != "quick"
    for name in ["ForwardEuler", "Runge2"]:
        for what in ("n", "nt"):
            out.append(Task(f"fp64:{name}:{what}", h_fp64, dict(name=name, kind="step", what=what), need=["done"], fp=True, soft=True, query_timeout=120000, branch_timeout=60000))
    for name in ADAPTIVE[::-1] + FIXED:
        ad = name in ADAPTIVE
        for kind in ("step", "skip"):
            for what in ("", "n", "t", "nt"):
                maxn = 2 if ad and not deep else 3 if deep or name in ("Runge2", "AdamsBashforth2") else 2
                second = "n" if what == "t" else "nt"
                if ad:
                    maxn = 2
                    second = None if not deep else second
                need = ["done"]
                if what in ("n",):
                    need += ["raises", "two"] if kind == "step" or not ad else ["raises"]
                if "t" in what:
                    need += ["behind", "beyond"]
                out.append(Task(f"{name}:{kind}({what})", h_calls, dict(name=name, kind=kind, what=what, maxn=maxn, second=second, attempts=2 if name == "DOP853" and not deep else 3), need=need))
    return out
