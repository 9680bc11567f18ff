"""C05: dense output - recorded states exactly, the Hermite cubic between them (any right-hand side), the pairs' own interpolants on all rooted trees up to their order, joining states and derivatives, and no memory of other steps."""
from . import trees
from .common import *

BOUNDS = "26 solvers; dimension 1 and 2; any right-hand side, t0 in [-4,4], h in (0,2], any point of the recorded history; history filled by up to k+1 steps (adaptive: <=3 accepted steps, <=4 attempts); order of the pairs' interpolants on all rooted trees up to 3, 4 and 7 vertices"
ASSUMPTIONS = ["implicit equations: the root finder is replaced by its contract (C14, C15)", "Butcher's theorem for the order of the interpolants"]

DENSE = {"RungeKutta23": 3, "RungeKutta45": 4, "DOP853": 7}


def advance(ctx, s, n):
    """n steps; the recorded points."""
    pts = []
    for _ in range(n):
        s.step()
        pts.append((s.t, flat(s.y.copy()), flat(s.f.copy())))
    return pts


def h_recorded(ctx, name, n, first, calls, dim):
    t0 = ctx.real("t0", -4, 4)
    h = ctx.pos("h", 2)
    f = limited(ctx, ctx.rhs("f", dim), calls)
    y0 = ctx.vec("y", dim)
    with rootless(ctx):
        s = make(ctx, name, f, t0, y0, h, first=klass(first) if first else None)
        rec = [(t, flat(np.array(y))) for t, y in zip(s.cache.ts, s.cache.ys)]
        ctx.closes(s.interpolate(t0 if not first else s.t), rec[-1][1], "at the initial time")
        for t, y, _ in advance(ctx, s, n):
            rec.append((t, y))
        # what is still in the history, by the length of the history
        k = len(s.cache.ts)
        for t, y in rec[-k:]:
            v = s.interpolate(t)
            ctx.closes(v, y, "interpolation at a recorded time")
            v[...] = v + 1.0
            ctx.closes(s.interpolate(t), y, "interpolation returns the solver's own memory")
        v = s.interpolate(rec[-1][0])
        s.step()
        ctx.closes(v, rec[-1][1], "interpolated value changes later")
        ctx.reach("done")


def h_hermite(ctx, name, n, first, dim):
    """Any time of the history: the cubic Hermite interpolant of the bracketing step."""
    t0 = ctx.real("t0", -4, 4)
    h = ctx.pos("h", 2)
    f = ctx.rhs("f", dim)
    y0 = ctx.vec("y", dim)
    with rootless(ctx):
        s = make(ctx, name, f, t0, y0, h, first=klass(first) if first else None)
        rec = [(t, flat(np.array(y))) for t, y in zip(s.cache.ts, s.cache.ys)]
        rec += [(t, y) for t, y, _ in advance(ctx, s, n)]
        k = len(s.cache.ts)
        rec = rec[-k:]
        fs = [flat(f(t, ctx.array(y))) for t, y in rec]
        T = ctx.real("T", -30, 30)
        ctx.assume(T >= rec[0][0])
        ctx.assume(T <= rec[-1][0])
        v = flat(s.interpolate(T))
        for i in range(1, k):
            if ctx.true(T <= rec[i][0]):
                break
        ta, ya = rec[i - 1]
        tb, yb = rec[i]
        if not ctx.true(tb > ta):
            ctx.closes(v, yb, "empty step")
            return
        dt = tb - ta
        x = (T - ta) / dt
        for j in range(dim):
            w = (
                (1 + 2 * x) * (1 - x) * (1 - x) * ya[j]
                + x * (1 - x) * (1 - x) * dt * fs[i - 1][j]
                + x * x * (3 - 2 * x) * yb[j]
                + x * x * (x - 1) * dt * fs[i][j]
            )
            ctx.close(v[j], w, "not the Hermite interpolant of the bracketing step")
        ctx.reach(f"interval {k - i}")


def h_joins(ctx, name, n, calls):
    """The interpolant of the last step joins states and derivatives."""
    t0 = ctx.real("t0", -4, 4)
    h = ctx.pos("h", 2)
    f = limited(ctx, ctx.rhs("f", 1), calls)
    y0 = ctx.vec("y", 1)
    with rootless(ctx):
        s = make(ctx, name, f, t0, y0, h, first=None)
        prev = (s.t, flat(s.y.copy()), flat(s.f.copy()))
        for _ in range(n):
            prev = (s.t, flat(s.y.copy()), flat(s.f.copy()))
            s.step()
        t, y, fn = s.t, flat(s.y), flat(f(s.t, s.y.copy()))
        dt = t - prev[0]

        def at(x):
            T = prev[0] + x * dt
            ctx.assume(T > prev[0])  # redundant; for the linear abstraction
            ctx.assume(T < t)
            return s.interpolate(T)

        c = ctx.poly(at, 7)
        for j in range(1):
            col = [ci[j] for ci in c]
            ctx.close(col[0], prev[1][j], "start of the step: state")
            ctx.close(sum(col[1:], col[0]), y[j], "end of the step: state")
            ctx.close(col[1], dt * prev[2][j], "start of the step: derivative", 1e-8)
            ctx.close(sum((k * col[k] for k in range(2, 8)), col[1]), dt * fn[j], "end of the step: derivative", 1e-8)
        ctx.reach("done")


def h_trees(ctx, name, p):
    t0 = ctx.real("t0", -2, 2)
    h = ctx.real("h", 0.5, 1)
    lams = [ctx.real("lam0", -1, 1), ctx.real("lam1", -1, 1)]
    S = trees.System(ctx, p, lams, t0)
    f = counted(ctx, S.rhs(), 40)
    s = klass(name)(f, t0, np.zeros(S.n), first_step=h, atol=float("inf"), rtol=0.0, max_factor=1.0, min_factor=1.0)
    for k in range(2):
        s.step()
        a, b = t0 + k * h, t0 + (k + 1) * h

        def at(x):
            T = a + x * h
            ctx.assume(T > a)  # redundant; for the linear abstraction
            ctx.assume(T < b)
            return s.interpolate(T)

        c = ctx.poly(at, 8)
        # exact: ((k + x) h)^r / gamma
        for i, tau in enumerate(S.trees):
            r = trees.size(tau)
            g = trees.gamma(tau)
            for e in range(len(c)):
                w = 0.0
                if e <= r:
                    import math

                    num = math.comb(r, e) * (k ** (r - e))
                    w = (h ** r) * num * (1.0 / g)
                ctx.close(c[e][i], w, f"dense output: order {r} condition", 1e-8)
    ctx.reach("done")


def h_memory(ctx, name, pattern, calls, first):
    """Interpolations between and after steps equal those of a solver asked only once."""
    t0 = ctx.real("t0", -4, 4)
    h = ctx.pos("h", 2)
    f = limited(ctx, ctx.rhs("f", 1), calls)
    y0 = ctx.vec("y", 1)

    def new():
        return make(ctx, name, f, t0, y0, h, first=klass(first) if first else None)

    with rootless(ctx):
        s = new()
        steps = 0
        asked = []
        for i, op in enumerate(pattern):
            if op == "s":
                s.step()
                steps += 1
            elif op == "k":
                s.skip(n=1)
                steps += 1
            else:
                a, b = s.cache.ts[-2], s.t
                x = ctx.real(f"x{op}", 0, 1)
                T = a + x * (b - a)
                ctx.assume(T >= a)  # redundant; for the linear abstraction
                ctx.assume(T <= b)
                v = s.interpolate(T)
                keep = flat(np.array(v))
                r = new()
                if steps:
                    r.skip(n=steps)
                ctx.closes(keep, flat(r.interpolate(T)), f"interpolation {i} of {pattern} depends on earlier calls")
                asked.append((v, keep))
        for v, keep in asked:
            ctx.closes(v, keep, "interpolated value changes later")
        ctx.reach("done")


def tasks(tier):
    out = []
    deep = tier != "quick"
    for name in ADAPTIVE[::-1]:
        out.append(Task(f"trees:{name}", h_trees, dict(name=name, p=DENSE[name]), need=["done"], loose=1e-8))
    for name in ADAPTIVE[::-1] + FIXED:
        ad = name in ADAPTIVE
        multi = name in MULTI
        k = max(2, steps_of(name))
        att = (3 if name == "DOP853" else 4) if not deep else (4 if name == "DOP853" else 5)
        calls = 300 if not ad else budget(name, att) + 3 * att * (name == "DOP853")
        for first in [None] + (["ForwardEuler"] if multi and k > 2 else []):
            out.append(Task(f"recorded:{name}:{first}", h_recorded, dict(name=name, n=(1 if first else k + 1) if not ad else 2, first=first, calls=calls, dim=2 if not ad else 1), need=["done"]))
        if not ad:
            first = "ForwardEuler" if multi and k > 1 else None
            for n in (0, 1, 2):
                if not n and not (multi and steps_of(name) > 2):
                    continue
                need = [f"interval {j}" for j in range(1, max(2, k - (name in AM)))] if first else ["interval 1"]
                out.append(Task(f"hermite:{name}:{n}", h_hermite, dict(name=name, n=n, first=first, dim=2 if n == 1 else 1), need=need))
        for n in (1, 2):
            out.append(Task(f"joins:{name}:{n}", h_joins, dict(name=name, n=n, calls=calls), need=["done"]))
        for pattern in ("s1s2", "s12", "s1k1s3", "1s21k2", "s1s1s1" if not ad else "k12k2", "s11k3"):
            steps = sum(c in "sk" for c in pattern)
            if not deep and name == "DOP853" and pattern == "s1k1s3":
                continue
            if not deep and not ad and pattern not in ("s1k1s3", "1s21k2"):
                continue
            a2 = att
            if ad:
                a2 = max(steps, 3)
                if name == "DOP853" and not deep:
                    a2 = max(steps, 2)
            c2 = 300 if not ad else budget(name, a2) + 9 * (name == "DOP853")
            out.append(Task(f"memory:{name}:{pattern}", h_memory, dict(name=name, pattern=pattern, calls=c2, first="ForwardEuler" if multi and k > 2 else None), need=["done"]))
    return out
