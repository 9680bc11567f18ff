"""C09: every attempt of an adaptive step against an independent controller: scaled RMS norm, acceptance below one, step-size factor and its limits, retry from the same point."""
from .common import *

BOUNDS = "3 adaptive solvers; dimension 1 and 2; any right-hand side, t0 in [-4,4], first step in (0,2], atol in [0.01,8], rtol 0 or in [1e-3,1], safety factor in [0.1,0.95], min factor in [0.05,0.9], max factor in [1,10] (also all at their defaults), max_step and t_bound symbolic or infinite; up to 2 accepted steps and 3 attempts (thorough: 3 and 4)"
ASSUMPTIONS = ["the error coefficients are the class attributes (decided by C10)", "options: scalar tolerances"]

EXPONENT = {"RungeKutta23": 3, "RungeKutta45": 5, "DOP853": 8}


def total(xs):
    out = 0.0
    for x in xs:
        out = out + x
    return out


def attempt(cls, f, t, y, h):
    """Stages of the pair at (t, y): new state and the stage derivatives."""
    A, B, C = cls.A, cls.B, cls.C
    dim = len(y)
    K = []
    for i in range(len(B)):
        yi = [y[j] + h * total(float(A[i][m]) * K[m][j] for m in range(i) if A[i][m]) for j in range(dim)]
        K.append(flat(f(t + float(C[i]) * h, np.array(yi) if not any_sym(yi) else _arr(yi))))
    yn = [y[j] + h * total(float(B[m]) * K[m][j] for m in range(len(B)) if B[m]) for j in range(dim)]
    K.append(flat(f(t + h, _arr(yn))))
    return yn, K


def any_sym(v):
    return any(isinstance(x, core.Sym) for x in v)


def _arr(v):
    from sx import npshim

    return npshim.array(v, dtype=float) if any_sym(v) else np.array([float(x) for x in v])


def norm(h, K, E, y, yn, atol, rtol):
    dim = len(y)
    sq = []
    for j in range(dim):
        e = h * total(float(E[m]) * K[m][j] for m in range(len(E)) if E[m])
        sc = atol
        if not (isinstance(rtol, float) and rtol == 0):
            sc = atol + rtol * np_max(abs(yn[j]), abs(y[j]))
        q = e / sc
        sq.append(q * q)
    return total(sq) / float(dim)


def np_max(a, b):
    if any_sym([a, b]):
        from sx import npshim

        return npshim.e_max(a, b)
    return max(a, b)


def root(x, k):
    if isinstance(x, core.Sym):
        return core.sym_root(x, k)
    return float(x) ** (1.0 / k)


def h_control(ctx, name, dim, steps, calls, rt, mx, bounded, defaults, how):
    cls = klass(name)
    t0 = ctx.real("t0", -4, 4)
    h0 = ctx.pos("h", 2)
    o = {}
    if defaults:
        atol, rtol, sf, lo, hi = 1e-6, 1e-3, 0.9, 0.2, 10.0
    else:
        atol = o["atol"] = ctx.real("atol", 0.01, 8)
        rtol = o["rtol"] = ctx.real("rtol", 1e-3, 1) if rt else 0.0
        sf = o["safety_factor"] = ctx.real("safety", 0.1, 0.95)
        lo = o["min_factor"] = ctx.real("minf", 0.05, 0.9)
        hi = o["max_factor"] = ctx.real("maxf", 1, 10)
    ms = float("inf")
    if mx:
        ms = o["max_step"] = ctx.pos("max_step", 4)
    tb = float("inf")
    if bounded:
        tb = t0 + ctx.pos("b", 8)
    base = counted(ctx, limited(ctx, ctx.rhs("f", dim), calls), 2 * calls + 20)
    cur, snaps = [None], []

    def f(t, y):
        if cur[0] is not None:
            s = cur[0]
            snaps.append([s.t] + flat(s.y.copy()) + sum(snapshot(s), []))
        return base(t, y)

    y0 = ctx.vec("y", dim)
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = cls(f, t0, y0, t_bound=tb, first_step=h0, **o)
    h = ms if mx and ctx.true(h0 > ms) else h0
    ctx.close(s.h, h, "first step")
    t, y = t0, flat(y0)
    for n in range(steps):
        if bounded:
            if not ctx.true(t < tb):
                try:
                    s.step()
                    ctx.check(False, "step beyond t_bound")
                except RuntimeError:
                    ctx.reach("at bound")
                return
        before = [s.t] + flat(s.y.copy()) + sum(snapshot(s), [])
        snaps.clear()
        cur[0] = s
        if how == "step":
            s.step()
        else:
            s.skip(n=1)
        cur[0] = None
        if bounded:
            if ctx.true(t + h > tb):
                h = tb - t
                ctx.reach("clamped")
        k = 0
        while True:
            k += 1
            yn, K = attempt(cls, base, t, y, h)
            if name == "DOP853":
                n5 = norm(h, K, cls.E5, y, yn, atol, rtol)
                n3 = norm(h, K, cls.E3, y, yn, atol, rtol)
                n5, n3 = root(n5, 2), root(n3, 2)
                if ctx.true(n5 == 0):
                    N = 0.0
                else:
                    r = n3 / (10.0 * n5)
                    N = n5 / root(1.0 + r * r, 2)
            else:
                N = root(norm(h, K, cls.E, y, yn, atol, rtol), 2)
            told = h
            if ctx.true(N == 0):
                h = h * hi
                ctx.reach("zero")
            else:
                # factor = safety / N^(1/(q+1)) limited to [lo, hi]
                fac = sf / root(N, EXPONENT[name])
                if ctx.true(fac <= lo):
                    fac = lo
                    ctx.reach("min factor")
                elif ctx.true(fac >= hi):
                    fac = hi
                    ctx.reach("max factor")
                h = h * fac
            if mx and ctx.true(h > ms):
                h = ms
                ctx.reach("max step")
            if ctx.true(N < 1):
                t = t + told
                break
            ctx.reach("rejected")
            if k > 6:
                raise PathAbort("attempt bound")
        ctx.close(s.t, t, "time advances by the step attempted")
        ctx.closes(s.y, yn, "state of the accepted attempt")
        ctx.closes(s.f, K[-1], "derivative of the accepted attempt")
        ctx.close(s.h, h, "next step size")
        # nothing changed before the attempt was accepted
        for sn in snaps[:-1]:
            ctx.closes(sn, before, "a rejected attempt changed the solver")
        y = yn
        t = s.t
        y = flat(s.y.copy())
        ctx.reach(f"accepted {n + 1}")


def tasks(tier):
    out = []
    deep = tier != "quick"
    for name in ADAPTIVE[::-1]:
        for dim in (1, 2):
            for rt, mx, bounded, defaults in [(0, 0, 0, 0), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1)]:
                a = 3 if deep else 2
                out.append(
                    Task(
                        f"control:{name}:{dim}:{'rtol ' if rt else ''}{'max ' if mx else ''}{'bound ' if bounded else ''}{'default' if defaults else ''}",
                        h_control,
                        dict(name=name, dim=dim, steps=1 if bounded and (name == "DOP853" or not deep) else 2, calls=budget(name, a), rt=rt, mx=mx, bounded=bounded, defaults=defaults, how="step" if dim == 1 else "skip"),
                        need=["accepted 1", "rejected"] + (["clamped"] if bounded else ["accepted 2"]),
                    )
                )
    return out
