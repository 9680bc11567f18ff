"""C24: the step size an adaptive solver starts with, against Hairer's algorithm (the one SciPy uses) written out independently."""
import contextlib

from .common import *

BOUNDS = "3 adaptive solvers, dimension 1 and 4, any right-hand side with values in [-8,8] at every point (in dimension 4: along a fixed direction, rtol = 0), t0 in [-4,4], y0 in [-8,8], atol in [1e-14,4], rtol in [1e-12,1] or the defaults, max_step in (0,4] or infinite, first_step in (0,4] or automatic"
ASSUMPTIONS = ["powers 1/(q+1) of positive numbers are the positive solutions x of x^(q+1) = a"]

ORDER_OF = {"RungeKutta23": 2, "RungeKutta45": 4, "DOP853": 7}


@contextlib.contextmanager
def chooser(ctx):
    """SciPy's helper functions, when the package uses them, run symbolically too."""
    if not ctx.sym:
        yield
        return
    import scipy.integrate._ivp.common as c

    from sx import npshim

    undo = []
    npshim.patch_module(c, undo)
    try:
        yield
    finally:
        npshim.unpatch(undo)


def norm(v):
    if len(v) == 1:
        return abs(v[0])
    s = 0.0
    for x in v:
        s = s + x * x
    s = s / float(len(v))
    return core.sym_root(s, 2) if isinstance(s, core.Sym) else float(s) ** 0.5


def root(x, k):
    return core.sym_root(x, k) if isinstance(x, core.Sym) else float(x) ** (1.0 / k)


def hairer(ctx, f, t0, y0, q, rtol, atol):
    """Hairer, Norsett & Wanner I, II.4: steps a) to f)."""
    f0 = flat(f(t0, ctx.array(y0)))
    sc = [atol + abs(y) * rtol for y in y0]
    d0 = norm([y / s for y, s in zip(y0, sc)])
    d1 = norm([g / s for g, s in zip(f0, sc)])
    if ctx.true(bor(d0 < 1e-5, d1 < 1e-5)):
        h0 = 1e-6
        ctx.reach("small")
    else:
        h0 = 0.01 * d0 / d1
        ctx.reach("regular")
    f1 = flat(f(t0 + h0, ctx.array([y + h0 * g for y, g in zip(y0, f0)])))
    d2 = norm([(b - a) / s for a, b, s in zip(f0, f1, sc)]) / h0
    if ctx.true(band(d1 <= 1e-15, d2 <= 1e-15)):
        h1 = h0 * 1e-3
        if ctx.true(h1 < 1e-6):
            h1 = 1e-6
        ctx.reach("flat")
    else:
        d = d1
        if ctx.true(d2 > d1):
            d = d2
            ctx.reach("curved")
        h1 = root(0.01 / d, q + 1)
    a = 100 * h0
    if ctx.true(a < h1):
        ctx.reach("hundred")
        return a
    ctx.reach("power")
    return h1


def h_auto(ctx, name, dim, defaults, mx):
    t0 = ctx.real("t0", -4, 4)
    y = [ctx.real(f"y{i}") for i in range(dim)]
    o = {}
    atol, rtol = 1e-6, 1e-3
    if not defaults:
        atol = o["atol"] = ctx.real("atol", 1e-14, 4)
        rtol = o["rtol"] = ctx.real("rtol", 1e-12, 1)
    if mx:
        o["max_step"] = ctx.pos("max", 4)
    f = ctx.rhs("f", dim)
    with chooser(ctx):
        s = klass(name)(f, t0, ctx.array(y), **o)
    h = flat(s.h)[0]
    w = hairer(ctx, f, t0, y, ORDER_OF[name], rtol, atol)
    if mx:
        m = o["max_step"]
        ctx.check(h <= m * (1 + 1e-9), "first step above max_step")
        if ctx.true(w > m):
            w = m
            ctx.reach("limited")
    ctx.close(h, w, "first step is not the selected one", 1e-10)
    ctx.close(s.t, t0, "choosing the first step moves the solver", 0.0)
    ctx.closes(s.y, y, "choosing the first step changes the state", 0.0)
    ctx.closes(s.f, f(t0, ctx.array(y)), "choosing the first step changes the derivative", 0.0)
    if not ctx.sym and not mx:
        import scipy.integrate as si

        k = dict(RungeKutta23=si.RK23, RungeKutta45=si.RK45, DOP853=si.DOP853)[name]
        r = k(f, t0, ctx.array(y), np.inf, **o)
        ctx.close(h, r.h_abs, "first step is not SciPy's", 1e-10)


PATTERNS = {4: [((1, 3, -1, 5), (4, 0, 2, -4))]}


def h_pattern(ctx, name, dim, which, mx):
    """Several components: states along u, derivatives along v, so that the norms are linear (four: an exact square root)."""
    u, v = PATTERNS[dim][which]
    t0 = ctx.real("t0", -4, 4)
    a = ctx.real("a", -4, 4)
    y = [k * a for k in u]
    g = ctx.fun("g")
    atol = ctx.real("atol", 1e-14, 4)
    o = dict(atol=atol, rtol=0.0)
    if mx:
        o["max_step"] = ctx.pos("max", 4)

    def f(t, x):
        b = g(*flat([t, x]))
        return ctx.array([k * b for k in v])

    import warnings

    with chooser(ctx), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = klass(name)(f, t0, ctx.array(y), **o)
    w = hairer(ctx, f, t0, y, ORDER_OF[name], 0.0, atol)
    if mx and ctx.true(w > o["max_step"]):
        w = o["max_step"]
        ctx.reach("limited")
    ctx.close(flat(s.h)[0], w, "first step is not the selected one", 1e-10)
    ctx.reach("done")


def h_given(ctx, name, mx):
    """A first step that is given is used as it is, up to max_step, for the first attempt."""
    t0 = ctx.real("t0", -4, 4)
    h = ctx.pos("h", 4)
    o = dict(atol=1e9, rtol=0.0)
    if mx:
        o["max_step"] = ctx.pos("max", 4)
    f = ctx.rhs("f", 1)

    with chooser(ctx):
        s = klass(name)(f, t0, np.array([0.0]), first_step=h, **o)
    want = h
    if mx and ctx.true(h > o["max_step"]):
        want = o["max_step"]
        ctx.reach("limited")
    ctx.close(flat(s.h)[0], want, "the given first step is not used", 0.0)
    s.step()
    ctx.check(s.t <= t0 + want * (1 + 1e-9), "first step longer than the one given")
    ctx.reach("done")


def h_invalid(ctx, name, what):
    """max_step <= 0 and negative atol are refused."""
    v = ctx.real("v", -4, 0, hi_open=(what == "atol"))
    o = {"max_step": dict(max_step=v), "atol": dict(atol=v)}[what]
    if ctx.choice("first", [True, False]):
        o["first_step"] = 0.5
    try:
        with chooser(ctx):
            klass(name)(lambda t, y: -y, 0.0, np.array([1.0]), **o)
        ok = False
    except ValueError:
        ok = True
    ctx.check(ok, f"invalid {what} accepted")
    ctx.reach("done")


def tasks(tier):
    out = []
    deep = tier == "thorough"
    for name in ADAPTIVE:
        for dim in (1,):
            for defaults in (True, False):
                for mx in (False, True):
                    out.append(Task(f"{name}:auto:{dim}:{'def' if defaults else 'sym'}:{mx}", h_auto, dict(name=name, dim=dim, defaults=defaults, mx=mx), need=["regular", "small", "power", "hundred"]))
        for dim in PATTERNS:
            for which in range(len(PATTERNS[dim])):
                for mx in (False, True) if deep else (False,):
                    out.append(Task(f"{name}:pattern:{dim}:{which}:{mx}", h_pattern, dict(name=name, dim=dim, which=which, mx=mx), need=["regular", "small", "power", "hundred"]))
        for mx in (False, True):
            out.append(Task(f"{name}:given:{mx}", h_given, dict(name=name, mx=mx), need=["done"]))
        for what in ("max_step", "atol"):
            out.append(Task(f"{name}:invalid:{what}", h_invalid, dict(name=name, what=what), need=["done"]))
    return out
