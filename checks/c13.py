"""C13: bisect on any function (uninterpreted) and bracket; float64 arithmetic of the midpoints."""
import warnings

from .common import *

BOUNDS = "any function, left and right in [-64,64] (any order, equal included), tolerance in [0,8], rtol in [0,1], 1 to 4 iterations (quick) or 7 (thorough), with and without extra arguments; midpoint arithmetic: all float64 endpoints below 2^1021 in size, one halving of any bracket"
ASSUMPTIONS = ["the function is pure and real valued"]


def target():
    import nbkode.nbcompat.zeros as z

    return z.bisect


def h_bisect(ctx, maxiter, nargs, how):
    l = ctx.real("l", -64, 64)
    r = ctx.real("r", -64, 64)
    tol = ctx.real("tol", 0, 8) if how != "default" else 1.48e-8
    g = ctx.fun("g", -64, 64)
    args = tuple(ctx.real(f"a{i}") for i in range(nargs))
    seen = []

    def fun(x, *a):
        ctx.check(band(x >= l, x <= r), "evaluated outside the bracket")
        ctx.check(len(a) == nargs, "arguments passed")
        for u, v in zip(a, args):
            ctx.close(u, v, "arguments passed")
        v = g(x, *a)
        seen.append((x, v))
        return v

    kw = dict(args=args) if nargs else {}
    if how == "full":
        kw.update(tol=tol, maxiter=maxiter, rtol=ctx.real("rtol", 0, 1))
    elif how == "positional":
        pass
    else:
        kw.update(maxiter=maxiter)
    bisect = target()
    try:
        x = bisect(fun, l, r, tol, maxiter, **kw) if how == "positional" else bisect(fun, l, r, **kw)
        failed = False
    except ValueError:
        failed = True
    if ctx.true(bnot(l < r)):
        ctx.check(failed, "accepted an empty bracket")
        ctx.reach("empty bracket")
        return
    gl, gr = g(l, *args), g(r, *args)
    ok = bor(bor(gl == 0, gr == 0), bor(band(gl < 0, gr > 0), band(gl > 0, gr < 0)))
    if failed:
        ctx.check(bnot(ok), "refused a bracket with a change of sign")
        ctx.reach("refused")
        return
    ctx.check(ok, "accepted a bracket without a change of sign")
    ctx.check(band(x >= l, x <= r), "result outside the bracket")
    gx = g(x, *args)
    small = band(gx <= tol, gx >= -tol)
    if ctx.true(small):
        ctx.reach("within the tolerance")
        return
    w = (r - l) / 2**maxiter
    near = False
    for e, v in seen:
        near = bor(near, band(bor(band(v <= 0, gx >= 0), band(v >= 0, gx <= 0)), band(e - x <= w, x - e <= w)))
    ctx.check(near, "neither a root nor near a change of sign")
    ctx.check(len(seen) >= maxiter, "gave up early")
    ctx.reach("iterations exhausted")


def h_fp64(ctx, maxiter, inner):
    """Midpoints in float64: inside the bracket, whatever the bits."""
    l, r = ctx.real("l"), ctx.real("r")
    big = 2.0**1021
    for v in (l, r):
        ctx.assume(band(v <= big, v >= -big))
    ctx.assume(l < r)

    def fun(x):
        ctx.check(band(x >= l, x <= r), "evaluated outside the bracket")
        if ctx.true(x <= l):
            return -1.0
        if ctx.true(x >= r):
            return 1.0
        return inner

    x = target()(fun, l, r, 1e-3, maxiter)
    ctx.check(band(x >= l, x <= r), "result outside the bracket")
    ctx.reach("done")


def h_signs(ctx, maxiter):
    """Function values of any size in float64: the half kept is the one with the change of sign."""
    pts = {}

    def fun(x):
        if x not in pts:
            v = ctx.real(f"v{len(pts)}")
            ctx.assume(band(v < 1e300, v > -1e300))
            pts[x] = v
        return pts[x]

    v0, v1 = fun(0.0), fun(1.0)
    ctx.assume(bor(band(v0 < 0, v1 > 0), band(v0 > 0, v1 < 0)))
    seen = []

    def rec(x):
        seen.append(x)
        return fun(x)

    x = target()(rec, 0.0, 1.0, 0.0, maxiter)
    l, r = 0.0, 1.0
    for p in seen:
        if p in (0.0, 1.0):
            continue
        v = fun(p)
        ctx.check(l < p < r, "evaluated outside the half with the change of sign")
        if ctx.true(v == 0):
            ctx.check(x == p, "a root met is not returned")
            ctx.reach("root")
            return
        if ctx.true(band(v > 0, v0 > 0) if ctx.true(v0 > 0) else v < 0):
            l = p
        else:
            r = p
    ctx.check(l <= x <= r, "result outside the half with the change of sign")
    ctx.check(r - l <= 0.5**maxiter * 2, "gave up early")
    ctx.reach("done")


def tasks(tier):
    out = []
    top = 4 if tier == "quick" else 7
    all3 = ["within the tolerance", "iterations exhausted", "refused", "empty bracket"]
    # one halving of any bracket; the next one is again a halving of a bracket
    for inner in (0.0,) if tier == "quick" else (0.0, 0.5, -0.5):
        out.append(Task(f"fp64:{inner}", h_fp64, dict(maxiter=1, inner=inner), need=["done"], fp=True, soft=True, query_timeout=300000, branch_timeout=4000))
    for m in (1, 2, 3) + (tier != "quick") * (5,):
        out.append(Task(f"signs:{m}", h_signs, dict(maxiter=m), need=["done", "root"], fp=True, query_timeout=120000, branch_timeout=20000))
    for m in range(top, 0, -1):
        for how in ("full", "positional"):
            out.append(Task(f"bisect:{m}:0:{how}", h_bisect, dict(maxiter=m, nargs=0, how=how), need=all3))
    out.append(Task("bisect:default", h_bisect, dict(maxiter=2, nargs=0, how="default"), need=all3))
    for n in (1, 2):
        out.append(Task(f"bisect:args:{n}", h_bisect, dict(maxiter=2, nargs=n, how="full"), need=all3))
    return out
