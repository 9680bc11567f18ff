"""C14: newton, _newton and j_newton against scipy.optimize.newton, both executed on the same unknown functions."""
import math
import warnings

from sx import npshim

from .common import *

BOUNDS = "any function, first and second derivative (uninterpreted), x0 in [-8,8], second starting point absent or in [-8,8], tolerance in (0,2], rtol 0 or in [0,1], 1 to 4 iterations (Halley and secant 3; thorough 6, 4 and 4), each of Newton, Halley and secant, with and without extra arguments, disp and full_output on and off; non-positive tolerances and iteration counts"
ASSUMPTIONS = ["the installed scipy.optimize.newton is the reference; it is executed from its own source", "warnings are not compared"]


def same_number(ctx, a, b, label):
    ctx.close(a, b, label, 1e-9)


def scipy_newton(ctx):
    import scipy.optimize._zeros_py as z

    if not ctx.sym:
        return z.newton
    import types

    f = getattr(z.newton, "__wrapped__", z.newton)
    g = dict(f.__globals__)
    g["np"] = npshim.NpProxy()
    g["_results_select"] = lambda full, r: r if full else r[0]
    n = types.FunctionType(f.__code__, g, f.__name__, f.__defaults__, f.__closure__)
    n.__kwdefaults__ = f.__kwdefaults__
    return n


def outcome(fn):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return "returned", fn()
    except (RuntimeError, ValueError) as e:
        return type(e).__name__, str(e)


def fields(r):
    """(root, calls, iterations, converged) of whatever full_output gave."""
    import scipy.optimize._zeros_py as z

    if isinstance(r, tuple) and len(r) == 2 and hasattr(r[1], "root"):
        r = r[1]
        return r.root, r.function_calls, r.iterations, bool(r.converged)
    p, calls, itr, flag = r
    return p, calls, itr, flag == z._ECONVERGED


def h_newton(ctx, maxiter, method, nargs, entry, how):
    import nbkode.nbcompat.zeros as zz

    x0 = ctx.real("x0", -8, 8)
    tol = ctx.real("tol", 0, 2, True)
    if "bad" in how:
        tol, maxiter = ctx.choice("bad", [(-1.0, 3), (0.0, 3), (0.5, 0), (0.5, -2), (0.5, 1)])
    fs = [ctx.fun(n, -8, 8) for n in ("g", "dg", "ddg")]
    args = tuple(ctx.real(f"a{i}") for i in range(nargs))
    calls = [[], []]

    def wrap(i, k):
        def fn(x, *a):
            ctx.check(len(a) == nargs, "arguments passed")
            calls[k].append((i, x, a))
            return fs[i](x, *a)

        return fn

    def kw(k):
        d = dict(args=args, tol=tol, maxiter=maxiter)
        if "rtol" in how:
            d["rtol"] = ctx.real("rtol", 0, 1)
        if method in ("newton", "halley"):
            d["fprime"] = wrap(1, k)
        if method == "halley":
            d["fprime2"] = wrap(2, k)
        if method == "secant x1":
            d["x1"] = ctx.real("x1", -8, 8)
        return d

    full, disp = "full" in how, "disp" in how
    ref = scipy_newton(ctx)
    if entry == "newton":
        k1, r1 = outcome(lambda: ref(wrap(0, 0), x0, full_output=full, disp=disp, **kw(0)))
        if ctx.sym:
            # SciPy's container of results holds floats: compare the raw tuples
            undo = zz.zeros._results_select
            zz.zeros._results_select = lambda full, r: r if full else r[0]
        try:
            k2, r2 = outcome(lambda: zz.newton(wrap(0, 1), x0, full_output=full, disp=disp, **kw(1)))
        finally:
            if ctx.sym:
                zz.zeros._results_select = undo
    else:
        k1, r1 = outcome(lambda: ref(wrap(0, 0), x0, full_output=False, disp=True, **kw(0)))
        k2, r2 = outcome(lambda: zz.j_newton(wrap(0, 1), x0, **kw(1)))
    if isinstance(r1, str) and k1 == "RuntimeError":
        ctx.reach("did not converge")
    ctx.check(k1 == k2, f"SciPy: {k1}, here: {k2}")
    ctx.check(len(calls[0]) == len(calls[1]), "number of function evaluations")
    if len(calls[0]) != len(calls[1]):
        return
    for (i, x, a), (j, y, b) in zip(*calls):
        ctx.check(i == j, "which function is evaluated")
        same_number(ctx, y, x, "iterate")
        for u, v in zip(a, b):
            same_number(ctx, v, u, "argument")
    if k1 != "returned" or k2 != "returned":
        ctx.reach(k1)
        return
    if entry == "newton" and full:
        u, v = fields(r1), fields(r2)
        same_number(ctx, v[0], u[0], "root")
        ctx.check(v[1] == u[1], "function_calls")
        ctx.check(v[2] == u[2], "iterations")
        ctx.check(v[3] == u[3], "converged flag")
        ctx.reach("converged" if u[3] else "flagged as not converged")
    else:
        same_number(ctx, r2, r1, "root")
        ctx.reach("converged")


def h_array(ctx, full):
    """More than one starting point: handed over to SciPy's routine, as SciPy does."""
    import nbkode.nbcompat.zeros as zz
    import scipy.optimize._zeros_py as z

    x0 = ctx.vec("x", 2)
    tol = ctx.real("tol", 0, 2, True)
    fs = [lambda x: x, lambda x: x + 1, lambda x: x + 2]
    got = []
    orig = z._array_newton

    def record(func, x0, fprime, args, tol, maxiter, fprime2, full_output):
        got.append((func, x0, fprime, args, tol, maxiter, fprime2, full_output))
        return "array"

    zz.zeros._array_newton = record
    try:
        r = zz.newton(fs[0], x0, fs[1], (3,), tol, 7, fs[2], full_output=full)
    finally:
        zz.zeros._array_newton = orig
    ctx.check(r == "array" and len(got) == 1, "arrays of starting points")
    f, x, df, a, t, m, ddf, fu = got[0]
    ctx.check((f, df, ddf, a, m, bool(fu)) == (fs[0], fs[1], fs[2], (3,), 7, full), "arguments for arrays of starting points")
    ctx.closes(x, x0, "starting points")
    ctx.close(t, tol, "tolerance")
    ctx.reach("done")


def tasks(tier):
    out = []
    deep = tier != "quick"

    def add(m, method, nargs, entry, how):
        need = ["converged"]
        if "disp" not in how and entry == "newton":
            need += ["flagged as not converged"] if "full" in how else []
        else:
            need += ["RuntimeError"]
        if "bad" in how:
            need += ["ValueError"]
        out.append(Task(f"{entry}:{method}:{m}:{nargs}:{'+'.join(how)}", h_newton, dict(maxiter=m, method=method, nargs=nargs, entry=entry, how=how), need=need, query_timeout=8000))

    for method in ("secant x1", "secant", "halley", "newton"):
        top = {"newton": 4 + 2 * deep, "halley": 3 + deep, "secant": 3 + deep, "secant x1": 3 + deep}[method]
        add(top, method, 0, "newton", ("full",))
        add(top, method, 0, "j_newton", ())
        for m in range(1, top):
            add(m, method, 0, "newton", ("full",))
            add(m, method, 0, "newton", ("full", "disp", "rtol"))
            add(m, method, 0, "newton", ("disp",))
            add(m, method, 0, "j_newton", ("rtol",))
            add(m, method, 1, "j_newton", ("rtol",))
            add(m, method, 1, "newton", ("rtol",))
        add(1, method, 0, "newton", ("bad", "full", "disp"))
    for full in (False, True):
        out.append(Task(f"array:{full}", h_array, dict(full=full), need=["done"]))
    return out
