"""C15: newton_hd and jacobian on affine systems with symbolic coefficients, on any function, and in float64."""
import numpy as np

from .common import *

BOUNDS = "affine systems of dimension 1 to 3 (symbolic triangular matrices in every row order, and dense rational ones), any right-hand side and start in [-64,64], any tolerance in [0,1], one iteration allowed; any function of dimension 1 and 2 with 0 to 2 iterations allowed (quick: 1 for dimension 2); with and without extra arguments; step of the differences: every float64 below 1e300 in size"
ASSUMPTIONS = ["numpy.linalg.solve solves the linear system it is given (Cramer's rule in exact arithmetic)"]

DENSE = {
    1: [[[2]], [[-0.5]]],
    2: [[[1, 2], [3, 4]], [[0, 2], [-1, 0]], [[2, -1], [1, 1]]],
    3: [[[1, 2, 3], [0, 1, 4], [5, 6, 0]], [[0, 0, 1], [2, 0, 0], [0, -3, 0]], [[2, -1, 0], [1, 3, 0.5], [-1, 0, 1]]],
}


def zz():
    import nbkode.nbcompat.zeros as z

    return z


def matrix(ctx, n, kind):
    if kind[0] == "dense":
        return DENSE[n][kind[1]]
    _, upper, perm = kind
    rows = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if i == j:
                rows[i][j] = ctx.real(f"m{i}{j}", 0.25, 4)
            elif (j > i) == upper:
                rows[i][j] = ctx.real(f"m{i}{j}", -4, 4)
    return [rows[k] for k in perm]


def affine(A, nargs):
    n = len(A)

    def f(x, *args):
        b = args[0] if nargs else None
        out = []
        for i in range(n):
            s = 0.0
            for j in range(n):
                s = s + A[i][j] * x[j]
            out.append(s + (b[i] if b is not None else 0.0))
        return out

    return f


def norm(v):
    return zz().np.linalg.norm(v, ord=2)


def h_affine(ctx, n, kind, nargs, what):
    A = matrix(ctx, n, kind)
    x0 = ctx.vec("x", n, -64, 64)
    b = ctx.vec("b", n, -64, 64)
    raw = affine(A, 1)
    shift = None if nargs else b

    def f(x, *args):
        ctx.check(len(args) == nargs, "arguments passed")
        return ctx.array(raw(x, *(args if nargs else (shift,))))

    args = (b,) if nargs else ()
    keep, keepb = flat(x0.copy()), flat(b.copy())
    if what == "jacobian":
        J = zz().jacobian(f, x0, args) if nargs else zz().jacobian(f, x0)
        ctx.check(J.shape == (n, n), "shape of the jacobian")
        for i in range(n):
            for j in range(n):
                ctx.close(J[i, j], A[i][j], "entry of the jacobian", 1e-5)
    else:
        atol = ctx.real("atol", 1e-9, 1)
        try:
            if what == "newton_hd":
                y = zz().newton_hd(f, x0, args, atol, 0.0, 1)
            else:
                y, flag = zz().newton_hd_impl(f, x0, args=args, atol=atol, maxiter=1)
                ctx.check(flag == zz().NewtonEnum.OK, "affine system not solved in one iteration")
        except RuntimeError:
            ctx.check(False, "affine system not solved in one iteration")
            return
        ctx.check(norm(f(y, *args)) <= atol + 1e-9, "returned point is not a root")
    ctx.closes(x0, keep, "starting point modified")
    ctx.closes(b, keepb, "arguments modified")
    ctx.reach("done")


def h_any(ctx, n, maxiter, nargs, what):
    x0 = ctx.vec("x", n, -4, 4)
    p = ctx.vec("p", nargs) if nargs else None
    F = ctx.rhs("F", n, time=False, nparams=nargs)
    args = (p,) if nargs else ()
    atol = ctx.real("atol", 0, 1)
    seen = []

    def f(x, *a):
        ctx.check(len(a) == len(args), "arguments passed")
        v = F(None, x, *a)
        return v

    keep = flat(x0.copy())
    try:
        if what == "newton_hd":
            y, ok = zz().newton_hd(f, x0, args=args, atol=atol, maxiter=maxiter), True
        else:
            y, flag = zz().newton_hd_impl(f, x0, args, atol, 0.0, maxiter)
            ok = flag == zz().NewtonEnum.OK
    except RuntimeError:
        ok = False
    except np.linalg.LinAlgError:
        ctx.reach("singular")
        return
    ctx.closes(x0, keep, "starting point modified")
    start = norm(f(x0, *args))
    # the iterates: each solves the linear system of the jacobian at the one before
    u, hit = x0.copy(), None
    for k in range(maxiter + 1):
        if ctx.true(norm(f(u, *args)) <= atol):
            hit = k
            break
        if k < maxiter:
            u = u + zz().np.linalg.solve(zz().jacobian(f, u, args), -f(u, *args))
    ctx.check(ok == (hit is not None), "gives up before the allowed iterations" if not ok else "does not give up")
    if ok and hit is not None:
        ctx.closes(y, u, "iterate")
    if not ok:
        ctx.check(start > atol, "start within the tolerance refused")
        ctx.reach("not converged")
        return
    v = norm(f(y, *args))
    ctx.check(v <= atol + 1e-9, "returned point is not a root")
    if ctx.true(start <= atol):
        ctx.closes(y, keep, "start within the tolerance left")
        ctx.reach("start is a root")
    else:
        ctx.reach("converged")


def h_fp64(ctx, n):
    x = ctx.real("x")
    ctx.assume(band(x <= 1e300, x >= -1e300))
    seen = []

    def f(v):
        seen.append(v[0])
        return ctx_array(ctx, [1.0])

    zz().jacobian(f, ctx_array(ctx, [x]))
    for i in range(0, len(seen), 2):
        ctx.check(bor(seen[i] < seen[i + 1], seen[i] > seen[i + 1]), "the two points of a difference coincide")
    ctx.reach("done")


def ctx_array(ctx, xs):
    return ctx.array(xs)


def tasks(tier):
    out = []
    deep = tier != "quick"
    out.append(Task("fp64:step", h_fp64, dict(n=1), need=["done"], fp=True, soft=True, query_timeout=300000, branch_timeout=4000))
    import itertools

    def add(n, kind, nargs, what):
        out.append(Task(f"affine:{n}:{kind}:{nargs}:{what}", h_affine, dict(n=n, kind=kind, nargs=nargs, what=what), need=["done"]))

    for what in ("newton_hd", "newton_hd_impl", "jacobian"):
        for n in (1, 2, 3):
            for nargs in (0, 1):
                for i in range(len(DENSE[n])):
                    add(n, ("dense", i), nargs, what)
                for perm in itertools.permutations(range(n)):
                    if n == 3 and not deep and perm not in ((0, 1, 2), (2, 0, 1)):
                        continue
                    for upper in (True, False):
                        if n < 3 or nargs or deep:
                            add(n, ("tri", upper, perm), nargs, what)
    for n in (1, 2):
        for maxiter in range(0, (3 if n == 1 else 2) + deep):
            for nargs in (0, 1):
                for what in ("newton_hd", "newton_hd_impl"):
                    need = ["start is a root", "not converged"] + (["converged"] if maxiter else [])
                    out.append(Task(f"any:{n}:{maxiter}:{nargs}:{what}", h_any, dict(n=n, maxiter=maxiter, nargs=nargs, what=what), need=need))
    return out
