"""C07: each step against the textbook formula (coefficients from exact integration or differentiation of the Lagrange basis), derivatives taken afresh from the right-hand side at the recorded points; implicit equations hold at the new time; exact on polynomials of degree k."""
from fractions import Fraction as Q

from .common import *

BOUNDS = "18 multistep solvers; dimension 1, 2 and 3; any right-hand side, t0 in [-4,4], h in (0,2]; generic history (made by forward Euler steps), first 4 (thorough: 8) steps; polynomial solutions of degree k with coefficients in [-2,2]"
ASSUMPTIONS = ["implicit equations: the root finder is replaced by its contract (C14, C15): an arbitrary point where the residual passed by the real code vanishes"]


def pmul(a, b):
    out = [Q(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] += x * y
    return out


def lagrange(nodes):
    out = []
    for i in nodes:
        c = [Q(1)]
        for j in nodes:
            if j != i:
                c = pmul(c, [Q(-j, i - j), Q(1, i - j)])
        out.append(c)
    return out


def textbook(name):
    """y_new = sum a_i y[-k+i] + h (sum b_i f[-k+i] + bn f_new), oldest first."""
    if name in EULER:
        name = {"ForwardEuler": "AdamsBashforth1", "BackwardEuler": "AdamsMoulton1"}[name]
    k = int(name[-1])
    if name.startswith("BDF"):
        # derivative at 0 of the interpolant through 0, -1, ..., -k equals h f_new
        nodes = [0] + [-i for i in range(k, 0, -1)]
        d = [c[1] for c in lagrange(nodes)]
        return [-x / d[0] for x in d[1:]], [Q(0)] * k, 1 / d[0]
    if name.startswith("AdamsMoulton"):
        nodes = [0] + [-i for i in range(k - 1, 0, -1)]
        w = [sum(-c * Q(-1) ** (e + 1) / (e + 1) for e, c in enumerate(p)) for p in lagrange(nodes)]
        return [Q(1)], w[1:], w[0]
    nodes = [-i for i in range(k, 0, -1)]
    w = [sum(-c * Q(-1) ** (e + 1) / (e + 1) for e, c in enumerate(p)) for p in lagrange(nodes)]
    return [Q(1)], w, Q(0)


def formula(ctx, name, rec, f, h, dim):
    """Right-hand side of the formula without the implicit term, from recorded (t, y)."""
    A, B, bn = textbook(name)
    K = [0.0] * dim
    for a, (t, y) in zip(A[::-1], rec[::-1]):
        for j in range(dim):
            K[j] = K[j] + float(a) * y[j]
    for b, (t, y) in zip(B[::-1], rec[::-1]):
        if b:
            v = flat(f(t, ctx.array(y)))
            for j in range(dim):
                K[j] = K[j] + h * (float(b) * v[j])
    return K, bn


def h_formula(ctx, name, dim, n, how):
    t0 = ctx.real("t0", -4, 4)
    h = ctx.pos("h", 2)
    f = ctx.rhs("f", dim)
    y0 = ctx.vec("y", dim)
    k = steps_of(name)
    with rootless(ctx):
        s = make(ctx, name, f, t0, y0, h, first=klass("ForwardEuler"))
        ts, ys, fs = snapshot(s)
        rec = [(t, ys[i * dim : (i + 1) * dim]) for i, t in enumerate(ts)][-k:]
        for step in range(n):
            told = s.t
            if how == "step" or (how == "mixed" and step % 2):
                s.step()
            else:
                s.skip(n=1)
            ctx.close(s.t, told + h, "time advances by h")
            K, bn = formula(ctx, name, rec, f, h, dim)
            y = flat(s.y.copy())
            fn = flat(f(told + h, ctx.array(y))) if bn else [0.0] * dim
            for j in range(dim):
                # y_new - h bn f(t_new, y_new) = K
                ctx.close(y[j] - h * (float(bn) * fn[j]), K[j], "implicit equation" if bn else "explicit formula")
            rec.append((s.t, y))
        ctx.reach("done")


def h_poly(ctx, name, dim, push):
    """Exact on solutions polynomial of degree k: history on the solution, steps stay on it."""
    k = steps_of(name)
    t0 = ctx.real("t0", -2, 2)
    h = ctx.pos("h", 1)
    c = [[ctx.real(f"c{j}_{i}", -2, 2) for i in range(k + 1)] for j in range(dim)]

    def P(x):
        return [sum((c[j][i] * x ** i for i in range(1, k + 1)), c[j][0]) for j in range(dim)]

    def dP(t, y):
        x = t - t0
        return ctx.array([sum((float(i) * c[j][i] * x ** (i - 1) for i in range(2, k + 1)), c[j][1]) for j in range(dim)])

    with rootless(ctx):
        s = klass(name)(dP, t0, ctx.array(P(0.0)), h=h, first_stepper_cls=None)
        m = s.LEN_HISTORY
        for i in range(1, m):
            s.cache.push(t0 + i * h, ctx.array(P(i * h)), dP(t0 + i * h, None))
        for i in range(2):
            s.step()
            ctx.closes(s.y, P((m + i) * h), "exact on polynomials of degree k", 1e-8)
        ctx.reach("done")


def tasks(tier):
    out = []
    n = 4 if tier == "quick" else 8
    for name in MULTI:
        for dim in (1, 2, 3):
            out.append(Task(f"formula:{name}:{dim}", h_formula, dict(name=name, dim=dim, n=n, how="mixed" if dim == 2 else "step"), need=["done"]))
        for dim in (1, 2):
            out.append(Task(f"poly:{name}:{dim}", h_poly, dict(name=name, dim=dim, push=True), need=["done"]))
    return out
