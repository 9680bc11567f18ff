"""C25: solver classes defined on the fly from tables of *symbolic* coefficients; every step against the table written out."""
import contextlib

from .common import *

BOUNDS = "explicit Runge-Kutta tables of 1 to 4 stages, embedded pairs with and without the FSAL property of 1 to 3 stages, explicit and implicit multistep tables with 1 to 4 history points (B as long as A or shorter): every coefficient any number in [-2,2]; any right-hand side of dimension 1 and 2, t0 in [-4,4], h in (0,2]; 1 to 5 steps"
ASSUMPTIONS = ["implicit equations: the root finder is replaced by its contract (C14, C15)"]


@contextlib.contextmanager
def defined(base, name="UserSolver", **attrs):
    """A new solver class, unregistered afterwards."""
    from nbkode.core import Solver

    keep = list(Solver.SOLVERS.items())
    groups = {k: list(v) for k, v in Solver.SOLVERS_BY_GROUP.items()}
    try:
        yield lambda: type(base)(name, (base,), dict(attrs))
    finally:
        for k in list(Solver.SOLVERS.keys()):
            del Solver.SOLVERS[k]
        for k, v in keep:
            Solver.SOLVERS[k] = v
        for k in list(Solver.SOLVERS_BY_GROUP.keys()):
            if k in groups:
                Solver.SOLVERS_BY_GROUP[k][:] = groups[k]
            else:
                del Solver.SOLVERS_BY_GROUP[k]


def base(name):
    klass("RungeKutta45")
    import nbkode.multistep.core as m
    import nbkode.runge_kutta.core as r
    import nbkode.runge_kutta.explicit as e

    for mod in (e, m, r):
        if hasattr(mod, name):
            return getattr(mod, name)


def matrix(ctx, rows):
    a = np.empty((len(rows), len(rows)), dtype=object if ctx.sym else float)
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            a[i, j] = v
    if ctx.sym:
        from sx import npshim

        return npshim.asarray(a)
    return a


def table(ctx, s):
    """An explicit tableau: coefficients a_ij (j < i), b_i, c_i with c_0 = 0."""
    A = [[ctx.real(f"a{i}{j}", -2, 2) if j < i else 0.0 for j in range(s)] for i in range(s)]
    B = [ctx.real(f"b{i}", -2, 2) for i in range(s)]
    C = [0.0] + [ctx.real(f"c{i}", -2, 2) for i in range(1, s)]
    return A, B, C


def stages(ctx, A, C, f, t, y, h):
    K, n = [], len(y)
    for i in range(len(C)):
        z = list(y)
        for j in range(i):
            z = [z[k] + h * (A[i][j] * K[j][k]) for k in range(n)]
        K.append(flat(f(t + h * C[i], ctx.array(z))))
    return K


def combine(y, h, w, K):
    out = list(y)
    for b, k in zip(w, K):
        out = [o + h * (b * x) for o, x in zip(out, k)]
    return out


def same(ctx, s, t, y, f, label):
    ctx.close(s.t, t, label + ": time", 1e-9)
    ctx.closes(s.y, y, label + ": state", 1e-9)
    ctx.closes(s.f, f(s.t, s.y), label + ": derivative", 1e-9)


def h_erk(ctx, s, dim, n):
    t0, h = ctx.real("t0", -4, 4), ctx.pos("h", 2)
    y0 = [ctx.real(f"y{i}") for i in range(dim)]
    A, B, C = table(ctx, s)
    f = ctx.rhs("f", dim)
    with defined(base("ERK"), A=matrix(ctx, A), B=ctx.array(B), C=ctx.array(C)) as new:
        S = new()(f, t0, ctx.array(y0), h=h)
        t, y = t0, y0
        for i in range(n):
            S.step()
            K = stages(ctx, A, C, f, t, y, h)
            t, y = t + h, combine(y, h, B, K)
            same(ctx, S, t, y, f, f"step {i}")
    ctx.reach("done")


def h_pair(ctx, s, fsal):
    """One attempt of an embedded pair: the table's step, accepted iff the table's estimate is below the tolerance."""
    t0, h = ctx.real("t0", -4, 4), ctx.pos("h", 2)
    y0 = ctx.real("y")
    A, B, C = table(ctx, s)
    m = s + 1 if fsal else s
    B2 = [ctx.real(f"d{i}", -2, 2) for i in range(m)]
    rhs = ctx.rhs("f", 1)
    calls = [0]
    # calls of one attempt; one more after it is accepted where the last stage is not the new derivative
    per = s - 1 + (1 if fsal else 0)

    class Rejected(Exception):
        pass

    on = [False]

    def f(t, y):
        if on[0]:
            calls[0] += 1
            if calls[0] > per:
                if fsal:
                    raise Rejected
                # new derivative, or the first stage of another attempt
                on.append((t, flat(y)[0]))
                if calls[0] > per + 1:
                    raise Rejected
        return rhs(t, y)

    with defined(base("FSAL") if fsal else Pair(), A=matrix(ctx, A), B=ctx.array(B), C=ctx.array(C), B2=ctx.array(B2), error_estimator_order=1) as new:
        S = new()(f, t0, ctx.array([y0]), first_step=h, atol=1.0, rtol=0.0, safety_factor=0.5, min_factor=0.5, max_factor=0.5)
        on[0] = True
        K = stages(ctx, A, C, rhs, t0, [y0], h)
        t, y = t0 + h, combine([y0], h, B, K)
        if fsal:
            K.append(flat(rhs(t, ctx.array(y))))
        E = [(B[i] if i < s else 0.0) - B2[i] for i in range(m)]
        e = combine([0.0], h, E, K)[0]
        ok = ctx.true(band(e < 1, e > -1))
        if fsal and not ok or not fsal and not ok and s > 1:
            try:
                S.step()
            except Rejected:
                ctx.reach("rejected")
            else:
                ctx.check(ctx.true(band(e < 1 + 1e-9, e > -1 - 1e-9)), "accepted although the estimate is not below the tolerance")
        elif ok:
            try:
                S.step()
            except Rejected:
                ctx.check(ctx.true(bor(e > 1 - 1e-9, e < -1 + 1e-9)), "rejected although the estimate is below the tolerance")
            else:
                on[0] = False
                same(ctx, S, t, y, rhs, "step")
                ctx.reach("accepted")


_pair = []


def Pair():
    """AdaptiveRungeKutta with explicit stages, as an abstract base."""
    if not _pair:
        r, e = base("AdaptiveRungeKutta"), base("ERK")
        _pair.append(type(r)("UserPair", (r, e), {}, abstract=True))
    return _pair[0]


def h_multistep(ctx, na, nb, implicit, dim, n):
    t0, h = ctx.real("t0", -4, 4), ctx.pos("h", 2)
    y0 = [ctx.real(f"y{i}") for i in range(dim)]
    A = [ctx.real(f"a{i}", -2, 2) for i in range(na)]
    B = [ctx.real(f"b{i}", -2, 2) for i in range(nb)]
    f = ctx.rhs("f", dim)
    attrs = dict(A=ctx.array(A), B=ctx.array(B), GROUP="User")
    if implicit:
        attrs["Bn"] = Bn = ctx.real("bn", 0, 2, lo_open=True)
    with rootless(ctx), defined(base("ImplicitMultistep" if implicit else "ExplicitMultistep"), **attrs) as new:
        S = new()(f, t0, ctx.array(y0), h=h, first_stepper_cls=None)
        k = max(na, 2)
        past = [(t0, y0)] * k
        for i in range(n):
            S.step()
            t = past[-1][0] + h
            K = [0.0] * dim
            for b, (tt, yy) in zip(B, past[-nb:]):
                d = flat(f(tt, ctx.array(yy)))
                K = [v + h * (b * x) for v, x in zip(K, d)]
            for a, (tt, yy) in zip(A, past[-na:]):
                K = [v - a * x for v, x in zip(K, yy)]
            y = flat(S.y)
            if implicit:
                d = flat(f(t, ctx.array(y)))
                ctx.closes([v - h * (Bn * x) for v, x in zip(y, d)], K, f"step {i}: implicit equation", 1e-6 if not ctx.sym else 1e-9)
            else:
                ctx.closes(y, K, f"step {i}: state", 1e-9)
            ctx.close(S.t, t, f"step {i}: time", 1e-9)
            ctx.closes(S.f, f(S.t, S.y), f"step {i}: derivative", 1e-9)
            past = past[1:] + [(t, y)]
    ctx.reach("done")


def h_register(ctx, what):
    """A new class is found by name and alias, listed in its group; a colliding one is refused."""
    import nbkode

    B = base("ERK")
    tab = dict(A=np.array([[0.0]]), B=np.array([1.0]), C=np.array([0.0]))
    if what == "found":
        name = ctx.choice("name", ["UserSolver", "runge_kutta4", "X"])
        group = ctx.choice("group", ["Own", "Runge-Kutta", "runge-kutta", "EULER"])
        with defined(B, name, ALIASES=("Mine", "Another"), GROUP=group, **tab) as new:
            before = {g.lower(): nbkode.get_solvers(g) for g in nbkode.get_groups()}
            C = new()
            for n in (name, "Mine", "Another"):
                for v in (n, n.lower(), n.upper()):
                    ctx.check(nbkode.get_solver(v) is C, "not found by name or alias")
            for g, old in before.items():
                if g != group.lower():
                    ctx.check(nbkode.get_solvers(g) == old, "another group changed")
            for g in (group, group.lower(), group.upper()):
                ctx.check(set(nbkode.get_solvers(g)) == {*before.get(group.lower(), ()), C}, "not listed in its group beside the others")
            ctx.check(nbkode.get_solvers().count(C) == 1, "not listed once")
            ctx.check(group.lower() in [g.lower() for g in nbkode.get_groups()], "group not listed")
    elif what == "filtered":
        # the coefficient of the implicit term as it comes out of an array
        Bn = np.array([0.5, 0.0])[ctx.choice("Bn", [0, 1])]
        if ctx.choice("python number", [False, True]):
            Bn = float(Bn)
        M = base("ImplicitMultistep" if Bn else "ExplicitMultistep")
        with defined(M, "Fresh", A=np.array([-1.0]), B=np.array([0.5]), Bn=Bn) as new:
            C = new()
            ctx.check((C in nbkode.get_solvers(implicit=True)) == bool(Bn), "filter by implicit")
            ctx.check((C in nbkode.get_solvers(implicit=False)) == (not Bn), "filter by explicit")
            ctx.check(C in nbkode.get_solvers(multistep=True, fixed_step=True), "filter by family")
            ctx.check(C not in nbkode.get_solvers(runge_kutta=True), "filter by family")
    elif what == "collides":
        name, al = ctx.choice("name", [("rungekutta4", ()), ("Fresh", ("EULER",)), ("Fresh", ("Ok", "dop853")), ("Fresh", ("heun3", "Ok"))])
        with defined(B, name, ALIASES=al, **tab) as new:
            before = sorted((k, v.__name__) for k, v in nbkode.core.Solver.SOLVERS.items()), nbkode.get_solvers()
            try:
                new()
                ok = False
            except Exception:
                ok = True
            ctx.check(ok, "a colliding name is accepted")
            after = sorted((k, v.__name__) for k, v in nbkode.core.Solver.SOLVERS.items()), nbkode.get_solvers()
            ctx.check(before == after, "a refused class stays registered")
    elif what == "implicit":
        v = ctx.real("v", 0.1, 2)
        i, j = ctx.choice("at", [(0, 0), (0, 1), (1, 1)])
        A = [[0.0, 0.0], [0.5, 0.0]]
        A[i][j] = v
        with defined(B, "Fresh", A=matrix(ctx, A), B=np.array([0.5, 0.5]), C=np.array([0.0, 0.5])) as new:
            try:
                new()
                ok = False
            except AssertionError:
                ok = True
        ctx.check(ok, "an implicit table is accepted as explicit")
    else:
        n = ctx.choice("n", [1, 0, -3, 2.5])
        with defined(B, "Fresh", LEN_HISTORY=n, **tab) as new:
            try:
                new()
                ok = False
            except ValueError:
                ok = True
        ctx.check(ok, "a history shorter than two points, or not whole, is accepted")
    ctx.reach("done")


def tasks(tier):
    deep = tier == "thorough"
    out = []
    for s in range(1, 5):
        for dim in (1, 2):
            if dim == 1 or s <= 3 or deep:
                out.append(Task(f"erk:{s}:{dim}", h_erk, dict(s=s, dim=dim, n=3 if deep and s < 4 else 2 if s < 4 else 1), need=["done"]))
    for s in (1, 2, 3) if deep else (1, 2):
        for fsal in (True, False):
            need = ["accepted"] + (["rejected"] if fsal or s > 1 else [])
            out.append(Task(f"pair:{s}:{'fsal' if fsal else 'plain'}", h_pair, dict(s=s, fsal=fsal), need=need))
    for na in range(1, 5):
        for nb in range(1, na + 1):
            for implicit in (False, True):
                for dim in (1, 2):
                    if dim == 2 and nb not in (1, na):
                        continue
                    n = na + (2 if deep else 1)
                    out.append(Task(f"{'implicit' if implicit else 'explicit'}:{na}:{nb}:{dim}", h_multistep, dict(na=na, nb=nb, implicit=implicit, dim=dim, n=n), need=["done"]))
    for what in ("found", "filtered", "collides", "implicit", "history"):
        out.append(Task(f"register:{what}", h_register, dict(what=what), need=["done"]))
    return out
