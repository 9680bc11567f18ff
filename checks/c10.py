"""C10: the error estimate against SciPy's published coefficients - as linear forms for all stage values, through the accept/reject decision of a real step, and as zero on every rooted tree up to the estimator's order."""
from . import trees
from .common import *

BOUNDS = "3 adaptive solvers; one attempted step; decision: any right-hand side (RungeKutta23, RungeKutta45), any magnitude of every one- and two-stage pattern of derivatives (DOP853), with an absolute tolerance for any h and with atol=1/4, rtol=1/2 for any y0 in [-100,100] at h=1/2 (quick tier: a third of the pairs); h in (0,2], t0 in [-4,4]; all rooted trees up to 2, 4 and (DOP853) 3 / 5 vertices, h in [0.5,1]"
ASSUMPTIONS = ["SciPy's RK23, RK45, DOP853 coefficient arrays are the published ones", "Butcher's theorem: vanishing on rooted trees is vanishing on every ODE up to that order"]

ORDERS = {"RungeKutta23": [("E", 2)], "RungeKutta45": [("E", 4)], "DOP853": [("E3", 3), ("E5", 5)]}


def scipy_of(name):
    import scipy.integrate as si

    return {"RungeKutta23": si.RK23, "RungeKutta45": si.RK45, "DOP853": si.DOP853}[name]


def form(E, K):
    out = 0.0
    for e, k in zip(E, K):
        out = out + float(e) * k
    return out


class Rejected(Exception):
    pass


def one(ctx, name, rhs, y0, t0, h, atol):
    """One attempt of a real step: (accepted, stage derivatives)."""
    n = STAGES[name]
    log, on = [], [False]

    def f(t, y):
        if on[0] and len(log) == n:
            raise Rejected()
        v = rhs(t, y)
        if len(log) < n:
            log.append(flat(v))
        return v

    s = klass(name)(f, t0, y0, first_step=h, atol=atol, rtol=0.0)
    if name == "DOP853":
        del log[1:]  # its interpolator is prepared during construction
    on[0] = True
    try:
        s.step()
        ok = True
    except Rejected:
        ok = False
    return ok, log, s


def quiet(f, *a):
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a)


def h_decide(ctx, name, dim=1):
    """Accepted exactly when SciPy's estimate is below the tolerance."""
    t0 = ctx.real("t0", -4, 4)
    h = ctx.pos("h", 2)
    y0 = ctx.vec("y", dim)
    ok, K, s = quiet(one, ctx, name, ctx.rhs("f", dim), y0, t0, h, 1.0)
    E = scipy_of(name).E
    e = h * form(E, [k[0] for k in K])
    if ok:
        ctx.check(e < 1 + 1e-7, "accepted although the estimate is not below the tolerance")
        ctx.check(e > -1 - 1e-7, "accepted although the estimate is not below the tolerance")
        ctx.reach("accepted")
    else:
        ctx.check(bor(e > 1 - 1e-7, e < -1 + 1e-7), "rejected although the estimate is below the tolerance")
        ctx.reach("rejected")


def h_pattern(ctx, i, j, sg):
    """DOP853: stages i (and j) of the attempt have the derivative c (and sg*c), others zero."""
    t0 = ctx.real("t0", -4, 4)
    h = ctx.pos("h", 2)
    c = ctx.pos("c", 1e9)
    n = STAGES["DOP853"]
    pat = [0.0] * n
    pat[i] = 1.0
    if j is not None:
        pat[j] = float(sg)
    log, on = [], [False]

    def g(t, y):
        if not on[0]:
            return ctx.array([pat[0] * c])
        k = len(log) + 1
        if k >= n:
            raise Rejected()
        log.append(k)
        return ctx.array([pat[k] * c])

    s = quiet(lambda: klass("DOP853")(g, t0, np.array([0.0]), first_step=h, atol=1.0, rtol=0.0))
    on[0] = True
    try:
        s.step()
        ok = True
    except Rejected:
        ok = False
    D = scipy_of("DOP853")
    e5, e3 = form(D.E5, pat), form(D.E3, pat)
    if abs(e5) < 1e-14:
        k = 0.0
    else:
        k = e5 * e5 / (e5 * e5 + 0.01 * e3 * e3) ** 0.5
    e = h * c * k
    if ok:
        ctx.check(e < 1 + 1e-6, "accepted although the estimate is not below the tolerance")
        ctx.reach("accepted")
    else:
        ctx.check(e > 1 - 1e-6, "rejected although the estimate is below the tolerance")
        ctx.reach("rejected")


def h_scaled(ctx, i, j, sg):
    """The same with a relative tolerance: y0 and the increment of the step are arbitrary."""
    t0 = ctx.real("t0", -4, 4)
    h = 0.5
    c = ctx.real("c", -1e6, 1e6)
    y0 = ctx.real("y0", -100, 100)
    atol, rtol = 0.25, 0.5
    n = STAGES["DOP853"]
    pat = [0.0] * n
    pat[i] = 1.0
    if j is not None:
        pat[j] = float(sg)
    log, on = [], [False]

    def g(t, y):
        if not on[0]:
            return ctx.array([pat[0] * c])
        k = len(log) + 1
        if k >= n:
            raise Rejected()
        log.append(k)
        return ctx.array([pat[k] * c])

    s = quiet(lambda: klass("DOP853")(g, t0, ctx.array([y0]), first_step=h, atol=atol, rtol=rtol))
    on[0] = True
    try:
        s.step()
        ok = True
    except Rejected:
        ok = False
    D = scipy_of("DOP853")
    e5, e3 = form(D.E5, pat), form(D.E3, pat)
    k = 0.0 if abs(e5) < 1e-14 else e5 * e5 / (e5 * e5 + 0.01 * e3 * e3) ** 0.5
    y1 = y0 + h * c * form(D.B, pat)
    ends = [y0, -y0, y1, -y1]
    es = [h * c * k, -h * c * k]
    if ok:
        for e in es:
            ctx.check(bor(*[e < (atol + rtol * v) * (1 + 1e-6) for v in ends]), "accepted although the scaled estimate is not below one")
        ctx.reach("accepted")
    else:
        ctx.check(bor(*[band(*[e > (atol + rtol * v) * (1 - 1e-6) for v in ends]) for e in es]), "rejected although the scaled estimate is below one")
        ctx.reach("rejected")


def h_form(ctx, name):
    """The coefficient arrays as linear forms, for every stage derivative."""
    h = ctx.pos("h", 2)
    for attr, _ in ORDERS[name]:
        E, W = flat(np.array(getattr(klass(name), attr))), flat(np.array(getattr(scipy_of(name), attr)))
        ctx.check(len(E) == len(W), "number of error coefficients")
        if sum(a * b for a, b in zip(E, W)) < 0:
            W = [-w for w in W]  # only its magnitude matters
        K = [ctx.real(f"k{i}") for i in range(len(W))]
        ctx.close(h * form(E, K), h * form(W, K), f"{attr}: not the published estimate", 1e-10)
    ctx.reach("done")


def h_trees(ctx, name):
    """The estimate vanishes on every tree up to the estimator's order."""
    top = max(p for _, p in ORDERS[name])
    t0 = ctx.real("t0", -2, 2)
    h = ctx.real("h", 0.5, 1)
    lams = [ctx.real("lam0", -1, 1), ctx.real("lam1", -1, 1)]
    S = trees.System(ctx, top, lams, t0)
    ok, K, s = quiet(one, ctx, name, S.rhs(), np.zeros(S.n), t0, h, 1e9)
    ctx.check(ok, "rejected with a huge tolerance")
    for attr, p in ORDERS[name]:
        E = flat(np.array(getattr(klass(name), attr)))
        for i, tau in enumerate(S.trees):
            if trees.size(tau) <= p:
                ctx.close(h * form(E, [k[i] for k in K]), 0.0, f"{attr}: estimate does not vanish at order {trees.size(tau)}", 1e-10)
    ctx.reach("done")


def h_exact(ctx, name):
    """Polynomial solutions of degree q: accepted whatever the step, and the step grows by its limit."""
    q = ORDERS[name][-1][1]
    t0 = ctx.real("t0", -4, 4)
    h = ctx.real("h", 0.1, 2)
    c = [ctx.real(f"c{i}", -2, 2) for i in range(q)]

    def f(t, y):
        x = t - t0
        v = c[0]
        for i in range(1, q):
            v = v + c[i] * x**i
        return ctx.array([v])

    ok, K, s = quiet(one, ctx, name, f, np.array([0.0]), t0, h, 1e-6)
    ctx.check(ok, "a step without error is rejected")
    ctx.reach("done")


def tasks(tier):
    out = []
    for name in ADAPTIVE:
        out.append(Task(f"form:{name}", h_form, dict(name=name), need=["done"]))
        out.append(Task(f"trees:{name}", h_trees, dict(name=name), need=["done"], loose=1e-9))
        out.append(Task(f"exact:{name}", h_exact, dict(name=name), need=["done"]))
    for name in ("RungeKutta23", "RungeKutta45"):
        out.append(Task(f"decide:{name}", h_decide, dict(name=name), need=["accepted", "rejected"]))
    n = STAGES["DOP853"]
    for i in range(n):
        out.append(Task(f"scaled:{i}", h_scaled, dict(i=i, j=None, sg=1), need=["accepted"]))
        out.append(Task(f"pattern:{i}", h_pattern, dict(i=i, j=None, sg=1), need=["accepted"]))
        for j in range(i + 1, n):
            for sg in (1, -1):
                if tier == "thorough" or (i + j) % 3 == 0:
                    out.append(Task(f"scaled:{i}:{j}:{sg}", h_scaled, dict(i=i, j=j, sg=sg), need=["accepted"]))
                out.append(Task(f"pattern:{i}:{j}:{sg}", h_pattern, dict(i=i, j=j, sg=sg), need=["accepted"]))
    return out
