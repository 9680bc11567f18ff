"""C06: two steps on the tree systems (checks/trees.py): every rooted tree up to the order, any step size, any mixture of time and state dependence of the leaves; exactness there is equivalent to the order on every smooth ODE."""
from . import trees
from .common import *

BOUNDS = "8 Runge-Kutta solvers; all rooted trees up to the order (200 trees for order 8); h in [1/2,1] (the error is homogeneous in h), t0 in [-2,2], two symbolic mixing parameters in [-1,1]; coefficients of the error below 1e-9"
ASSUMPTIONS = ["Butcher's theorem: exactness on the tree systems is the order on every smooth ODE", "the adaptive solvers are given an infinite absolute tolerance so that the attempt is accepted"]


def h_order(ctx, name, p, nsteps):
    t0 = ctx.real("t0", -2, 2)
    h = ctx.real("h", 0.5, 1)
    lams = [ctx.real("lam0", -1, 1), ctx.real("lam1", -1, 1)]
    S = trees.System(ctx, p, lams, t0)
    y0 = np.zeros(S.n)
    f = S.rhs()
    if name in ADAPTIVE:
        f = counted(ctx, f, 5 + nsteps * (STAGES[name] - 1))
    if name in ADAPTIVE:
        s = klass(name)(f, t0, y0, first_step=h, atol=float("inf"), rtol=0.0, max_factor=1.0, min_factor=1.0)
    else:
        s = klass(name)(f, t0, y0, h=h)
    for k in range(1, nsteps + 1):
        t, y = s.step()
        s_ = k * h
        ctx.close(t[0], t0 + s_, "time after the step")
        for v, e, tau in zip(flat(y), S.exact(s_), S.trees):
            ctx.close(v, e, f"order {trees.size(tau)} condition" + (" (second step)" if k > 1 else ""))
    ctx.reach("done")



def tasks(tier):
    out = []
    for name in ADAPTIVE[::-1] + ERK:
        out.append(Task(f"{name}", h_order, dict(name=name, p=ORDER[name], nsteps=2), need=["done"], loose=1e-9))
    return out
