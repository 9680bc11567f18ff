"""Shared pieces of the harnesses."""
from __future__ import annotations

import contextlib
import sys

import numpy as np

from sx import core, load, stubs
from sx.core import PathAbort, band, bnot, bor, implies  # noqa: F401
from sx.ctx import flat  # noqa: F401
from sx.run import Task  # noqa: F401

ERK = ["Runge2", "Runge3", "Heun3", "RungeKutta4", "RungeKutta3_8"]
ADAPTIVE = ["RungeKutta23", "RungeKutta45", "DOP853"]
AB = [f"AdamsBashforth{i}" for i in range(1, 6)]
AM = [f"AdamsMoulton{i}" for i in range(1, 6)]
BDF = [f"BDF{i}" for i in range(1, 7)]
EULER = ["ForwardEuler", "BackwardEuler"]
MULTI = AB + AM + BDF + EULER
IMPLICIT = AM + BDF + ["BackwardEuler"]
FIXED = ERK + MULTI
ALL = FIXED + ADAPTIVE
ORDER = {
    "Runge2": 2, "Runge3": 3, "Heun3": 3, "RungeKutta4": 4, "RungeKutta3_8": 4,
    "RungeKutta23": 3, "RungeKutta45": 5, "DOP853": 8,
}
STAGES = {
    "Runge2": 2, "Runge3": 4, "Heun3": 3, "RungeKutta4": 4, "RungeKutta3_8": 4,
    "RungeKutta23": 4, "RungeKutta45": 7, "DOP853": 13,
}


def klass(name):
    """The solver class, found by name in the package's modules."""
    nb = load.load(True) if "nbkode" not in sys.modules else sys.modules["nbkode"]
    import nbkode.euler, nbkode.multistep.adams_bashforth, nbkode.multistep.adams_moulton  # noqa
    import nbkode.multistep.bdf, nbkode.runge_kutta.explicit  # noqa

    for m in (
        "nbkode.euler",
        "nbkode.multistep.adams_bashforth",
        "nbkode.multistep.adams_moulton",
        "nbkode.multistep.bdf",
        "nbkode.runge_kutta.explicit",
    ):
        c = getattr(sys.modules[m], name, None)
        if c is not None:
            return c
    return getattr(nb, name)


def steps_of(name):
    """Number of history points of a multistep formula."""
    return int(name[-1]) if name[-1].isdigit() and name in MULTI else 1


def limited(ctx, f, n, why="attempt bound"):
    """f, giving the path up after n calls at different points (symbolic runs only)."""
    if not ctx.sym:
        return f
    seen = set()

    def g(*a):
        seen.add(stubs.argkey(a))
        if len(seen) > n:
            raise PathAbort(why)
        return f(*a)

    return g


def counted(ctx, f, n, why="rejected attempt"):
    """f, giving the path up after n calls (symbolic runs only)."""
    if not ctx.sym:
        return f
    c = [0]

    def g(*a):
        c[0] += 1
        if c[0] > n:
            raise PathAbort(why)
        return f(*a)

    return g


def budget(name, attempts):
    """rhs calls of that many attempted steps of an adaptive solver."""
    return 1 + attempts * (STAGES[name] - 1)


SIMPLE = dict(atol=1.0, rtol=0.0, safety_factor=0.0, min_factor=0.5, max_factor=2.0)


def make(ctx, name, f, t0, y0, h, t_bound=np.inf, first=None, params=None, **opts):
    cls = klass(name)
    kw = {}
    if params is not None:
        kw["params"] = params
    if name in ADAPTIVE:
        o = dict(SIMPLE)
        o.update(opts)
        kw.update(o)
        kw["first_step"] = h
    else:
        kw["h"] = h
    if name in MULTI:
        kw["first_stepper_cls"] = first
    return cls(f, t0, y0, t_bound=t_bound, **kw)


@contextlib.contextmanager
def rootless(ctx, log=None, probe=False):
    """Implicit equations are solved by contract in symbolic runs."""
    if ctx.sym:
        with stubs.roots(log, probe):
            yield
    else:
        yield


def snapshot(s):
    """(ts, ys, fs) of the recorded history, as fresh lists."""
    c = s.cache
    return [flat(np.array(c.ts)), flat(np.array(c.ys)), flat(np.array(c.fs))]


def state(s):
    return [s.t, flat(s.y), flat(s.f)]
