"""Contracts standing for the root finders (checked on their own in C13-C15)."""
from __future__ import annotations

import contextlib

from . import core, load
from .core import Sym, band, bor
from .ctx import flat


def argkey(x):
    if isinstance(x, Sym):
        return x.key()
    if isinstance(x, (tuple, list)):
        return tuple(argkey(v) for v in x)
    if hasattr(x, "reshape") and hasattr(x, "dtype"):
        return tuple(argkey(v) for v in flat(x))
    if isinstance(x, (int, float)):
        return Sym.of(x).key() if Sym.of(x) is not None else repr(x)
    return None  # callables and objects: the residual's value tells them apart


class RootStub:
    """newton-like solver: an arbitrary point where the residual vanishes.

    Every point of the box is allowed; the same residual gives the same point.
    """

    def __init__(self, scalar, log=None, bound=64, probe=False):
        self.scalar = scalar
        self.probe = probe
        self.log = log
        self.bound = bound

    def __call__(self, func, y0, *a, **kw):
        names = ["fprime", "args"] if self.scalar else ["args"]
        for n, v in zip(names, a):
            kw[n] = v
        args = kw.get("args", ())
        p = core.cur()
        from . import npshim

        y0a = npshim.asarray(y0)
        n = y0a.size
        r0 = func(y0a, *args)
        key = ("root", argkey(r0), argkey(y0a), argkey(args))
        if self.probe:
            # the same function: the same value at an arbitrary point
            x = npshim.array([p.inp(f"probe{i}", -self.bound, self.bound) for i in range(n)], dtype=float)
            key = ("root", argkey(y0a), argkey(func(x.reshape(y0a.shape), *args)))
        ent = p.fmemo.get(key)
        if ent is None:
            ys = [
                Sym.atom(p.new_atom("root", "solution", lo=-self.bound, hi=self.bound))
                for _ in range(n)
            ]
            y = npshim.array(ys, dtype=float).reshape(y0a.shape)
            res = func(y, *args)
            for e in flat(res):
                p.assume(e == 0)
            ent = y
            p.fmemo[key] = ent
        if self.log is not None:
            self.log.append((func, y0a, args, ent, kw))
        return ent.copy()


@contextlib.contextmanager
def roots(log=None, probe=False):
    """Replace j_newton/newton_hd/newton by their contract."""
    s, h = RootStub(True, log, probe=probe), RootStub(False, log, probe=probe)
    undo = []
    undo += load.replace_everywhere(load.orig("j_newton"), s)
    undo += load.replace_everywhere(load.orig("newton"), s)
    undo += load.replace_everywhere(load.orig("newton_hd"), h)
    try:
        yield
    finally:
        load.restore(undo)


class BisectStub:
    """memo: functions with identical values at both ends and in the middle get the same point."""

    def __init__(self, log=None, memo=False):
        self.log = log
        self.memo = memo

    def __call__(self, fun, left, right, tol=1.48e-8, maxiter=50, rtol=0.0, args=()):
        p = core.cur()
        if not left < right:
            raise ValueError("In bisect, 'left' must be smaller than 'rigth'.")
        yl = fun(left, *args)
        if yl == 0:
            self._log(left, left, right, yl, None, yl, tol, maxiter)
            return left
        yr = fun(right, *args)
        if yr == 0:
            self._log(right, left, right, yl, yr, yr, tol, maxiter)
            return right
        if (yl > 0) == (yr > 0) if not isinstance(yl > 0, core.SymBool) else bool(yl > 0) == bool(yr > 0):
            raise ValueError("bisect: same sign")
        if self.memo:
            key = ("bisect", argkey((left, right, yl, yr, tol, fun((left + right) / 2, *args))))
            r = p.fmemo.get(key)
            if r is not None:
                return r
        r = Sym.atom(p.new_atom("root", "bisroot"))
        p.assume(r > left)
        p.assume(r < right)
        yr_ = fun(r, *args)
        p.assume(yr_ <= tol)
        p.assume(yr_ >= -tol)
        if self.memo:
            p.fmemo[key] = r
        self._log(r, left, right, yl, yr, yr_, tol, maxiter)
        return r

    def _log(self, *a):
        if self.log is not None:
            self.log.append(a)


@contextlib.contextmanager
def bisection(log=None, memo=False):
    undo = load.replace_everywhere(load.orig("bisect"), BisectStub(log, memo))
    # event_handler calls zeros.bisect through the module attribute: same dict
    try:
        yield
    finally:
        load.restore(undo)
