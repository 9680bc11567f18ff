"""Rooted trees: the polynomial systems on which a method of order p must be exact.

Component tau of the system is  y_tau' = product over the children c of tau of y_c,
a leaf child being read as lam*(t - t0) + (1 - lam)*y_leaf with lam symbolic, so that
one run covers every mixture of explicit time dependence and state dependence.
Starting from 0 at t0 the exact solution is (t - t0)^|tau| / gamma(tau), and by Butcher's
theorem a Runge-Kutta method has order p for every smooth system iff it reproduces
all components with |tau| <= p.
"""
from __future__ import annotations

import functools
from fractions import Fraction


@functools.lru_cache(None)
def trees(n):
    """All rooted trees with n vertices, as sorted tuples of subtrees."""
    if n == 1:
        return ((),)
    out = set()

    def forests(total, biggest):
        if total == 0:
            yield ()
            return
        for k in range(min(total, biggest), 0, -1):
            for t in trees(k):
                for rest in forests(total - k, k):
                    yield (t,) + rest

    for f in forests(n - 1, n - 1):
        out.add(tuple(sorted(f)))
    return tuple(sorted(out))


@functools.lru_cache(None)
def size(t):
    return 1 + sum(size(c) for c in t)


@functools.lru_cache(None)
def gamma(t):
    g = size(t)
    for c in t:
        g *= gamma(c)
    return g


class System:
    def __init__(self, ctx, p, lams, t0, skip=lambda i: False):
        self.ctx = ctx
        self.trees = [t for n in range(1, p + 1) for t in trees(n)]
        self.index = {t: i for i, t in enumerate(self.trees)}
        self.n = len(self.trees)
        self.lams, self.t0 = lams, t0

    def rhs(self):
        ctx, t0 = self.ctx, self.t0
        plan = []
        for j, tau in enumerate(self.trees):
            plan.append(([self.index[c] for c in tau if c != ()], sum(1 for c in tau if c == ()), self.lams[j % len(self.lams)]))

        def f(t, y):
            s = t - t0
            leaf = {}
            out = []
            for inner, leaves, lam in plan:
                v = 1.0
                for i in inner:
                    v = v * y[i]
                if leaves:
                    key = id(lam)
                    if key not in leaf:
                        leaf[key] = lam * s + (1 - lam) * y[0]
                    for _ in range(leaves):
                        v = v * leaf[key]
                out.append(v)
            return ctx.array(out)

        return f

    def exact(self, s):
        return [s ** size(t) * (1.0 / 1) / gamma(t) if not hasattr(s, "t") else s ** size(t) * Fraction(1, gamma(t)) for t in self.trees]
