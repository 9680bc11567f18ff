"""What a harness body sees: the same body runs symbolically (SymCtx) and, to
replay a counterexample, concretely on the unpatched code (ConcCtx)."""
from __future__ import annotations

import math

import numpy as real_np

from . import core
from .core import PathAbort, Sym, SymBool, band, bnot, bor


class Violated(Exception):
    def __init__(self, label, detail=""):
        super().__init__(f"{label}: {detail}")
        self.label, self.detail = label, detail


class AssumptionFailed(Exception):
    pass


class Candidate:
    def __init__(self, label, models, status, kind="check", detail=""):
        self.label, self.models, self.status, self.kind, self.detail = label, models, status, kind, detail


def flat(x):
    if isinstance(x, real_np.ndarray):
        return [v for v in x.reshape(-1)] if x.dtype == object else [v for v in x.reshape(-1).tolist()]
    if isinstance(x, (list, tuple)):
        out = []
        for v in x:
            out += flat(v)
        return out
    return [x]


class Base:
    # numeric helpers shared by both modes
    def closes(self, a, b, label, tol=None):
        fa, fb = flat(a), flat(b)
        self.check(len(fa) == len(fb), label + ":shape")
        for i, (x, y) in enumerate(zip(fa, fb)):
            self.close(x, y, label, tol)


class SymCtx(Base):
    sym = True
    jit = False

    def __init__(self, path, sink):
        self.p = path
        self.sink = sink  # list of Candidate
        self.obligations = 0

    # inputs
    def real(self, name, lo=-8, hi=8, lo_open=False, hi_open=False):
        if self.p.ex.fp:
            return self.p.inp_fp(name)
        return self.p.inp(name, lo, hi, lo_open, hi_open)

    def pos(self, name, hi=4):
        return self.real(name, 0, hi, lo_open=True)

    def choice(self, name, options):
        options = list(options)
        return options[self.p.choose(name, len(options))]

    def vec(self, name, n, lo=-8, hi=8):
        return self.array([self.real(f"{name}{i}", lo, hi) for i in range(n)])

    def array(self, xs):
        from . import npshim

        return npshim.array(list(xs), dtype=float)

    def fun(self, name, lo=-8, hi=8):
        def f(*args):
            return self.p.uf(name, flat(args), lo, hi)

        return f

    def rhs(self, name="f", n=1, lo=-8, hi=8, time=True, nparams=0):
        p = self.p

        def f(t, y, *params):
            a = ([t] if time else []) + flat(y) + flat(params)
            return self.array([p.uf(f"{name}{i}", a, lo, hi) for i in range(n)])

        return f

    def scalar_fun(self, name="g", lo=-8, hi=8):
        p = self.p

        def f(x, *args):
            r = p.uf(name, flat([x]), lo, hi)
            return r

        return f

    def jitted(self, f):
        return f

    # claims
    def assume(self, c):
        self.p.assume(c)

    def reach(self, label):
        self.p.labels.add(label)

    def check(self, cond, label, detail="", robust=()):
        self.obligations += 1
        st = self.p.stats
        st.obligations = getattr(st, "obligations", 0) + 1
        neg = bnot(cond)
        if neg is False:
            st.trivial = getattr(st, "trivial", 0) + 1
            return True
        if self.sink_full(label):
            return False
        status, model = self.p.refute(neg)
        if status == "unsat":
            return True
        models = []
        for r in robust:
            if r is False:
                continue
            s2, m2 = self.p.refute(band(neg, r))
            if s2 == "sat":
                models.append(m2)
                break
        if model is not None:
            models.append(model)
        m3 = self.p.abstract_model(neg)
        if m3 is not None:
            models.append(m3)
        self.sink.append(Candidate(label, models, status, detail=str(detail)[:500]))
        # the violated assertion is assumed not to matter for what follows
        return False

    def sink_full(self, label):
        return sum(1 for c in self.sink if c.label == label) >= 3

    def close(self, a, b, label, tol=None):
        tol = 1e-9 if tol is None else tol
        if isinstance(a, float) and isinstance(b, float):
            self.check(a == b or abs(a - b) <= tol or (math.isnan(a) and math.isnan(b)), label, f"{a} {b}")
            return
        d = a - b
        if isinstance(d, float) and not math.isfinite(d):
            self.check(False, label, f"{a} vs {b}")
            return
        if isinstance(d, Sym) and not d.t:
            self.check(True, label)
            return
        if isinstance(d, Sym) and self.rounded(d, tol):
            self.obligations += 1
            self.p.stats.obligations = getattr(self.p.stats, "obligations", 0) + 1
            return
        self.check(
            band(d <= tol, d >= -tol),
            label,
            f"{a} vs {b}" if self.p.stats.obligations < 0 else "",
            robust=[bor(d > 0.25, d < -0.25), bor(d > 1e-3, d < -1e-3)],
        )

    def rounded(self, d, tol):
        """Sound quick attempt at |d| <= tol with the coefficients rounded to 2^-80.

        The rounding error, bounded over the box of the atoms, is taken off the
        tolerance; the query is the solver's.
        """
        if max(c.denominator.bit_length() for c in d.t.values()) <= 256:
            return False
        slack, r = core.ZERO, {}
        for m, c in d.t.items():
            q = core.Fraction(round(c * (1 << 80)), 1 << 80)
            lo, hi, _ = self.p.mono_interval(m)
            if lo is None or hi is None:
                return False
            slack += abs(c - q) * max(abs(lo), abs(hi))
            if q:
                r[m] = q
        left = core.frac(tol) - slack
        if left <= 0:
            return False
        r = Sym(r)
        if not r.t:
            return True
        neg = bnot(band(r <= left, r >= -left))
        if neg is False:
            return True
        if neg is True:
            return False
        z3 = core.z3
        solver = z3.SolverFor("QF_LRA")  # the monomials as independent reals in their boxes
        parts = []
        for i, (m, c) in enumerate(r.t.items()):
            if not m:
                parts.append(core.zfrac(c))
                continue
            v = z3.Real(f"m{i}")
            lo, hi, _ = self.p.mono_interval(m)
            solver.add(v >= core.zfrac(lo), v <= core.zfrac(hi))
            parts.append(core.zfrac(c) * v)
        e = z3.Sum(*parts) if len(parts) > 1 else parts[0]
        solver.add(z3.Or(e > core.zfrac(left), e < -core.zfrac(left)))
        return self.p._check(solver) == z3.unsat

    def true(self, c):
        """Is the condition true (forks)?"""
        return bool(c)

    def poly(self, fn, deg):
        """Coefficients (by power) of the components of fn(x), x symbolic in (0, 1)."""
        p = self.p
        x = p.inp("x", 0, 1, True, True)
        ((xk, _),) = next(iter(x.t))  if False else (next(iter(x.t))[0],)
        vals = flat(fn(x))
        out = [[Sym({}) for _ in vals] for _ in range(deg + 1)]
        for i, v in enumerate(vals):
            v = Sym.of(v)
            for m, c in v.t.items():
                e = dict(m).get(xk, 0)
                if e < 0 or e > deg:
                    raise core.Unsupported(f"not a polynomial of degree {deg}")
                rest = tuple((k, n) for k, n in m if k != xk)
                for k, n in rest:
                    a = p.atoms[k]
                    if any(xk in Sym.of(z).atoms() for z in a.args):
                        raise core.Unsupported("not a polynomial")
                out[e][i] = out[e][i] + Sym({rest: c})
        return out


class ConcCtx(Base):
    sym = False

    def __init__(self, model, jit=False, loose=1e-6):
        self.m = model
        self.inputs = model.get("inputs", {})
        self.ufs = model.get("ufs", {})
        self.choices = model.get("choices", {})
        self.jit = jit
        self.loose = loose
        self.checked = 0

    def real(self, name, lo=-8, hi=8, lo_open=False, hi_open=False):
        v = self.inputs.get(name)
        if v is None:
            lo_, hi_ = (-1.0 if lo is None else lo), (1.0 if hi is None else hi)
            v = 0.5 * (lo_ + hi_)
        return float(v)

    def pos(self, name, hi=4):
        return self.real(name, 0, hi, True)

    def choice(self, name, options):
        options = list(options)
        return options[int(self.choices.get(name, 0))]

    def vec(self, name, n, lo=-8, hi=8):
        return self.array([self.real(f"{name}{i}", lo, hi) for i in range(n)])

    def array(self, xs):
        return real_np.array([float(x) for x in xs])

    def jitted(self, f):
        if self.jit:
            import numba

            return numba.njit(f)
        return f

    def _table(self, name):
        rows = self.ufs.get(name, [])
        ok = [(k, v) for k, v in rows if all(math.isfinite(x) for x in k) and math.isfinite(v)]
        return ok

    def fun(self, name, lo=-8, hi=8):
        rows = self._table(name)

        def f(*args):
            a = [float(x) for x in flat(args)]
            best, bv = None, 0.0
            for k, v in rows:
                d = sum((x - y) ** 2 for x, y in zip(k, a))
                if best is None or d < best:
                    best, bv = d, v
            return bv

        return f

    def rhs(self, name="f", n=1, lo=-8, hi=8, time=True, nparams=0):
        tabs = [self._table(f"{name}{i}") for i in range(n)]
        keys = []
        for tab in tabs:
            for k, _ in tab:
                if tuple(k) not in keys:
                    keys.append(tuple(k))
        m = (1 if time else 0) + n + nparams
        if not keys:
            keys = [tuple([0.0] * m)]
        vals = []
        for k in keys:
            row = []
            for tab in tabs:
                v = [v for kk, v in tab if tuple(kk) == k]
                row.append(v[0] if v else 0.0)
            vals.append(row)
        K = real_np.array(keys, dtype=float)
        V = real_np.array(vals, dtype=float)
        nk = len(keys)
        off = 1 if time else 0

        if nparams:

            def f(t, y, p):
                best = -1.0
                bi = 0
                for i in range(nk):
                    d = 0.0
                    if off:
                        d += (K[i, 0] - t) ** 2
                    for j in range(n):
                        d += (K[i, off + j] - y[j]) ** 2
                    for j in range(nparams):
                        d += (K[i, off + n + j] - p[j]) ** 2
                    if best < 0 or d < best:
                        best = d
                        bi = i
                return V[bi].copy()

        else:

            def f(t, y):
                best = -1.0
                bi = 0
                for i in range(nk):
                    d = 0.0
                    if off:
                        d += (K[i, 0] - t) ** 2
                    for j in range(n):
                        d += (K[i, off + j] - y[j]) ** 2
                    if best < 0 or d < best:
                        best = d
                        bi = i
                return V[bi].copy()

        return self.jitted(f)

    def scalar_fun(self, name="g", lo=-8, hi=8):
        rows = self._table(name)
        K = real_np.array([k[0] for k, _ in rows] or [0.0])
        V = real_np.array([v for _, v in rows] or [0.0])
        nk = len(K)

        def f(x, *args):
            best = -1.0
            bi = 0
            for i in range(nk):
                d = abs(K[i] - x)
                if best < 0 or d < best:
                    best = d
                    bi = i
            return V[bi]

        return self.jitted(f)

    def assume(self, c):
        if not c:
            raise AssumptionFailed()

    def reach(self, label):
        pass

    def check(self, cond, label, detail="", robust=()):
        self.checked += 1
        if not bool(cond):
            raise Violated(label, detail)
        return True

    def close(self, a, b, label, tol=None):
        a, b = float(a), float(b)
        tol = 0.0 if tol is None else tol
        lim = max(self.loose * (1 + max(abs(a), abs(b))), 2 * tol)
        if math.isfinite(a) != math.isfinite(b):
            raise Violated(label, f"{a} vs {b}")
        if math.isfinite(a):
            self.check(abs(a - b) <= lim, label, f"{a} vs {b}")

    def true(self, c):
        return bool(c)

    def poly(self, fn, deg):
        xs = 0.5 - 0.49 * real_np.cos(real_np.pi * (real_np.arange(deg + 1) + 0.5) / (deg + 1))
        vals = real_np.array([flat(fn(float(x))) for x in xs])
        V = real_np.vander(xs, deg + 1, increasing=True)
        return [list(row) for row in real_np.linalg.solve(V, vals)]
