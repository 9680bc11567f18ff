"""Path-exhaustive symbolic execution of the real Python code.

The functions of nbkode are run by CPython itself (the package's interpreted
mode, i.e. exactly the source numba compiles), on values of class `Sym`:
polynomials with exact rational coefficients over *atoms*.  An atom is a
symbolic input, the value of an uninterpreted function (an arbitrary rhs or
event function), or the result of a non-polynomial operation with its defining
axiom.  Every branch on a symbolic value asks z3 which outcomes are feasible
and explores all of them; every assertion of a harness is a z3 query over all
values of the atoms on that path.

Two encodings of a condition are used:
  * abstract: every non-linear monomial is an independent real variable
    (linear real arithmetic; UNSAT here is sound),
  * exact: monomials are products, atoms have their axioms, uninterpreted
    functions are congruent (non-linear real arithmetic).
"""
from __future__ import annotations

import itertools
import math
import re
import struct
import subprocess
import time
from fractions import Fraction

import z3

ZERO = Fraction(0)
ONE = Fraction(1)


class PathAbort(BaseException):
    """Abandon the current path (assumption false, or bound reached)."""

    def __init__(self, why):
        super().__init__(why)
        self.why = why


class Inconclusive(Exception):
    pass


class SymZeroDivision(ZeroDivisionError):
    pass


class Unsupported(TypeError):
    pass


CUR = None  # current Path


def cur():
    if CUR is None:
        raise RuntimeError("symbolic value used outside of an exploration")
    return CUR


# --------------------------------------------------------------------------
# atoms and polynomials


class Atom:
    __slots__ = ("id", "name", "kind", "args", "lo", "hi", "v", "nonzero", "meta")

    def __init__(self, id, name, kind, args=(), lo=None, hi=None, meta=None):
        self.id, self.name, self.kind, self.args = id, name, kind, args
        self.lo, self.hi = lo, hi
        self.v = z3.Real(f"{name}!{id}")
        self.nonzero = (lo is not None and lo > 0) or (hi is not None and hi < 0)
        self.meta = meta


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        n = d.get(k, 0) + e
        if n:
            d[k] = n
        else:
            d.pop(k, None)
    return tuple(sorted(d.items()))


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        return Fraction(x)
    if hasattr(x, "item"):
        return frac(x.item())
    raise Unsupported(f"not a real constant: {x!r} ({type(x)})")


def is_num(x):
    import numpy as np

    return isinstance(x, (int, float, Fraction, np.floating, np.integer, np.bool_))


#: Coefficients that differ by less than this (relative) differ by rounding only.
SNAP = Fraction(1, 1 << 44)


def cancel(n, a, b):
    """n = a + b, or zero if all that is left is the rounding of the constants a and b come from."""
    if n and (a.numerator > 0) is not (b.numerator > 0) and abs(n) <= SNAP * abs(b):
        return ZERO
    return n


def same_poly(a, b):
    """The same polynomial up to rounding of its coefficients (the monomials are the same ones)."""
    for m, c in a.t.items():
        d = b.t[m]
        if c != d and abs(c - d) > SNAP * abs(c):
            return False
    return True


class Sym:
    """A real number: polynomial (Laurent in non-zero atoms) over atoms."""

    __slots__ = ("t",)
    __array_priority__ = -1000

    def __init__(self, terms):
        self.t = terms  # dict mono -> Fraction

    # -- construction -----------------------------------------------------
    @staticmethod
    def const(c):
        c = frac(c)
        return Sym({(): c} if c else {})

    @staticmethod
    def of(x):
        """Sym of a finite number or Sym; None if not convertible."""
        if isinstance(x, Sym):
            return x
        if is_num(x):
            f = float(x) if not isinstance(x, (int, Fraction)) else None
            if f is not None and not math.isfinite(f):
                return None
            return Sym.const(x)
        return None

    @staticmethod
    def atom(a):
        return Sym({((a.id, 1),): ONE})

    # -- inspection ---------------------------------------------------------
    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def constant(self):
        return self.t.get((), ZERO)

    def key(self):
        return tuple(sorted(self.t.items()))

    def atoms(self):
        s = set()
        for m in self.t:
            for k, _ in m:
                s.add(k)
        return s

    # -- arithmetic -----------------------------------------------------------
    def _nonfinite(self, o):
        return is_num(o) and not isinstance(o, (int, Fraction)) and not math.isfinite(float(o))

    def _arr(self, o):
        return hasattr(o, "__array_ufunc__") and hasattr(o, "ndim") and not is_num(o)

    def __add__(self, o):
        if type(o) is not Sym:
            if self._arr(o):
                return NotImplemented
            if self._nonfinite(o):
                return float(o)
            o2 = Sym.of(o)
            if o2 is None:
                return NotImplemented
            o = o2
        a, b = self.t, o.t
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            n = r.get(m)
            if n is None:
                r[m] = c
            else:
                n = cancel(n + c, n, c)
                if n:
                    r[m] = n
                else:
                    del r[m]
        return Sym(r)

    __radd__ = __add__

    def __neg__(self):
        return Sym({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if type(o) is not Sym:
            if self._arr(o):
                return NotImplemented
            if self._nonfinite(o):
                return -float(o)
            o2 = Sym.of(o)
            if o2 is None:
                return NotImplemented
            o = o2
        return self + (-o)

    def __rsub__(self, o):
        if self._arr(o):
            return NotImplemented
        if self._nonfinite(o):
            return float(o)
        o2 = Sym.of(o)
        if o2 is None:
            return NotImplemented
        return o2 + (-self)

    def __mul__(self, o):
        if type(o) is not Sym:
            if self._arr(o):
                return NotImplemented
            if self._nonfinite(o):
                f = float(o)
                if math.isnan(f):
                    return f
                s = self > 0
                if s:
                    return f
                if self < 0:
                    return -f
                return float("nan")
            o2 = Sym.of(o)
            if o2 is None:
                return NotImplemented
            o = o2
        a, b = self.t, o.t
        if not a or not b:
            return Sym({})
        if o is self and len(a) > 1:
            return sym_pow(self, 2)
        if len(b) == 1:
            ((m2, c2),) = b.items()
            if not m2:
                return Sym({m: c * c2 for m, c in a.items()})
            return Sym({mono_mul(m, m2): c * c2 for m, c in a.items()})
        if len(a) == 1:
            ((m1, c1),) = a.items()
            if not m1:
                return Sym({m: c * c1 for m, c in b.items()})
            return Sym({mono_mul(m1, m): c * c1 for m, c in b.items()})
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mono_mul(m1, m2)
                o = r.get(m)
                c = c1 * c2
                n = c if o is None else cancel(o + c, o, c)
                if n:
                    r[m] = n
                else:
                    r.pop(m, None)
        if len(r) > 200000:
            raise Inconclusive("polynomial too large")
        return Sym(r)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if type(o) is not Sym:
            if self._arr(o):
                return NotImplemented
            if self._nonfinite(o):
                return 0.0 if not math.isnan(float(o)) else float("nan")
            o2 = Sym.of(o)
            if o2 is None:
                return NotImplemented
            o = o2
        return sym_div(self, o)

    def __rtruediv__(self, o):
        if self._arr(o):
            return NotImplemented
        if self._nonfinite(o):
            return self.__class__.const(1).__truediv__(self) * float(o)
        o2 = Sym.of(o)
        if o2 is None:
            return NotImplemented
        return sym_div(o2, self)

    def __pow__(self, e, mod=None):
        return sym_pow(self, e)

    def __rpow__(self, b):
        raise Unsupported("symbolic exponent")

    def __abs__(self):
        if self.is_const():
            return Sym.const(abs(self.constant()))
        p = cur()
        if p.known_nonneg(self):
            return self
        x, k = self, ONE
        if len(x.t) == 1:  # |c m| = |c| |m|
            ((m, c),) = x.t.items()
            k = abs(c)
            x = Sym({m: ONE})
            if p.known_nonneg(x):
                return Sym({m: k})
        elif x.t[min(x.t)] < 0:  # |x| = |-x|
            x = -x
        return p.fn_atom("abs", (x,)) * Sym.const(k)

    def __floor__(self):
        return sym_floor(self)

    def __ceil__(self):
        return -sym_floor(-self)

    def __trunc__(self):
        return sym_floor(self) if bool(self >= 0) else -sym_floor(-self)

    __int__ = __trunc__

    def __floordiv__(self, o):
        if self._arr(o):
            return NotImplemented
        return float(sym_floor(Sym.of(self / o)))

    def __rfloordiv__(self, o):
        return float(sym_floor(Sym.of(o / self)))

    def __mod__(self, o):
        if self._arr(o):
            return NotImplemented
        return self - o * (self // o)

    def __rmod__(self, o):
        return o - self * (o // self)

    def __divmod__(self, o):
        q = self // o
        return q, self - o * q

    def is_integer(self):
        return bool(self == sym_floor(self))

    def __round__(self, digits=None):
        if digits is not None:
            raise Unsupported("rounding of a symbolic real to digits")
        n = int(sym_floor(self))
        d = self - n
        return n if d < 0.5 else n + 1 if d > 0.5 or n % 2 else n

    def __index__(self):
        raise Unsupported("a symbolic real as an index")

    def __float__(self):
        if self.is_const():
            return float(self.constant())
        raise Unsupported("float() of a symbolic real")

    def __complex__(self):
        raise Unsupported("complex() of a symbolic real")

    # numpy object-array hooks
    def sqrt(self):
        return sym_root(self, 2)

    def cbrt(self):
        return sym_root(self, 3)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    ndim = 0
    shape = ()
    size = 1

    # -- comparisons -----------------------------------------------------------
    def _cmp(self, o, op):
        if type(o) is not Sym:
            if self._arr(o):
                return NotImplemented
            if is_num(o) and self._nonfinite(o):
                f = float(o)
                if math.isnan(f):
                    return op == "!="
                if op in ("<", "<="):
                    return f > 0
                if op in (">", ">="):
                    return f < 0
                return op == "!="
            o2 = Sym.of(o)
            if o2 is None:
                return NotImplemented
            o = o2
        return mk_cmp(self - o, op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented and o is None else r

    def __ne__(self, o):
        r = self._cmp(o, "!=")
        return True if r is NotImplemented and o is None else r

    def __hash__(self):
        if self.is_const():
            return hash(self.constant())
        return 7

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __repr__(self):
        if self.is_const():
            return f"Sym({float(self.constant())!r})"
        out = []
        at = CUR.atoms if CUR is not None else None
        for m, c in itertools.islice(sorted(self.t.items()), 6):
            s = "*".join(
                (at[k].name if at else f"a{k}") + (f"^{e}" if e != 1 else "") for k, e in m
            )
            out.append(f"{float(c):.6g}" + ("*" + s if s else ""))
        if len(self.t) > 6:
            out.append(f"...{len(self.t)} terms")
        return "Sym(" + " + ".join(out) + ")"

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")


def mk_cmp(d, op):
    """Condition d `op` 0."""
    if d.is_const():
        c = d.constant()
        return {
            "<": c < 0,
            "<=": c <= 0,
            ">": c > 0,
            ">=": c >= 0,
            "==": c == 0,
            "!=": c != 0,
        }[op]
    # single atom to a power with known sign
    if len(d.t) == 1:
        ((m, c),) = d.t.items()
        s = 1 if c > 0 else -1
        ok = True
        for k, e in m:
            a = cur().atoms[k]
            if a.lo is not None and a.lo > 0:
                continue
            if e % 2 == 0 and a.nonzero:
                continue
            if a.hi is not None and a.hi < 0:
                if e % 2:
                    s = -s
                continue
            ok = False
            break
        if ok:
            return {
                "<": s < 0,
                "<=": s < 0,
                ">": s > 0,
                ">=": s > 0,
                "==": False,
                "!=": True,
            }[op]
    # normalise: leading coefficient 1 (keeps branch conditions canonical)
    lead = d.t[min(d.t)]
    if lead != 1:
        if lead < 0:
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[op]
        inv = 1 / lead
        d = Sym({m: c * inv for m, c in d.t.items()})
    return SymBool(("cmp", op, d))


def atom_nonzero(p, mono):
    return all(p.atoms[k].nonzero for k, _ in mono)


def poly_divides(num, den):
    """Exact quotient num/den of polynomials, or None."""
    if len(den.t) > 6 or len(num.t) > 400:
        return None
    if not num.t:
        return num
    lead = max(den.t)
    lc = den.t[lead]
    inv = tuple((k, -e) for k, e in lead)
    q = {}
    rem = num
    for _ in range(200):
        if not rem.t:
            return Sym(q)
        m = max(rem.t)
        c = rem.t[m] / lc
        qm = mono_mul(m, inv)
        if any(e < 0 and not cur().atoms[k].nonzero for k, e in qm):
            return None
        if qm in q:
            return None
        term = Sym({qm: c})
        q[qm] = c
        rem = rem - term * den
    return None


def sym_div(a, b):
    p = cur()
    if b.is_const():
        c = b.constant()
        if c == 0:
            raise SymZeroDivision("division by zero")
        inv = 1 / c
        return Sym({m: k * inv for m, k in a.t.items()})
    z = mk_cmp(b, "==")
    if z is not False and bool(z):
        raise SymZeroDivision("division by zero")
    if len(b.t) == 1:
        ((m, c),) = b.t.items()
        for k, _ in m:
            p.mark_nonzero(k)
        inv = Sym({tuple((k, -e) for k, e in m): 1 / c})
        return a * inv
    # ratio of proportional polynomials
    q = poly_divides(a, b)
    if q is not None:
        return q
    lead = b.t[min(b.t)]
    bn = Sym({m: c / lead for m, c in b.t.items()})
    r = p.fn_atom("inv", (bn,))
    return a * r * Sym.const(1 / lead)


def sym_pow(a, e):
    if isinstance(e, Sym):
        if not e.is_const():
            raise Unsupported("symbolic exponent")
        e = e.constant()
    if hasattr(e, "item"):
        e = e.item()
    if isinstance(e, float) and math.isfinite(e) and e == int(e):
        e = int(e)
    if isinstance(e, Fraction) and e.denominator == 1:
        e = int(e)
    if isinstance(e, int):
        if e < 0:
            return sym_div(Sym.const(1), sym_pow(a, -e))
        if len(a.t) == 1:
            ((m, c),) = a.t.items()
            return Sym({tuple((k, x * e) for k, x in m): c**e}) if e else Sym.const(1)
        r = Sym.const(1)
        for _ in range(e):
            r = r * Sym(a.t)
        if e % 2 == 0:
            if CUR is not None:
                CUR.squares.append(r)
                if e == 2:
                    CUR.sqrts[r.key()] = a
        return r
    f = float(e)
    if f < 0:
        return sym_div(Sym.const(1), sym_pow(a, -f))
    k = round(1 / f)
    if k >= 2 and abs(f - 1.0 / k) < 1e-12:
        return sym_root(a, k)
    raise Unsupported(f"power {e}")


def fsqrt(c):
    """Square root of a positive rational, exact when it is rational, else to 60 digits."""
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    k = 10**60
    return Fraction(math.isqrt(c.numerator * k * k // c.denominator), k)


def sym_floor(x, limit=48):
    """The integer part, one path per value; values of size above the limit are cut."""
    if isinstance(x, Sym) and x.is_const():
        return math.floor(x.constant())
    if not isinstance(x, Sym):
        return math.floor(x)
    k = 0
    if bool(x >= 0):
        while bool(x >= k + 1):
            k += 1
            if k > limit:
                raise PathAbort("integer bound")
        return k
    while bool(x < k):
        k -= 1
        if k < -limit:
            raise PathAbort("integer bound")
    return k


def poly_sqrt(a, limit=8):
    """b with b*b == a up to the rounding of one constant (60 digits), if a has that form."""
    if not 3 <= len(a.t) <= limit * (limit + 1) // 2:
        return None
    names = sorted({k for m in a.t for k, _ in m})

    def order(m):
        d = dict(m)
        return tuple(d.get(k, 0) for k in names)

    def mono(e):
        return tuple((k, n) for k, n in zip(names, e) if n)

    rest = {order(m): c for m, c in a.t.items()}
    top = max(rest)
    lead = rest[top]
    if lead <= 0 or any(n % 2 for n in top):
        return None
    rest = {e: c / lead for e, c in rest.items()}
    half = tuple(n // 2 for n in top)
    root = {half: ONE}
    del rest[top]
    while rest:
        if len(root) >= limit:
            return None
        t = max(rest)
        e = tuple(x - y for x, y in zip(t, half))
        if e >= min(root):
            return None
        c = rest[t] / 2
        for o, k in list(root.items()) + [(e, c / 2)]:
            m = tuple(x + y for x, y in zip(o, e))
            v = rest.get(m, ZERO) - 2 * k * c
            if v:
                rest[m] = v
            else:
                rest.pop(m, None)
        root[e] = c
    f = fsqrt(lead)
    return Sym({mono(e): c * f for e, c in root.items()})


def sym_root(a, k):
    if a.is_const():
        c = a.constant()
        if c < 0:
            raise ValueError("root of a negative number")
        if c in (0, 1):
            return Sym.const(c)
        f = float(c) ** (1.0 / k)
        return Sym.const(f)
    p = cur()
    if k == 2:
        b = p.sqrts.get(a.key())
        if b is not None:
            return abs(b)
        if len(a.t) == 1:
            ((m, c),) = a.t.items()
            if all(n % 2 == 0 for _, n in m) and c > 0:
                f = fsqrt(c)
                return abs(Sym({tuple((j, n // 2) for j, n in m): f}))
        b = poly_sqrt(a)
        if b is not None:
            return abs(b)
    neg = mk_cmp(a, "<")
    known = p.known_nonneg(a)
    if not known and neg is not False:
        # squares met so far, expanded, are nonnegative: tell the linear abstraction
        while p.squares:
            p.solver.add(p.enc(p.squares.pop(), False) >= 0)
    if neg is not False and not known and bool(neg):
        return float("nan")
    return p.fn_atom(f"root{k}", (a,))


# --------------------------------------------------------------------------
# IEEE-754 double precision values (z3 floating-point theory)

F64 = z3.Float64()
RNE = z3.RNE()


class SymF:
    __slots__ = ("e",)
    __array_priority__ = -1000
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, e):
        self.e = e

    @staticmethod
    def lift(x):
        if isinstance(x, SymF):
            return x.e
        if is_num(x):
            return z3.FPVal(float(x), F64)
        return None

    def _arr(self, o):
        return hasattr(o, "__array_ufunc__") and hasattr(o, "ndim") and not is_num(o)

    def _bin(self, o, f, swap=False):
        if self._arr(o):
            return NotImplemented
        b = SymF.lift(o)
        if b is None:
            return NotImplemented
        a = self.e
        if swap:
            a, b = b, a
        return SymF(z3.simplify(f(RNE, a, b)))

    def __add__(self, o):
        return self._bin(o, z3.fpAdd)

    def __radd__(self, o):
        return self._bin(o, z3.fpAdd, True)

    def __sub__(self, o):
        return self._bin(o, z3.fpSub)

    def __rsub__(self, o):
        return self._bin(o, z3.fpSub, True)

    def __mul__(self, o):
        return self._bin(o, z3.fpMul)

    def __rmul__(self, o):
        return self._bin(o, z3.fpMul, True)

    def __truediv__(self, o):
        return self._bin(o, z3.fpDiv)

    def __rtruediv__(self, o):
        return self._bin(o, z3.fpDiv, True)

    def __neg__(self):
        return SymF(z3.fpNeg(self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return SymF(z3.fpAbs(self.e))

    def __pow__(self, k):
        if k == 2:
            return self * self
        raise Unsupported("power of a float")

    def sqrt(self):
        return SymF(z3.fpSqrt(RNE, self.e))

    def _cmp(self, o, f):
        if self._arr(o):
            return NotImplemented
        b = SymF.lift(o)
        if b is None:
            return NotImplemented
        e = z3.simplify(f(self.e, b))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SymBool(("z3", e))

    def __lt__(self, o):
        return self._cmp(o, z3.fpLT)

    def __le__(self, o):
        return self._cmp(o, z3.fpLEQ)

    def __gt__(self, o):
        return self._cmp(o, z3.fpGT)

    def __ge__(self, o):
        return self._cmp(o, z3.fpGEQ)

    def __eq__(self, o):
        return self._cmp(o, z3.fpEQ)

    def __ne__(self, o):
        return self._cmp(o, z3.fpNEQ)

    def __hash__(self):
        return 11

    def __bool__(self):
        return bool(self != 0.0)

    def isnan(self):
        return SymBool(("z3", z3.fpIsNaN(self.e)))

    def isinf(self):
        return SymBool(("z3", z3.fpIsInf(self.e)))

    def isfinite(self):
        return SymBool(("z3", z3.Not(z3.Or(z3.fpIsNaN(self.e), z3.fpIsInf(self.e)))))

    def signbit(self):
        return SymBool(("z3", z3.fpIsNegative(self.e)))

    def item(self):
        return self

    def copy(self):
        return self

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self

    def __float__(self):
        raise Unsupported("float() of a symbolic float")

    __int__ = __index__ = __float__


# --------------------------------------------------------------------------
# booleans


class SymBool:
    __slots__ = ("f",)
    __array_priority__ = -1000

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return cur().decide(self)

    @staticmethod
    def lift(x):
        if isinstance(x, SymBool):
            return x.f
        if isinstance(x, Sym):
            r = x != 0
            return SymBool.lift(r)
        if hasattr(x, "ndim") and getattr(x, "ndim", 1) == 0 and hasattr(x, "item"):
            return SymBool.lift(x.item())
        if isinstance(x, (bool, int)):
            return ("const", bool(x))
        import numpy as np

        if isinstance(x, np.bool_):
            return ("const", bool(x))
        raise Unsupported(f"boolean {x!r}")

    def _arr(self, o):
        return hasattr(o, "__array_ufunc__") and getattr(o, "ndim", 0) > 0

    def __and__(self, o):
        if self._arr(o):
            return NotImplemented
        return band(self, o)

    __rand__ = __and__

    def __or__(self, o):
        if self._arr(o):
            return NotImplemented
        return bor(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        a, b = self, o
        return bor(band(a, bnot(b)), band(bnot(a), b))

    __rxor__ = __xor__

    def __invert__(self):
        return bnot(self)

    def __eq__(self, o):
        return bnot(self ^ (o if isinstance(o, SymBool) else bool(o)))

    def __ne__(self, o):
        return self ^ (o if isinstance(o, SymBool) else bool(o))

    def __hash__(self):
        return 3

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def _num(self):
        return int(bool(self))

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def logical_not(self):
        return bnot(self)

    def __repr__(self):
        return f"SymBool({self.f!r})"


def mkb(f):
    return f[1] if f[0] == "const" else SymBool(f)


def band(*xs):
    fs = []
    for x in xs:
        f = SymBool.lift(x)
        if f[0] == "const":
            if not f[1]:
                return False
        else:
            fs.append(f)
    if not fs:
        return True
    return mkb(fs[0] if len(fs) == 1 else ("and",) + tuple(fs))


def bor(*xs):
    fs = []
    for x in xs:
        f = SymBool.lift(x)
        if f[0] == "const":
            if f[1]:
                return True
        else:
            fs.append(f)
    if not fs:
        return False
    return mkb(fs[0] if len(fs) == 1 else ("or",) + tuple(fs))


NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}


def bnot(x):
    f = SymBool.lift(x)
    if f[0] == "const":
        return not f[1]
    if f[0] == "cmp":
        return SymBool(("cmp", NEG[f[1]], f[2]))
    if f[0] == "not":
        return SymBool(f[1])
    return SymBool(("not", f))


def implies(a, b):
    return bor(bnot(a), b)


# --------------------------------------------------------------------------
# z3 encodings

OPS = {
    "<": lambda a: a < 0,
    "<=": lambda a: a <= 0,
    ">": lambda a: a > 0,
    ">=": lambda a: a >= 0,
    "==": lambda a: a == 0,
    "!=": lambda a: a != 0,
}


def zfrac(c):
    if c.denominator == 1:
        return z3.RealVal(c.numerator)
    return z3.RealVal(f"{c.numerator}/{c.denominator}")


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.decisions = 0
        self.unsat = self.sat = self.unknown = 0
        self.exact = 0
        self.obligations = 0
        self.trivial = 0


class Path:
    """One execution."""

    def __init__(self, ex, prefix):
        self.ex = ex
        self.stats = ex.stats
        self.prefix = prefix
        self.trail = []  # (value, forced)
        self.atoms = []
        self.fmemo = {}
        self.fnear = {}
        self.squares = []
        self.sqrts = {}
        self.conds = []  # formulas assumed (SymBool.f)
        self.solver = z3.SolverFor("QF_LRA") if not ex.fp else z3.Solver()
        self.solver.set("timeout", ex.branch_timeout)
        self.monovars = {}
        self.inputs = {}
        self.ufs = {}  # name -> list of (args tuple of Sym, atom)
        self.known = {}
        self.defs = []  # exact-only axioms (z3) of function atoms
        self.notes = []
        self.fpvars = {}
        self.choices = {}
        self.n_uninit = 0
        self.labels = set()

    # ---- atoms --------------------------------------------------------------
    def new_atom(self, name, kind, args=(), lo=None, hi=None, meta=None):
        a = Atom(len(self.atoms), name, kind, args, lo, hi, meta)
        self.atoms.append(a)
        if lo is not None:
            self.solver.add(a.v >= zfrac(frac(lo)) if not (meta and meta.get("lo_open")) else a.v > zfrac(frac(lo)))
        if hi is not None:
            self.solver.add(a.v <= zfrac(frac(hi)) if not (meta and meta.get("hi_open")) else a.v < zfrac(frac(hi)))
        if meta and meta.get("lo_open") and lo is not None and lo >= 0:
            a.nonzero = True
            if lo == 0:
                a.lo = _Eps  # strictly positive marker
        return a

    def inp_fp(self, name):
        v = self.fpvars.get(name)
        if v is None:
            v = z3.FP(name, F64)
            self.fpvars[name] = v
            self.solver.add(z3.Not(z3.fpIsNaN(v)), z3.Not(z3.fpIsInf(v)))
        return SymF(v)

    def mark_nonzero(self, k):
        self.atoms[k].nonzero = True

    def inp(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        if name in self.inputs:
            return Sym.atom(self.inputs[name])
        a = self.new_atom(name, "in", lo=lo, hi=hi, meta=dict(lo_open=lo_open, hi_open=hi_open))
        self.inputs[name] = a
        return Sym.atom(a)

    def known_nonneg(self, s):
        """Sum of terms each non-negative by construction."""
        for m, c in s.t.items():
            if c < 0:
                return False
            for k, e in m:
                a = self.atoms[k]
                if e % 2 == 0 or (a.lo is not None and a.lo >= 0):
                    continue
                return False
        return True

    def lookup(self, fn, args, key):
        """An application of `fn` to the same arguments, up to rounding of their constants."""
        a = self.fmemo.get(key)
        if a is None:
            near = self.fnear.setdefault((fn,) + tuple(frozenset(x.t) for x in args), [])
            for b in near:
                if all(same_poly(x, y) for x, y in zip(args, b.args)):
                    a = self.fmemo[key] = b
                    break
            else:
                return None, near
        return a, None

    def fn_atom(self, fn, args):
        key = (fn,) + tuple(a.key() for a in args)
        a, near = self.lookup(fn, args, key)
        if a is None:
            lo = None
            nz = False
            if fn == "abs" or fn.startswith("root"):
                lo = 0
            elif fn == "max" and any(self.known_nonneg(x) for x in args):
                lo = 0
            elif fn == "min" and all(self.known_nonneg(x) for x in args):
                lo = 0
            a = self.new_atom(fn, fn, args, lo=lo)
            self.fmemo[key] = a
            near.append(a)
            x = args[0]
            if fn == "abs":
                e = self.enc(x, False)
                self.solver.add(a.v >= e, a.v >= -e, z3.Or(a.v == e, a.v == -e))
            elif fn in ("max", "min"):
                e, e2 = self.enc(x, False), self.enc(args[1], False)
                if fn == "max":
                    self.solver.add(a.v >= e, a.v >= e2)
                else:
                    self.solver.add(a.v <= e, a.v <= e2)
                self.solver.add(z3.Or(a.v == e, a.v == e2))
            elif fn == "inv":
                a.nonzero = True
                self.solver.add(a.v != 0)
                e = self.enc(x, False)
                self.solver.add(z3.Implies(e > 0, a.v > 0), z3.Implies(e < 0, a.v < 0))
                # a*x == 1 over the monomials of the abstraction
                self.solver.add(self.enc(Sym.atom(a) * x, False) == 1)
            elif fn.startswith("root"):
                k = int(fn[4:])
                e = self.enc(x, False)
                self.solver.add(
                    z3.Implies(e >= 1, z3.And(a.v >= 1, a.v <= e)),
                    z3.Implies(z3.And(e > 0, e < 1), z3.And(a.v < 1, a.v >= e, a.v > 0)),
                    z3.Implies(e == 0, a.v == 0),
                    z3.Implies(a.v == 0, e == 0),
                )
        return Sym.atom(a)

    def uf(self, name, args, lo=None, hi=None):
        """Value of the uninterpreted function `name` at args."""
        args = tuple(Sym.of(x) for x in args)
        if any(x is None for x in args):
            raise Unsupported(f"non finite argument of {name}")
        key = ("uf", name) + tuple(a.key() for a in args)
        a, near = self.lookup(("uf", name), args, key)
        if a is None:
            a = self.new_atom(name, "uf", args, lo=lo, hi=hi)
            self.fmemo[key] = a
            near.append(a)
            self.ufs.setdefault(name, []).append(a)
        return Sym.atom(a)

    # ---- encodings ------------------------------------------------------------
    def monovar(self, m):
        if len(m) == 1 and m[0][1] == 1:
            return self.atoms[m[0][0]].v
        v = self.monovars.get(m)
        if v is None:
            v = z3.Real("m!" + "!".join(f"{k}^{e}" for k, e in m))
            self.monovars[m] = v
            lo, hi, strict = self.mono_interval(m)
            ax = []
            if lo is not None:
                ax.append(v > zfrac(lo) if strict and lo == 0 else v >= zfrac(lo))
            if hi is not None:
                ax.append(v < zfrac(hi) if strict and hi == 0 else v <= zfrac(hi))
            if lo is not None and lo >= 0 and 1 < len(m) <= 4:
                self.link(m, v, ax)
            if ax:
                self.solver.add(*ax)
        return v

    def link(self, m, v, ax):
        """A nonnegative monomial against itself without one of its factors (sound linear lemmas)."""
        for k, e in m:
            if e not in (1, -1):
                continue
            alo, ahi, _ = self.atom_interval(k)
            if alo is None or alo < 0:
                continue
            rest = tuple((j, n) for j, n in m if j != k)
            rlo, _, _ = self.mono_interval(rest)
            if rlo is None or rlo < 0:
                continue
            a = self.atoms[k]
            r = self.monovar(rest)
            if a.kind in ("in", "bis"):
                if e == 1:
                    if ahi is not None:
                        ax.append(v <= zfrac(ahi) * r)
                    if alo > 0:
                        ax.append(v >= zfrac(alo) * r)
            if e == 1:
                ax += [z3.Implies(a.v >= 1, v >= r), z3.Implies(a.v <= 1, v <= r)]
            else:
                ax += [z3.Implies(a.v >= 1, v <= r), z3.Implies(z3.And(a.v <= 1, a.v > 0), v >= r)]

    def atom_interval(self, k):
        a = self.atoms[k]
        lo = a.lo
        strict = False
        if lo is _Eps:
            lo, strict = ZERO, True
        elif lo is not None:
            lo = frac(lo)
            if lo == 0 and a.nonzero:
                strict = True
        hi = None if a.hi is None else frac(a.hi)
        return lo, hi, strict

    def mono_interval(self, m):
        """(lo, hi, strict at 0) of a monomial from the atom bounds."""
        lo, hi = ONE, ONE  # interval of product; None = unbounded
        strict = True
        for k, e in m:
            alo, ahi, st = self.atom_interval(k)
            if e < 0:
                if alo is not None and alo >= 0:
                    plo = ZERO if ahi is None else ONE / ahi ** (-e)
                    phi = None if alo == 0 else ONE / alo ** (-e)
                    if plo > 0:
                        st = False
                    else:
                        st = True
                elif e % 2 == 0:
                    plo, phi, st = ZERO, None, True
                else:
                    plo, phi = None, None
            elif e % 2 == 0:
                nz = self.atoms[k].nonzero
                if alo is not None and alo >= 0:
                    plo = alo**e
                elif ahi is not None and ahi <= 0:
                    plo = ahi**e
                else:
                    plo = ZERO
                phi = None if (alo is None or ahi is None) else max(abs(alo), abs(ahi)) ** e
                st = nz
            else:
                plo = None if alo is None else alo**e
                phi = None if ahi is None else ahi**e
            # interval product
            cands_lo = []
            if lo is not None and lo >= 0 and plo is not None and plo >= 0:
                nlo = lo * plo
                nhi = None if hi is None or phi is None else hi * phi
            elif None in (lo, hi, plo, phi):
                nlo = nhi = None
            else:
                c = [lo * plo, lo * phi, hi * plo, hi * phi]
                nlo, nhi = min(c), max(c)
            if not (plo is not None and (plo > 0 or (plo == 0 and st))):
                strict = False
            lo, hi = nlo, nhi
        return lo, hi, strict

    def enc(self, s, exact):
        """z3 term of a Sym."""
        if exact:
            parts = []
            for m, c in s.t.items():
                f = [zfrac(c)] if c != 1 or not m else []
                for k, e in m:
                    v = self.atoms[k].v
                    if e < 0:
                        v = self.invvar(k)
                        e = -e
                    f += [v] * e
                parts.append(f[0] if len(f) == 1 else z3.Product(*f))
            if not parts:
                return z3.RealVal(0)
            return parts[0] if len(parts) == 1 else z3.Sum(*parts)
        parts = []
        for m, c in s.t.items():
            if not m:
                parts.append(zfrac(c))
            else:
                v = self.monovar(m)
                parts.append(v if c == 1 else zfrac(c) * v)
        if not parts:
            return z3.RealVal(0)
        return parts[0] if len(parts) == 1 else z3.Sum(*parts)

    def invvar(self, k):
        a = self.atoms[k]
        v = z3.Real(f"inv_{a.name}!{k}")
        if k not in self.known:
            self.known[k] = v
            self.defs.append(v * a.v == 1)
        return v

    def encb(self, f, exact):
        op = f[0]
        if op == "const":
            return z3.BoolVal(f[1])
        if op == "cmp":
            return OPS[f[1]](self.enc(f[2], exact))
        if op == "and":
            return z3.And(*[self.encb(x, exact) for x in f[1:]])
        if op == "or":
            return z3.Or(*[self.encb(x, exact) for x in f[1:]])
        if op == "not":
            return z3.Not(self.encb(f[1], exact))
        if op == "z3":
            return f[1]
        raise Unsupported(op)

    # ---- deciding ----------------------------------------------------------------
    def _check(self, solver, *assumptions):
        t = time.monotonic()
        r = solver.check(*assumptions)
        self.stats.time += time.monotonic() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r

    def add(self, f):
        self.conds.append(f)
        self.solver.add(self.encb(f, False))

    def decide(self, b):
        f = b.f
        if f[0] == "const":
            return f[1]
        key = _fkey(f)
        if key is not None:
            got = self.fmemo.get(("dec", key))
            if got is not None:
                return got
        i = len(self.trail)
        self.stats.decisions += 1
        if i >= self.ex.max_depth:
            raise PathAbort("depth bound")
        if i < len(self.prefix):
            v = self.prefix[i]
            forced = None
        else:
            self.ex.check_deadline()
            e = self.encb(f, False)
            rt = self._check(self.solver, e)
            if rt == z3.unsat:
                v, forced = False, True
            else:
                rf = self._check(self.solver, z3.Not(e))
                if rf == z3.unsat:
                    v, forced = True, True
                else:
                    v, forced = True, False
            if not forced:
                self.ex.push(self.trail_values() + [not v])
        self.trail.append(v)
        nf = f if v else SymBool.lift(bnot(b))
        self.add(nf)
        if key is not None:
            self.fmemo[("dec", key)] = v
            self.fmemo[("dec", _fkey(SymBool.lift(bnot(b))))] = not v
        return v

    def trail_values(self):
        return list(self.trail)

    def choose(self, name, n):
        """A free choice among n alternatives (all explored)."""
        if name in self.choices:
            return self.choices[name]
        i = len(self.trail)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = 0
            for k in range(n - 1, 0, -1):
                self.ex.push(self.trail_values() + [k])
        self.trail.append(v)
        self.choices[name] = v
        return v

    def uninit(self):
        self.n_uninit += 1
        if self.ex.fp:
            return float("nan")
        return Sym.atom(self.new_atom("uninit", "uninit"))

    def assume(self, cond):
        if isinstance(cond, SymBool):
            self.add(cond.f)
            if self._check(self.solver) == z3.unsat:
                raise PathAbort("assume")
            return
        if not cond:
            raise PathAbort("assume")

    # ---- final queries --------------------------------------------------------------
    def congruence(self):
        ax = []
        for name, lst in self.ufs.items():
            for a, b in itertools.combinations(lst, 2):
                ax.append((a, b))
        return ax

    def exact_assertions(self, extra):
        n0 = len(self.defs)
        out = []
        for f in self.conds:
            out.append(self.encb(f, True))
        for f in extra:
            out.append(self.encb(f, True))
        for a in self.atoms:
            if a.lo is _Eps:
                out.append(a.v > 0)
            elif a.lo is not None:
                out.append(
                    a.v > zfrac(frac(a.lo)) if a.meta and a.meta.get("lo_open") else a.v >= zfrac(frac(a.lo))
                )
            if a.hi is not None:
                out.append(
                    a.v < zfrac(frac(a.hi)) if a.meta and a.meta.get("hi_open") else a.v <= zfrac(frac(a.hi))
                )
            if a.kind == "abs":
                e = self.enc(a.args[0], True)
                out.append(z3.Or(z3.And(e >= 0, a.v == e), z3.And(e < 0, a.v == -e)))
            elif a.kind in ("max", "min"):
                e, e2 = self.enc(a.args[0], True), self.enc(a.args[1], True)
                if a.kind == "max":
                    out += [a.v >= e, a.v >= e2]
                else:
                    out += [a.v <= e, a.v <= e2]
                out.append(z3.Or(a.v == e, a.v == e2))
            elif a.kind == "inv":
                out.append(a.v * self.enc(a.args[0], True) == 1)
            elif a.kind.startswith("root"):
                k = int(a.kind[4:])
                p = a.v
                for _ in range(k - 1):
                    p = p * a.v
                out.append(p == self.enc(a.args[0], True))
        for name, lst in self.ufs.items():
            for a, b in itertools.combinations(lst, 2):
                ds = [x - y for x, y in zip(a.args, b.args)]
                if any(d.is_const() and d.constant() != 0 for d in ds):
                    continue
                eq = [self.enc(d, True) == 0 for d in ds if d.t]
                out.append(z3.Implies(z3.And(*eq) if eq else z3.BoolVal(True), a.v == b.v))
        out += self.defs
        return out

    def refute(self, neg, want_model=True):
        """Is `neg` (SymBool/bool) possible on this path?

        Returns ("unsat", None) / ("sat", model-dict) / ("unknown", candidate-dict or None).
        """
        f = SymBool.lift(neg)
        if f == ("const", False):
            # decided by the canonical forms; still one (trivial) obligation
            return "unsat", None
        e = self.encb(f, False)
        r = self._check(self.solver, e)
        if r == z3.unsat:
            return "unsat", None
        if self.ex.fp:
            if r == z3.sat:
                m = self.solver.model()
                return "sat", self.model_values(m)
            return self.refute_cvc5(e)
        # congruence in the abstraction
        if self.ufs:
            s = z3.SolverFor("QF_LRA")
            s.set("timeout", self.ex.query_timeout)
            s.add(self.solver.assertions())
            s.add(e)
            for name, lst in self.ufs.items():
                for a, b in itertools.combinations(lst, 2):
                    ds = [x - y for x, y in zip(a.args, b.args)]
                    if any(d.is_const() and d.constant() != 0 for d in ds):
                        continue
                    eq = [self.enc(d, False) == 0 for d in ds if d.t]
                    s.add(z3.Implies(z3.And(*eq) if eq else z3.BoolVal(True), a.v == b.v))
            # monomials over congruent atoms
            s.add(self.solver.assertions())
            r = self._check(s)
            if r == z3.unsat:
                return "unsat", None
        self.stats.exact += 1
        asserts = self.exact_assertions([f])
        cand = None
        for mk in (self._nl_nice, self._nl_default, self._nl_qfnra):
            s = mk()
            s.add(asserts)
            if mk == self._nl_nice:
                for a in self.atoms:
                    if a.kind in ("in", "uf"):
                        kk = z3.Int(f"nice!{a.id}")
                        s.add(a.v * 64 == z3.ToReal(kk))
            try:
                r = self._check(s)
            except z3.Z3Exception:
                continue
            if r == z3.unsat and mk != self._nl_nice:
                return "unsat", None
            if r == z3.sat:
                return "sat", self.model_values(s.model())
        # last resort: propose an abstract model for replay
        s = z3.SolverFor("QF_LRA")
        s.set("timeout", self.ex.query_timeout)
        s.add(self.solver.assertions())
        s.add(e)
        if self._check(s) == z3.sat:
            cand = self.model_values(s.model())
        return "unknown", cand

    def abstract_model(self, neg):
        """A model of the linear abstraction (to be tried in a replay)."""
        if self.ex.fp:
            return None
        s = z3.SolverFor("QF_LRA")
        s.set("timeout", 5000)
        s.add(self.solver.assertions())
        s.add(self.encb(SymBool.lift(neg), False))
        s.add(self.solver.assertions())
        if self._check(s) == z3.sat:
            return self.model_values(s.model())
        return None

    def refute_cvc5(self, e):
        """The same floating-point query put to cvc5."""
        s = z3.Solver()
        s.add(self.solver.assertions())
        s.add(e)
        names = sorted(self.fpvars)
        text = "(set-option :produce-models true)\n" + s.to_smt2()
        text = text.replace("(check-sat)", "(check-sat)\n" + "".join(f"(get-value (|{self.fpvars[n]}|))\n" for n in names))
        if "(set-logic" not in text:
            text = "(set-logic QF_FP)\n" + text
        t = time.monotonic()
        try:
            r = subprocess.run(
                ["cvc5", f"--tlimit={self.ex.query_timeout}", "-"],
                input=text,
                capture_output=True,
                text=True,
                timeout=self.ex.query_timeout / 1000 + 10,
            )
            lines = r.stdout.split("\n")
        except (OSError, subprocess.TimeoutExpired):
            lines = [""]
        self.stats.time += time.monotonic() - t
        self.stats.queries += 1
        st = lines[0].strip()
        if st == "unsat":
            self.stats.unsat += 1
            return "unsat", None
        if st != "sat":
            self.stats.unknown += 1
            return "unknown", None
        self.stats.sat += 1
        vals = {}
        for n, m in zip(names, re.findall(r"\(fp #b([01]) #b([01]+) #b([01]+)\)|\(_ ([+-])zero 11 53\)", r.stdout)):
            bits = "".join(m[:3]) if m[1] else ("1" if m[3] == "-" else "0") + "0" * 63
            vals[n] = struct.unpack("<d", struct.pack("<Q", int(bits, 2)))[0]
        return "sat", dict(inputs=vals, ufs={}, choices=dict(self.choices))

    def path_models(self):
        """Models of the path condition alone."""
        out = []
        st, m = self.refute(SymBool(("cmp", "==", Sym({}))) if not self.ex.fp else SymBool(("z3", z3.BoolVal(True))))
        if m is not None:
            out.append(m)
        if not self.ex.fp:
            m = self.abstract_model(SymBool(("cmp", "==", Sym({}))))
            if m is not None:
                out.append(m)
        return st, out

    def _nl_nice(self):
        s = z3.Solver()
        s.set("timeout", min(3000, self.ex.query_timeout))
        return s

    def _nl_default(self):
        s = z3.SolverFor("QF_NRA")
        s.set("timeout", self.ex.query_timeout)
        return s

    def _nl_qfnra(self):
        s = z3.Tactic("qfnra-nlsat").solver()
        s.set("timeout", self.ex.query_timeout)
        return s

    def model_values(self, m):
        if self.ex.fp:
            vals = {}
            for name, v in self.fpvars.items():
                vals[name] = fp_value(m.eval(v, model_completion=True))
            return dict(inputs=vals, ufs={}, choices=dict(self.choices))
        val = {}
        for a in self.atoms:
            val[a.id] = z3num(m.eval(a.v, model_completion=True))
        inputs = {n: val[a.id] for n, a in self.inputs.items()}
        ufs = {}
        for name, lst in self.ufs.items():
            ufs[name] = [
                ([self.evaluate(x, val) for x in a.args], val[a.id]) for a in lst
            ]
        return dict(inputs=inputs, ufs=ufs, choices=dict(self.choices))

    def evaluate(self, s, val):
        tot = 0.0
        for m, c in s.t.items():
            x = float(c)
            for k, e in m:
                if e < 0 and val[k] == 0:
                    return float("nan")
                x *= val[k] ** e
            tot += x
        return tot


class _EpsT:
    """Lower bound marker: strictly greater than 0."""

    def __gt__(self, o):
        return o <= 0

    def __ge__(self, o):
        return o <= 0

    def __lt__(self, o):
        return o > 0

    def __le__(self, o):
        return o > 0

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return 1


_Eps = _EpsT()


def _fkey(f):
    if f[0] == "cmp":
        return (f[1], f[2].key())
    if f[0] in ("and", "or", "not"):
        ks = tuple(_fkey(x) for x in f[1:])
        return None if None in ks else (f[0],) + ks
    if f[0] == "z3":
        return ("z3", f[1].get_id())
    return None


def z3num(v):
    if z3.is_rational_value(v):
        n, d = v.numerator_as_long(), v.denominator_as_long()
        try:
            return n / d
        except OverflowError:
            return float(Fraction(n, d))
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return a.numerator_as_long() / a.denominator_as_long()
    try:
        return float(v.as_fraction())
    except Exception:
        return 0.0


def fp_value(v):
    if z3.is_fp(v):
        if v.isNaN():
            return float("nan")
        if v.isInf():
            return float("-inf") if v.isNegative() else float("inf")
        bv = z3.simplify(z3.fpToIEEEBV(v))
        import struct

        return struct.unpack("<d", struct.pack("<Q", bv.as_long()))[0]
    if z3.is_bv_value(v):
        return v.as_long()
    return z3num(v)


class Explorer:
    def __init__(
        self,
        max_paths=20000,
        max_depth=400,
        deadline=None,
        query_timeout=20000,
        branch_timeout=10000,
        fp=False,
    ):
        self.max_paths, self.max_depth = max_paths, max_depth
        self.query_timeout, self.branch_timeout = query_timeout, branch_timeout
        self.deadline = deadline
        self.fp = fp
        self.stats = Stats()
        self.stack = []
        self.paths = 0
        self.aborted = {}
        self.done = 0

    def push(self, prefix):
        self.stack.append(prefix)

    def check_deadline(self):
        if self.deadline and time.monotonic() > self.deadline:
            raise Inconclusive("time limit")

    def run(self, body):
        """body(path) is executed once per feasible path. Returns list of body results."""
        global CUR
        self.stack = [[]]
        out = []
        while self.stack:
            prefix = self.stack.pop()
            self.paths += 1
            if self.paths > self.max_paths:
                raise Inconclusive(f"more than {self.max_paths} paths")
            self.check_deadline()
            p = Path(self, prefix)
            CUR = p
            try:
                out.append(body(p))
                self.done += 1
            except PathAbort as e:
                self.aborted[e.why] = self.aborted.get(e.why, 0) + 1
            finally:
                CUR = None
        return out
