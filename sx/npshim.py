"""numpy as seen by the code under test during symbolic execution.

Float arrays become object arrays (class SArr) whose elements are `Sym`;
creators, and the few functions numpy cannot do on objects, are replaced.
Everything else is numpy's own object-dtype machinery.
"""
from __future__ import annotations

import builtins
import math as _math
import sys
from fractions import Fraction

import numpy as real_np

from . import core
from .core import Sym, SymBool, Unsupported, band, bnot, bor, is_num

_float = builtins.float
_max = builtins.max


def is_floaty(dtype):
    if dtype is None:
        return True
    if dtype in (_float, sfloat, object):
        return True
    try:
        return real_np.dtype(dtype).kind in "fO"
    except TypeError:
        return False


class _SFloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_float, Sym))

    def __subclasscheck__(cls, c):
        return issubclass(c, (_float, Sym))

    def __call__(cls, x=0.0):
        if isinstance(x, real_np.ndarray):
            if x.size != 1:
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            x = x.reshape(-1)[0]
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return 1.0 if x else 0.0
        if isinstance(x, core.SymF):
            return x
        return _float(x)


class sfloat(metaclass=_SFloatMeta):
    """Stands for `float` and `numpy.float64` in the code under test."""

    fromhex = _float.fromhex


class SArr(real_np.ndarray):
    __array_priority__ = 500

    def astype(self, dtype, *a, **k):
        if is_floaty(dtype):
            return real_np.array(self, dtype=object, subok=False).view(SArr)
        return real_np.ndarray.astype(self.view(real_np.ndarray), dtype, *a, **k)

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        ins = [x.view(real_np.ndarray) if isinstance(x, SArr) else x for x in inputs]
        if out is not None:
            kw["out"] = tuple(
                x.view(real_np.ndarray) if isinstance(x, SArr) else x for x in out
            )
        el = ELEM.get(ufunc.__name__)
        if el is not None and method == "__call__":
            kw.pop("out", None)
            r = elementwise(el, ins, ufunc.__name__ in BOOL_RESULT)
            if out is not None and out[0] is not None:
                out[0][...] = r
                return out[0]
            return wrap(r)
        kw.pop("dtype", None)
        r = getattr(ufunc, method)(*ins, **kw)
        if out is not None and out[0] is not None:
            return out[0]
        return wrap(r)

    @property
    def real(self):
        return self

    def mean(self, *a, **k):
        return wrap(real_np.mean(self.view(real_np.ndarray), *a, **k))

    def std(self, *a, **k):
        raise Unsupported("std")

    def __float__(self):
        return sfloat(self)

    def __deepcopy__(self, memo):
        return self.copy()


def wrap(r):
    if isinstance(r, real_np.ndarray) and r.dtype == object and not isinstance(r, SArr):
        return r.view(SArr)
    if isinstance(r, (tuple, list)) and any(isinstance(x, real_np.ndarray) for x in r):
        return type(r)(wrap(x) for x in r) if type(r) in (tuple, list) else r
    return r


def has_sym(x):
    if isinstance(x, (Sym, SymBool, core.SymF)):
        return True
    if isinstance(x, real_np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


def elementwise(fn, ins, boolean=False):
    arrs = [real_np.asarray(x, dtype=object) if not isinstance(x, real_np.ndarray) else x for x in ins]
    if all(a.ndim == 0 for a in arrs):
        return fn(*[a.item() if isinstance(a, real_np.ndarray) else a for a in arrs])
    r = real_np.frompyfunc(fn, len(arrs), 1)(*arrs)
    if boolean:
        r = real_np.array([bool(v) for v in r.reshape(-1)], dtype=bool).reshape(r.shape)
    return r


def e_sqrt(x):
    if isinstance(x, (Sym, core.SymF)):
        return x.sqrt()
    with real_np.errstate(all="ignore"):
        return _float(real_np.sqrt(_float(x)))


def e_cbrt(x):
    if isinstance(x, Sym):
        return core.sym_root(x, 3)
    return _float(real_np.cbrt(_float(x)))


def e_isnan(x):
    if isinstance(x, Sym):
        return False
    if isinstance(x, core.SymF):
        return x.isnan()
    return _math.isnan(x)


def e_isfinite(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, core.SymF):
        return x.isfinite()
    return _math.isfinite(x)


def e_isinf(x):
    if isinstance(x, Sym):
        return False
    if isinstance(x, core.SymF):
        return x.isinf()
    return _math.isinf(x)


def e_sign(x):
    if isinstance(x, (Sym, core.SymF)):
        if x > 0:
            return 1.0
        if x < 0:
            return -1.0
        if isinstance(x, core.SymF) and x != x:
            return _float("nan")
        return 0.0
    return _float(real_np.sign(x))


def e_signbit(x):
    if isinstance(x, Sym):
        return x < 0
    if isinstance(x, core.SymF):
        return x.signbit()
    return bool(real_np.signbit(x))


def e_abs(x):
    return abs(x)


def e_copysign(a, b):
    return abs(a) if not bool(e_signbit(b)) else -abs(a)


def e_heaviside(a, b):
    if a < 0:
        return 0.0
    return 1.0 if a > 0 else b


def e_hypot(a, b):
    return e_sqrt(a * a + b * b)


def e_rint(x):
    """Nearest integer, ties to even."""
    if not isinstance(x, Sym):
        return _float(real_np.rint(x))
    n = int(_math.floor(x))
    d = x - n
    if d < 0.5:
        return _float(n)
    return _float(n + 1 if d > 0.5 or n % 2 else n)


def _extreme(fn, a, b):
    sa, sb = Sym.of(a) if not isinstance(a, core.SymF) else None, Sym.of(b) if not isinstance(b, core.SymF) else None
    if sa is not None and sb is not None and not (sa.is_const() and sb.is_const()):
        if not (sa - sb).t:
            return a
        return core.cur().fn_atom(fn, tuple(sorted((sa, sb), key=lambda s: s.key())))
    return None


def e_max(a, b):
    r = _extreme("max", a, b)
    if r is not None:
        return r
    return a if a >= b else b


def e_min(a, b):
    r = _extreme("min", a, b)
    if r is not None:
        return r
    return a if a <= b else b


def _e_trans(name):
    f = getattr(real_np, name)

    def g(x):
        if isinstance(x, (Sym, core.SymF)):
            if isinstance(x, Sym) and x.is_const():
                return _float(f(_float(x)))
            raise Unsupported(f"{name} of a symbolic real")
        return _float(f(x))

    return g


def e_power(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return core.sym_pow(Sym.of(a), b)
    return a**b


ELEM = dict(
    sqrt=e_sqrt,
    cbrt=e_cbrt,
    isnan=e_isnan,
    isfinite=e_isfinite,
    isinf=e_isinf,
    sign=e_sign,
    signbit=e_signbit,
    absolute=e_abs,
    fabs=e_abs,
    maximum=e_max,
    minimum=e_min,
    fmax=e_max,
    fmin=e_min,
    copysign=e_copysign,
    heaviside=e_heaviside,
    hypot=e_hypot,
    rint=e_rint,
    power=e_power,
    float_power=e_power,
)
def _e_int(f):
    return lambda x: float(f(x)) if isinstance(x, Sym) else float(f(x)) if _math.isfinite(x) else x


ELEM.update(floor=_e_int(_math.floor), ceil=_e_int(_math.ceil), trunc=_e_int(_math.trunc))
for _n in ("exp", "log", "sin", "cos", "tan", "log10", "log2", "expm1", "log1p", "exp2", "spacing"):
    ELEM[_n] = _e_trans(_n)
BOOL_RESULT = {"isnan", "isfinite", "isinf", "signbit"}


def _ufunc_proxy(name):
    real = getattr(real_np, name)
    el = ELEM[name]
    nin = real.nin

    def f(*args, **kw):
        if any(has_sym(a) for a in args[:nin]):
            args = list(args)
            if len(args) == nin and not any(isinstance(a, real_np.ndarray) and a.ndim for a in args[:nin]) and not any(
                isinstance(a, (list, tuple)) for a in args
            ) and not kw:
                return el(*[a.item() if isinstance(a, real_np.ndarray) else a for a in args])
            args[:nin] = [asarray(a) for a in args[:nin]]
        return real(*args, **kw)

    f.__name__ = name
    f.reduce = lambda *a, **k: wrap(real.reduce(*a, **k))
    f.outer = lambda *a, **k: wrap(real.outer(*a, **k))
    f.accumulate = lambda *a, **k: wrap(real.accumulate(*a, **k))
    return f


# creators ------------------------------------------------------------------


def _native(x):
    """Data with integer or boolean elements only keeps its dtype."""
    try:
        a = real_np.asarray(x)
    except Exception:
        return None
    return a if a.dtype.kind in "iubUS" else None


def array(x, dtype=None, copy=True, ndmin=0, order=None, subok=False, **kw):
    if dtype is not None and not is_floaty(dtype):
        return real_np.array(x, dtype=dtype, copy=copy, ndmin=ndmin, **kw)
    if dtype is None:
        n = _native(x) if not has_sym(x) else None
        if n is not None:
            return real_np.array(n, ndmin=ndmin)
    r = real_np.array(x, dtype=object, ndmin=ndmin)
    if r.size and not isinstance(x, real_np.ndarray):
        # nested 0-d arrays become elements
        for i in real_np.ndindex(r.shape):
            v = r[i]
            if isinstance(v, real_np.ndarray):
                if v.size != 1:
                    raise ValueError("setting an array element with a sequence.")
                r[i] = v.item()
    if dtype is not None:
        for i in real_np.ndindex(r.shape):
            v = r[i]
            if not isinstance(v, (Sym, core.SymF)):
                r[i] = sfloat(v)
    return r.view(SArr)


def asarray(x, dtype=None, order=None, **kw):
    if isinstance(x, SArr) and (dtype is None or is_floaty(dtype)):
        return x
    if isinstance(x, real_np.ndarray) and x.dtype == object and is_floaty(dtype):
        return x.view(SArr)
    return array(x, dtype=dtype)


def ascontiguousarray(x, dtype=None, **kw):
    r = asarray(x, dtype)
    r = real_np.array(r, dtype=r.dtype, copy=False, ndmin=1, order="C", subok=True)
    return wrap(r)


def _shape(s):
    return (int(s),) if not isinstance(s, (tuple, list)) else tuple(int(v) for v in s)


def full(shape, v, dtype=None, **kw):
    if dtype is not None and not is_floaty(dtype):
        return real_np.full(shape, v, dtype=dtype)
    if dtype is None and isinstance(v, (bool, int)):
        return real_np.full(shape, v)
    r = real_np.empty(_shape(shape), dtype=object)
    r[...] = v
    return r.view(SArr)


def zeros(shape, dtype=None, **kw):
    if dtype is not None and not is_floaty(dtype):
        return real_np.zeros(shape, dtype=dtype)
    return full(shape, 0.0)


def ones(shape, dtype=None, **kw):
    if dtype is not None and not is_floaty(dtype):
        return real_np.ones(shape, dtype=dtype)
    return full(shape, 1.0)


def empty(shape, dtype=None, **kw):
    if dtype is not None and not is_floaty(dtype):
        return real_np.zeros(shape, dtype=dtype)
    r = real_np.empty(_shape(shape), dtype=object)
    p = core.CUR
    for i in real_np.ndindex(r.shape):
        r[i] = p.uninit() if p is not None else 0.0
    return r.view(SArr)


def _like(maker):
    def f(x, dtype=None, shape=None, **kw):
        x = real_np.asarray(x)
        if dtype is None and x.dtype.kind in "iub":
            dtype = x.dtype
        return maker(x.shape if shape is None else shape, dtype=dtype)

    return f


def full_like(x, v, dtype=None, **kw):
    return full(real_np.asarray(x).shape, v, dtype)


def copy(x, *a, **k):
    return wrap(real_np.array(x, dtype=object if has_sym(x) else None))


def linspace(a, b, num=50, endpoint=True, **kw):
    div = (num - 1) if endpoint else num
    return array([a + (b - a) * (i / div) if i else a for i in range(num)], dtype=_float)


def arange(*args, **kw):
    if any(has_sym(a) for a in args):
        raise Unsupported("arange with symbolic bounds")
    r = real_np.arange(*args, **{k: v for k, v in kw.items() if k != "dtype" or not is_floaty(v)})
    if r.dtype.kind == "f" or is_floaty(kw.get("dtype", int)):
        return array(r, dtype=_float)
    return r


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not (has_sym(a) or has_sym(b)):
        return real_np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
    return abs(asarray(a) - asarray(b)) <= (atol + rtol * abs(asarray(b)))


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(real_np.all(isclose(a, b, rtol, atol)))


def array_equal(a, b, **kw):
    a, b = asarray(a), asarray(b)
    return a.shape == b.shape and bool(real_np.all(a == b))


def size(x, axis=None):
    return real_np.size(x, axis)


def iscomplexobj(x):
    return False


def isscalar(x):
    return isinstance(x, (Sym, core.SymF)) or real_np.isscalar(x)


def around(x, decimals=0, out=None):
    if out is None and has_sym(x):
        if decimals == 0:
            return _ufunc_proxy("rint")(x)
        raise Unsupported("rounding to decimals of a symbolic value")
    return real_np.round(x, decimals, out=out)


def finfo(t):
    return real_np.finfo(_float if t in (sfloat, object, real_np.dtype(object)) else t)


def fsum(xs):
    return sum(xs, 0.0)


def prod(xs, *, start=1):
    for x in xs:
        start = start * x
    return start


class _Linalg:
    LinAlgError = real_np.linalg.LinAlgError

    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        x = asarray(x)
        if axis is not None:
            raise Unsupported("norm with axis")
        if x.ndim == 1 or ord is None or ord == "fro":
            v = list(x.reshape(-1))
            if ord in (None, 2, "fro"):
                if len(v) == 1:
                    return abs(v[0])
                s = 0.0
                for e in v:
                    s = s + e * e
                return e_sqrt(s)
            if ord == real_np.inf:
                m = abs(v[0])
                for e in v[1:]:
                    m = e_max(m, abs(e))
                return m
            if ord == 1:
                s = 0.0
                for e in v:
                    s = s + abs(e)
                return s
        raise Unsupported(f"norm ord={ord}")

    @staticmethod
    def det(a):
        a = asarray(a)
        n = a.shape[0]
        if n == 1:
            return a[0, 0]
        if n == 2:
            return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
        s = 0.0
        for j in range(n):
            m = real_np.delete(real_np.delete(a.view(real_np.ndarray), 0, 0), j, 1).view(SArr)
            s = s + (1 if j % 2 == 0 else -1) * a[0, j] * _Linalg.det(m)
        return s

    @staticmethod
    def solve(a, b):
        a, b = asarray(a), asarray(b)
        n = a.shape[0]
        if a.shape != (n, n):
            raise real_np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
        d = _Linalg.det(a)
        if d == 0:
            raise real_np.linalg.LinAlgError("Singular matrix")
        if b.ndim == 2:
            return array([_Linalg.solve(a, b[:, j]) for j in range(b.shape[1])]).T
        out = real_np.empty(n, dtype=object)
        for j in range(n):
            m = a.copy()
            m[:, j] = b
            out[j] = _Linalg.det(m) / d
        return out.view(SArr)

    @staticmethod
    def inv(a):
        a = asarray(a)
        n = a.shape[0]
        return _Linalg.solve(a, array(real_np.eye(n)))

    def __getattr__(self, name):
        raise Unsupported(f"numpy.linalg.{name}")


class NpProxy:
    """Replaces the module object `numpy` in the globals of the code under test."""

    def __init__(self):
        self.__dict__["_cache"] = {}

    def __getattr__(self, name):
        c = self._cache
        if name in c:
            return c[name]
        if name in OVERRIDE:
            v = OVERRIDE[name]
        else:
            v = getattr(real_np, name)
            if name in ELEM or (isinstance(v, real_np.ufunc) and v.__name__ in ELEM):
                v = _ufunc_proxy(v.__name__ if isinstance(v, real_np.ufunc) else name)
            elif isinstance(v, type) or not callable(v):
                pass
            else:
                v = _post(v)
        c[name] = v
        return v


def _post(f):
    def g(*a, **k):
        return wrap(f(*a, **k))

    g.__name__ = getattr(f, "__name__", "np_function")
    for at in ("reduce", "outer", "accumulate", "at"):
        if hasattr(f, at):
            setattr(g, at, _post(getattr(f, at)))
    return g


def _size1_bool(x):
    return x


OVERRIDE = dict(
    array=array,
    asarray=asarray,
    asanyarray=asarray,
    asfarray=asarray,
    ascontiguousarray=ascontiguousarray,
    empty=empty,
    zeros=zeros,
    ones=ones,
    full=full,
    empty_like=_like(empty),
    zeros_like=_like(zeros),
    ones_like=_like(ones),
    full_like=full_like,
    copy=copy,
    linspace=linspace,
    arange=arange,
    isclose=isclose,
    allclose=allclose,
    array_equal=array_equal,
    iscomplexobj=iscomplexobj,
    isscalar=isscalar,
    round=around,
    around=around,
    round_=around,
    finfo=finfo,
    linalg=_Linalg(),
    float64=sfloat,
    float_=sfloat,
    double=sfloat,
    errstate=real_np.errstate,
)


class MathProxy:
    def __getattr__(self, name):
        if name in ("sqrt", "fabs", "isnan", "isinf", "isfinite", "cbrt", "copysign"):
            el = ELEM[{"fabs": "absolute"}.get(name, name)]
            real = getattr(_math, name)

            def f(*a):
                return el(*a) if any(has_sym(x) for x in a) else real(*a)

            return f
        if name == "pow":
            return e_power
        if name == "hypot":
            return lambda *x: _math.hypot(*x) if not any(has_sym(v) for v in x) else e_sqrt(sum(v * v for v in x))
        if name in ("fsum", "prod"):
            own, real = {"fsum": fsum, "prod": prod}[name], getattr(_math, name)

            def seq(xs, **k):
                xs = list(xs)
                return own(xs, **k) if any(has_sym(x) for x in xs) else real(xs, **k)

            return seq
        if name in ("floor", "ceil", "trunc"):
            return getattr(_math, name)
        if name == "isclose":

            def close(a, b, *, rel_tol=1e-9, abs_tol=0.0):
                if not (has_sym(a) or has_sym(b)):
                    return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
                d = abs(a - b)
                return bool(bor(d <= abs_tol, d <= rel_tol * abs(a), d <= rel_tol * abs(b)))

            return close
        real = getattr(_math, name)
        if callable(real):

            def g(*a, **k):
                if any(has_sym(x) for x in a):
                    raise Unsupported(f"math.{name} of a symbolic value")
                return real(*a, **k)

            return g
        return real


NP = NpProxy()
MATH = MathProxy()


def _is_abs(p, x):
    if len(x.t) != 1:
        return False
    (m,) = x.t
    return len(m) == 1 and p.atoms[m[0][0]].kind == "abs"


def smax(*a, **k):
    """max: of two magnitudes, as in a scale, one value instead of two paths."""
    if len(a) == 2 and not k and any(isinstance(x, Sym) for x in a):
        x, y = a
        if isinstance(x, Sym) and isinstance(y, Sym) and not x.is_const() and not y.is_const():
            p = core.cur()
            if (_is_abs(p, x) or _is_abs(p, y)) and p.known_nonneg(x) and p.known_nonneg(y):
                return e_max(x, y)
    return _max(*a, **k)


def patch_module(mod, undo=None):
    """Replace numpy, math and float in the globals of a module."""
    g = mod.__dict__
    rev = {}
    for name in list(OVERRIDE) + list(ELEM):
        r = getattr(real_np, name, None)
        if r is not None and callable(r):
            rev[id(r)] = name
    for k, v in list(g.items()):
        if k.startswith("__"):
            continue
        new = None
        if v is real_np:
            new = NP
        elif v is real_np.linalg:
            new = NP.linalg
        elif v is _math:
            new = MATH
        elif getattr(v, "__module__", None) == "math" and callable(v):
            new = getattr(MATH, v.__name__)
        elif v is _float:
            new = sfloat
        elif id(v) in rev and v is not object:
            new = getattr(NP, rev[id(v)])
        elif getattr(v, "__module__", None) == "numpy" and callable(v) and not isinstance(v, type):
            new = _post(v)
        if new is not None:
            if undo is not None:
                undo.append((g, k, v))
            g[k] = new
    if "float" not in g:
        if undo is not None:
            undo.append((g, "float", None))
        g["float"] = sfloat
    if "max" not in g and mod.__name__.startswith("nbkode"):
        if undo is not None:
            undo.append((g, "max", None))
        g["max"] = smax


def patch_package(prefix="nbkode"):
    undo = []
    for name, mod in list(sys.modules.items()):
        if (name == prefix or name.startswith(prefix + ".")) and mod is not None:
            if ".testsuite" in name:
                continue
            patch_module(mod, undo)
    return undo


def unpatch(undo):
    for g, k, v in reversed(undo):
        if v is None:
            g.pop(k, None)
        else:
            g[k] = v
