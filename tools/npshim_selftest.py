"""npshim against numpy: one harness per expression. Copy to checks/c99.py and run ./check C99 --all."""
import numpy as real
from .common import *
BOUNDS="-"; ASSUMPTIONS=[]
V=[[0.5,-1.25,2.0],[3.5,0.75,-0.5],[1.0,2.5,4.0]]
EX="""np.sort(v)
np.sort(v)[::-1]
np.argsort(v)
np.argsort(v, kind="stable")
np.lexsort((v,))
np.searchsorted(np.sort(v), w[0])
np.searchsorted(np.sort(v), w, side="right")
np.flatnonzero(v > 0)
np.nonzero(v > 0)[0]
np.where(v > 0)[0]
np.where(v > w, v, w)
np.count_nonzero(v > 0)
np.argmax(v)
np.argmin(v)
np.argmax(v > 1)
v.argmax()
np.max(v)
np.amax(v)
v.max()
v.min()
np.ptp(v)
np.clip(v, -1.0, 1.0)
np.clip(v, None, 1.0)
v.clip(-1, 1)
np.sum(v)
v.sum()
np.sum(M, axis=0)
np.mean(M, axis=1)
v.mean()
np.average(v)
np.prod(v)
np.cumsum(v)
np.diff(v)
np.dot(v, w)
v.dot(w)
v @ w
M @ v
v @ M
M @ M
np.matmul(M, v)
np.dot(M, v)
np.inner(v, w)
np.vdot(v, w)
np.outer(v, w)
np.einsum("i,ij->j", v, M)
np.einsum("i,i", v, w)
np.tensordot(v, M, axes=1)
np.tensordot(v, w, axes=1)
np.linalg.norm(v)
np.linalg.norm(v, real.inf)
np.linalg.norm(v, 1)
np.linalg.solve(M, v)
np.linalg.inv(M)
np.linalg.det(M)
np.hstack((v, w))
np.vstack((v, w))
np.stack((v, w))
np.stack([v, w], axis=1)
np.column_stack((v, w))
np.concatenate([v, w])
np.concatenate((M, M), axis=1)
np.append(v, 3.0)
np.insert(v, 0, w[0])
np.delete(v, 0)
np.roll(v, 1)
np.roll(M, -1, axis=0)
np.flip(v)
np.copy(v)
v.copy()
np.zeros_like(v) + v
np.empty_like(v) * 0 + v
np.ones_like(v) * v
np.full_like(v, w[0])
np.full((2,), v[0])
np.full(3, v[0])
np.isnan(v)
np.isfinite(v)
np.isinf(v)
np.isclose(v, w)
np.allclose(v, w)
np.array_equal(v, v)
np.array_equiv(v, v)
np.square(v)
np.power(v, 2)
v ** 2
v ** 3
np.hypot(v[0], w[0])
np.sqrt(v * v)
np.sign(v)
np.copysign(v, w)
np.signbit(v)
np.maximum(v, w)
np.minimum(v, w)
np.fmax(v, w)
np.fmin(v, w)
np.maximum.reduce(v)
np.minimum.reduce(v)
np.add.reduce(v)
np.logical_and.reduce(v > -5)
np.reciprocal(v)
np.negative(v)
np.multiply(v, w)
np.divide(v, w)
np.true_divide(v, w)
np.add(v, w)
np.subtract(v, w)
np.abs(v)
np.absolute(v)
np.fabs(v)
np.atleast_1d(v[0])
np.atleast_1d(v)
np.atleast_2d(v)
np.ravel(M)
M.ravel()
M.flatten()
M.reshape(-1)
M.reshape((1, 9))
np.squeeze(M[:1])
np.expand_dims(v, 0)
v[None, :]
v[np.newaxis]
M.T
np.transpose(M)
np.logical_not(v > 0)
~(v > 0)
(v > 0) & (w > 0)
(v > 0) | (w > 0)
np.logical_and(v > 0, w > 0)
np.logical_or(v > 0, w > 0)
np.logical_xor(v > 0, w > 0)
np.any(v > 0)
np.all(v > 0)
(v > 0).any()
(v > 0).all()
any(v > 0)
all(v > 0)
(v > 0).sum()
np.sum(v > 0)
v[v > 0]
v[~(v > 0)]
v[[0, 2]]
np.take(v, [0, 2])
np.compress(v > 0, v)
np.extract(v > 0, v)
np.choose(1, [v, w])
np.select([v > 0], [w], default=0.0)
np.linspace(v[0], w[0], 3)
np.linspace(0.0, 1.0, 3) * v
np.arange(3) * v
np.array([v[0], w[0]])
np.array([v, w])
np.asarray([v, w])
np.asarray(v, dtype=float)
np.array(v, dtype=np.float64)
np.array(v, copy=True)
np.ascontiguousarray(v)
np.asfarray(v)
np.fromiter((x for x in v), dtype=float)
np.fromiter((x for x in v), float, 3)
np.float64(v[0])
float(v[0])
float(v[:1][0])
v[:1].item()
v[0].item()
v.tolist()
list(v)
sum(v)
max(v)
min(v)
sorted(v)
abs(v[0])
max(v[0], w[0])
math.fabs(v[0])
math.sqrt(v[0] * v[0])
math.copysign(v[0], w[0])
math.isnan(v[0])
math.isfinite(v[0])
math.isinf(v[0])
math.fsum(v)
math.prod(v)
math.hypot(v[0], w[0])
math.pow(v[0], 2)
pow(v[0], 2)
v[0] ** 2
v[0] * v[0]
np.nan_to_num(v)
np.eye(3) @ v
np.identity(3) @ v
np.diag(v)
np.diag(M)
np.diagonal(M)
np.trace(M)
np.tril(M)
np.triu(M, 1)
np.cross(v, w)
np.repeat(v, 2)
np.tile(v, 2)
np.split(M, 3)[0]
np.nanmax(v)
np.nansum(v)
np.median(v)
np.unique(v)
np.interp(0.5, np.sort(v), w)
np.polyval([1.0, v[0]], w[0])
np.ediff1d(v)
np.partition(v, 1)[1]
np.array_split(v, 2)[0]
np.broadcast_to(v, (2, 3))
np.nextafter(1.0, 2.0) * v
np.spacing(1.0) * v
np.heaviside(v, 0.5)
np.rint(v)
np.round(v)
np.floor(v)
np.ceil(v)
np.trunc(v)
round(v[0])
int(v[0])
v[0] // 1
v[0] % 1
divmod(v[0], 1)[0]
math.floor(v[0])
np.mod(v, 2.0)
np.floor_divide(v, 2.0)
np.exp2(0.0) * v
np.dot(h * w, M)
np.asarray(v)[0]
np.zeros(3) + v
np.empty(3).size + v
np.zeros((2, 3)) + v
np.sum(v * w)
np.sum([v[0], w[0]])
np.sqrt(np.mean((v) ** 2))
np.linalg.norm(v) / np.sqrt(3)
np.linalg.norm(v) / v.size ** 0.5
np.sum(v ** 2) ** 0.5
np.abs(v).max()
np.max(np.abs(v))
np.amin(np.abs(v))
v.astype(float)
v.astype(np.float64)
v.astype("float64")
v.size
v.shape
v.ndim
len(v)
v.dtype == float
isinstance(v, np.ndarray)
isinstance(v[0], float)
np.isscalar(v[0])
np.ndim(v)
np.shape(v)
np.size(v)
not v[0] < w[0]
v[0] < w[0] < 5
bool(v[0] > 0)
v[0] == v[0]
(v == w).all()
v[0] != w[0]
v[0] > 0 and w[0] > 0
1 if v[0] > 0 else 2
(v[0] > 0) * 2
(v[0] > 0) ^ (w[0] > 0)
bool(v[0] > 0) != bool(w[0] > 0)
int(v[0] > 0)
np.int64(v[0] > 0)
np.sign(v[0]) == np.sign(w[0])
np.sign(v[0]) * np.sign(w[0]) < 0
np.sign(v[0]) - np.sign(w[0])
np.bool_(v[0] > 0)
v[0].real
v.flat[0]
np.array(v[0])[()]
np.array(v[0]).item()
np.array(v[0]) * 2
np.array(v[0]) > 0
bool(np.array(v[0]) > 0)
np.asarray(v[0]).shape
operator.mul(v[0], w[0])
functools.reduce(operator.add, v)
itertools.accumulate(v).__next__()
bisect.bisect_left(sorted(v), w[0])
bisect.bisect(sorted(v), w[0])
np.einsum("ij,j->i", M, v)
np.multiply.outer(v, w)
np.add.accumulate(v)
np.put_along_axis
np.iinfo(int).max
np.finfo(float).eps * v
np.inf > v[0]
-np.inf < v[0]
min(np.inf, v[0])
max(-np.inf, v[0])
np.minimum(v, np.inf)
v[0] + np.float64(1.0)
np.float64(1.0) + v[0]
np.float64(2.0) * v
np.ones(3) * v[0]
np.arange(1, 4) * v[0]
v[0] * np.arange(1, 4)
v * np.ones(3, dtype=int)
3 - v
1 / v
2 * v[0] / 3
-v
+v
abs(v)
np.hstack([v[0], w])
np.r_[v, w]
np.c_[v, w]
np.block([v, w])
np.stack([v[0], w[0]])
np.moveaxis(M, 0, 1)
np.swapaxes(M, 0, 1)
np.rot90(M)
np.fliplr(M)
np.flipud(M)
np.meshgrid(v, w)[0]
np.isin(v, [0.5])
np.linalg.lstsq
np.triu_indices(2)[0]
np.ix_([0], [1])[0]
M[np.ix_([0, 1], [1])]
M[:, 0]
M[..., 0]
M[-1]
M[1:, ::-1]""".split("\n")

def h_ex(ctx, i):
    import math, operator, functools, itertools, bisect
    E=EX[i]
    rv=[real.array(x) for x in V]
    rM=real.array(V)
    env=dict(math=math,operator=operator,functools=functools,itertools=itertools,bisect=bisect,real=real)
    want=eval(E, dict(env,np=real,v=rv[0],w=rv[1],M=rM,h=0.5))
    if ctx.sym:
        from sx import npshim
        import types
        m=types.ModuleType("nbkode_x"); m.__dict__.update(env); m.np=real
        npshim.patch_module(m)
        def S(n,x):
            s=ctx.real(n,x,x+1); ctx.assume(s==x); return s
        v=ctx.array([S(f"v{k}",x) for k,x in enumerate(V[0])]); w=ctx.array([S(f"w{k}",x) for k,x in enumerate(V[1])])
        M=ctx.array([[S(f"m{a}{b}",V[a][b]) for b in range(3)] for a in range(3)])
        exec("def g(v,w,M,h):\n    return "+E, m.__dict__)
        got=m.g(v,w,M,S("h",0.5))
    else:
        got=want
    if callable(want): return
    a=real.asarray(got,dtype=object); b=real.asarray(want)
    ctx.check(a.shape==b.shape, f"shape {a.shape} {b.shape}")
    for x,y in zip(a.ravel(), b.ravel()):
        if b.dtype==bool: ctx.check(ctx.true(x)==bool(y), f"value {x} {y}")
        else: ctx.close(x,float(y),f"value")
    ctx.reach("done")
def tasks(tier):
    return [Task(f"{i}:{e}",h_ex,dict(i=i),need=[]) for i,e in enumerate(EX)]
