"""Stand-ins for numpy / scipy names used by the code under test.

Everything not listed falls back to real numpy on plain object arrays whose
elements are symbolic reals, with the result lifted again."""
import builtins
import math
import types
from fractions import Fraction

import numpy as np

from . import sym as S
from . import poly as P
from .sym import (Sym, SBool, SArr, lift, lift_arr, mkarr, plain, wrap,
                  Unsupported, objarray, conc_mask, sand, sor, NUM, R)


# ---- type stand-ins ---------------------------------------------------------
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, np.floating, Sym)) and \
            not isinstance(x, (bool, np.bool_))

    def __subclasscheck__(cls, c):
        return issubclass(c, (builtins.float, Sym))

    def __call__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, np.ndarray):
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted')
            return lift(plain(x).ravel()[0])
        v = builtins.float(x)
        return lift(v)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class s_float(metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __call__(cls, x=0, *a):
        if isinstance(x, Sym):
            return S.CTX.concretize_int(x.trunc())
        if isinstance(x, SArr):
            return cls(x.item())
        return builtins.int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class s_int(metaclass=_IntMeta):
    pass


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, type)

    def __call__(cls, *a, **k):
        if len(a) != 1:
            return type(*a, **k)
        x = a[0]
        if isinstance(x, SArr):
            return np.ndarray
        t = type(x)
        if t is Sym or t is builtins.float:
            return s_float
        if t is builtins.int:
            return s_int
        if t is SBool:
            return bool
        return t


class s_type(metaclass=_TypeMeta):
    pass


class _NpFloatMeta(_FloatMeta):
    def __instancecheck__(cls, x):
        return isinstance(x, (np.floating, Sym))


class np_floating(metaclass=_NpFloatMeta):
    pass


def is_float_type(t):
    if t is s_float or t is np_floating or t is builtins.float:
        return True
    try:
        return np.dtype(t).kind == 'f'
    except TypeError:
        return False


def real_type(t):
    """shim type -> real numpy dtype"""
    if t is s_float or t is np_floating:
        return builtins.float
    if t is s_int:
        return builtins.int
    return t


def cast_scalar(x, t):
    if is_float_type(t):
        return lift(x)
    k = np.dtype(real_type(t)).kind
    if k in 'iu':
        return s_int(x)
    if k == 'b':
        return bool(x != 0)
    return x


def cast_array(a, t):
    if is_float_type(t) or t in (object, 'O') or t == object:
        return mkarr(a)
    k = np.dtype(real_type(t)).kind
    p = plain(a)
    if k in 'iu':
        return np.array([s_int(v) for v in p.ravel()],
                        dtype=int).reshape(p.shape)
    if k == 'b':
        return np.array([bool(v if isinstance(v, (bool, SBool)) else v != 0)
                         for v in p.ravel()], dtype=bool).reshape(p.shape)
    if k == 'c':
        return a
    raise Unsupported('cast to %s' % t)


# ---- reductions ---------------------------------------------------------------
def _bools(a):
    return [S._b(v) if not isinstance(v, (bool, np.bool_, SBool)) else v
            for v in plain(a).ravel()]


def s_all(a, axis=None, keepdims=False, **k):
    if isinstance(a, (Sym, SBool, bool, np.bool_)):
        return sand([S._b(a)])
    a = plain(objarray(a))
    if a.dtype != object:
        return np.all(a, axis=axis, keepdims=keepdims)
    if axis is None:
        return sand(_bools(a))
    m = np.moveaxis(a, axis, -1)
    out = np.empty(m.shape[:-1], object)
    for i in np.ndindex(*m.shape[:-1]):
        out[i] = sand(_bools(m[i]))
    return S.norm_bool(out.view(SArr)) if out.ndim else out.item()


def s_any(a, axis=None, keepdims=False, **k):
    if isinstance(a, (Sym, SBool, bool, np.bool_)):
        return sor([S._b(a)])
    a = plain(objarray(a))
    if a.dtype != object:
        return np.any(a, axis=axis, keepdims=keepdims)
    if axis is None:
        return sor(_bools(a))
    m = np.moveaxis(a, axis, -1)
    out = np.empty(m.shape[:-1], object)
    for i in np.ndindex(*m.shape[:-1]):
        out[i] = sor(_bools(m[i]))
    return S.norm_bool(out.view(SArr)) if out.ndim else out.item()


# ---- creation ------------------------------------------------------------------
def _shape(s):
    if isinstance(s, (int, np.integer)):
        return (builtins.int(s),)
    if isinstance(s, Sym):
        return (s.__index__(),)
    return tuple(x.__index__() for x in s)


def _filled(shape, v):
    a = np.empty(_shape(shape), object)
    a[...] = None
    pv = plain(v) if not isinstance(v, builtins.float) else v
    a[...] = pv
    return a.view(SArr) if a.ndim else lift(v)


def _isint_dtype(dtype):
    if dtype is None:
        return False
    if is_float_type(dtype) or dtype is object:
        return False
    return np.dtype(real_type(dtype)).kind in 'iub'


def zeros(shape, dtype=None, order='C', **k):
    if _isint_dtype(dtype):
        return np.zeros(_shape(shape), real_type(dtype))
    return _filled(shape, lift(0))


def ones(shape, dtype=None, order='C', **k):
    if _isint_dtype(dtype):
        return np.ones(_shape(shape), real_type(dtype))
    return _filled(shape, lift(1))


def empty(shape, dtype=None, order='C', **k):
    if _isint_dtype(dtype):
        return np.zeros(_shape(shape), real_type(dtype))
    if dtype in (object,):
        return np.empty(_shape(shape), object)
    return _filled(shape, lift(0))


def full(shape, fill_value, dtype=None, **k):
    if _isint_dtype(dtype) or (dtype is None and isinstance(
            fill_value, (bool, builtins.int, np.integer, np.bool_))):
        return np.full(_shape(shape), fill_value, real_type(dtype)
                       if dtype is not None else None)
    if isinstance(fill_value, str) or fill_value is None:
        return np.full(_shape(shape), fill_value, dtype)
    if isinstance(fill_value, (np.ndarray, list, tuple)):
        a = np.empty(_shape(shape), object)
        a[...] = plain(mkarr(fill_value))
        return a.view(SArr)
    return _filled(shape, lift(fill_value))


def _like(f):
    def g(a, *args, dtype=None, shape=None, **k):
        sh = np.shape(plain(a)) if shape is None else shape
        if dtype is None and isinstance(a, np.ndarray) and \
                a.dtype.kind in 'iub':
            dtype = a.dtype
        if dtype is None and isinstance(a, (builtins.int, np.integer)):
            dtype = builtins.int
        if dtype is None and isinstance(a, (list, tuple)):
            b = objarray(a)
            if b.dtype.kind in 'iub':
                dtype = b.dtype
        return f(sh, *args, dtype=dtype)
    return g


zeros_like, ones_like, empty_like, full_like = map(
    _like, (zeros, ones, empty, full))


def eye(N, M=None, k=0, dtype=None, **kw):
    return mkarr(np.eye(N.__index__(), M, k)) if not _isint_dtype(dtype) \
        else np.eye(N, M, k, real_type(dtype))


def array(x, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(x, np.ndarray):
        a = x
        if isinstance(x, SArr):
            a = x.copy() if copy else x
        else:
            a = np.array(x)
    else:
        if isinstance(x, (Sym, SBool)):
            a = np.empty((), object)
            a[()] = x
        elif isinstance(x, (map, filter, zip, types.GeneratorType)):
            a = np.array(x, dtype=object)
        else:
            a = objarray(x)
            if isinstance(a, np.ndarray) and a.size == 0 and \
                    a.dtype.kind == 'f':
                pass
    if a.dtype.kind == 'O' and a.size and not isinstance(a, SArr):
        first = a.ravel()[0]
        if not isinstance(first, (Sym, SBool) + NUM):
            return a
    if dtype is not None and not (dtype is object):
        if is_float_type(dtype):
            a = mkarr(a)
        else:
            a = cast_array(a.view(SArr), dtype) if a.dtype == object \
                else a.astype(real_type(dtype))
    else:
        a = lift_arr(a)
        if a.dtype == object and a.size and not isinstance(a, SArr):
            pass
    a = S.norm_bool(a) if isinstance(a, SArr) else a
    while a.ndim < ndmin:
        a = a[np.newaxis]
    return a


def asarray(x, dtype=None, **k):
    return array(x, dtype=dtype, copy=False)


def atleast_1d(*xs):
    out = []
    for x in xs:
        a = asarray(x)
        out.append(a.reshape(1) if a.ndim == 0 else a)
    return out[0] if len(out) == 1 else tuple(out)


def atleast_2d(*xs):
    out = []
    for x in xs:
        a = asarray(x)
        if a.ndim == 0:
            a = a.reshape(1, 1)
        elif a.ndim == 1:
            a = a[np.newaxis, :]
        out.append(a)
    return out[0] if len(out) == 1 else tuple(out)


def arange(*a, dtype=None, **k):
    if builtins.all(isinstance(x, (builtins.int, np.integer)) for x in a):
        r = np.arange(*a)
        return r if dtype is None or not is_float_type(dtype) else mkarr(r)
    if len(a) == 1:
        start, stop, step = lift(0), lift(a[0]), lift(1)
    elif len(a) == 2:
        start, stop, step = lift(a[0]), lift(a[1]), lift(1)
    else:
        start, stop, step = map(lift, a)
    n = s_int(((stop - start) / step).ceil())
    return mkarr([start + step * i for i in range(max(n, 0))])


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None,
             axis=0):
    num = num.__index__()
    d = (num - 1) if endpoint else num
    start = mkarr(start) if isinstance(start, (np.ndarray, list, tuple)) \
        else lift(start)
    stop = mkarr(stop) if isinstance(stop, (np.ndarray, list, tuple)) \
        else lift(stop)
    if d == 0:
        v = [start]
        step = math.nan
    else:
        step = (stop - start) / lift(d)
        v = [start + step * lift(i) for i in range(num)]
    r = mkarr(v) if isinstance(start, Sym) and isinstance(stop, Sym) \
        else wrap(np.stack([plain(x) for x in v], axis=axis))
    return (r, step) if retstep else r


def where(c, *xy):
    if not xy:
        return np.where(conc_mask(c))
    x, y = xy
    cm = conc_mask(c)
    a, b = [v if isinstance(v, np.ndarray) else np.asarray(plain(v))
            for v in (x, y)]
    if a.dtype.kind in 'iub' and b.dtype.kind in 'iub':
        return np.where(cm, a, b)
    a, b = mkarr(a), mkarr(b)
    return wrap(np.where(cm, plain(a), plain(b)))


def isscalar(x):
    return isinstance(x, (Sym, SBool)) or np.isscalar(x)


def isclose(a, b, rtol=Fraction(1, 100000), atol=Fraction(1, 10 ** 8),
            equal_nan=False):
    rtol, atol = lift(rtol), lift(atol)
    a = mkarr(a) if not isinstance(a, Sym) else a
    b = mkarr(b) if not isinstance(b, Sym) else b
    return np.less_equal(np.absolute(a - b), atol + rtol * np.absolute(b))


def allclose(a, b, rtol=Fraction(1, 100000), atol=Fraction(1, 10 ** 8),
             equal_nan=False):
    return bool(s_all(isclose(a, b, rtol, atol)))


def array_equal(a, b, **k):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    return bool(s_all(a == b))


def s_sum(a, axis=None, **k):
    if isinstance(a, types.GeneratorType):
        return builtins.sum(a)
    a = asarray(a)
    if isinstance(a, SArr):
        return a.sum(axis=axis, **k)
    return np.sum(a, axis=axis, **k)


def s_mean(a, axis=None, **k):
    a = mkarr(a)
    return a.mean(axis=axis, **k)


def average(a, axis=None, weights=None, **k):
    a = mkarr(a)
    if weights is None:
        return a.mean(axis=axis)
    w = mkarr(weights)
    if axis is not None and w.ndim == 1:
        sh = [1] * a.ndim
        sh[axis] = -1
        w = w.reshape(sh)
    return (a * w).sum(axis=axis) / (w * ones_like(a)).sum(axis=axis)


def s_max(a, axis=None, **k):
    a = asarray(a)
    return a.max(axis=axis) if isinstance(a, SArr) else np.max(a, axis=axis)


def s_min(a, axis=None, **k):
    a = asarray(a)
    return a.min(axis=axis) if isinstance(a, SArr) else np.min(a, axis=axis)


def _mm(name):
    def g(a, axis=None, **k):
        a = asarray(a)
        if not isinstance(a, SArr):
            return getattr(np, name)(a, axis=axis)
        p = plain(a)
        if axis is None:
            p = p.ravel()
            axis = 0
        m = np.moveaxis(p, axis, -1)
        out = np.empty(m.shape[:-1], builtins.int)
        for i in np.ndindex(*m.shape[:-1]):
            row = list(m[i])
            best = 0
            for j in range(1, len(row)):
                if bool(S._b(row[j] < row[best] if name == 'argmin'
                             else _gt(row[j], row[best]))):
                    best = j
            out[i] = best
        return out if out.ndim else builtins.int(out)
    return g


def _gt(a, b):
    if isinstance(a, (SBool, bool, np.bool_)):
        return bool(a) and not bool(b)
    return a > b


def argsort(a, axis=-1, **k):
    a = asarray(a)
    if not isinstance(a, SArr) or a.ndim != 1:
        return np.argsort(plain(a), axis=axis, kind='stable')
    import functools
    v = list(plain(a))

    def cmp(i, j):
        if v[i] < v[j]:
            return -1
        if v[j] < v[i]:
            return 1
        return 0
    return np.array(sorted(range(len(v)), key=functools.cmp_to_key(cmp)),
                    dtype=builtins.int)


def s_sort(a, axis=-1, **k):
    a = asarray(a)
    if not isinstance(a, SArr):
        return np.sort(a, axis=axis)
    return a[argsort(a)]


def unique(a, return_index=False, return_inverse=False, return_counts=False,
           axis=None, **k):
    a = asarray(a)
    if not isinstance(a, SArr):
        return np.unique(a, return_index=return_index,
                         return_inverse=return_inverse,
                         return_counts=return_counts, axis=axis)
    if axis is not None:
        raise Unsupported('unique axis')
    f = a.ravel()
    o = argsort(f)
    vals, first, cnt = [], [], []
    inv = np.zeros(len(f), dtype=builtins.int)
    for i in o:
        if vals and bool(f[i] == vals[-1]):
            cnt[-1] += 1
        else:
            vals.append(f[i])
            first.append(i)
            cnt.append(1)
        inv[i] = len(vals) - 1
    out = [mkarr(vals)]
    if return_index:
        out.append(np.array(first))
    if return_inverse:
        out.append(inv)
    if return_counts:
        out.append(np.array(cnt))
    return out[0] if len(out) == 1 else tuple(out)


def digitize(x, bins, right=False):
    xs = asarray(x)
    b = list(asarray(bins))
    out = np.zeros(np.shape(xs), builtins.int)
    for i in np.ndindex(*np.shape(xs)):
        n = 0
        for v in b:
            if bool((xs[i] > v) if right else (xs[i] >= v)):
                n += 1
        out[i] = n
    return out


def searchsorted(a, v, side='left', sorter=None):
    a = list(asarray(a))
    vs = asarray(v)
    out = np.zeros(np.shape(vs), builtins.int)
    for i in np.ndindex(*np.shape(vs)):
        n = 0
        for x in a:
            if bool((x < vs[i]) if side == 'left' else (x <= vs[i])):
                n += 1
        out[i] = n
    return out if out.ndim else builtins.int(out)


def interp(x, xp, fp, left=None, right=None, **k):
    fp = asarray(fp)
    f = interp1d(xp, fp, assume_sorted=True, bounds_error=False, fill_value=(
        fp[0] if left is None else left, fp[-1] if right is None else right))
    return f(x)


def count_nonzero(a, axis=None, **k):
    return np.count_nonzero(conc_mask(asarray(a)) if isinstance(a, SArr)
                            else a, axis=axis)


def nonzero(a):
    a = asarray(a)
    if isinstance(a, SArr):
        a = conc_mask(np.not_equal(a, 0)) if not _isboolarr(a) \
            else conc_mask(a)
    return np.nonzero(a)


def _isboolarr(a):
    return a.size and isinstance(plain(a).ravel()[0], (SBool, bool))


def cumsum(a, axis=None, **k):
    a = asarray(a)
    if not isinstance(a, SArr):
        return np.cumsum(a, axis=axis)
    p = plain(a)
    if axis is None:
        p = p.ravel()
        axis = 0
    return wrap(np.add.accumulate(p, axis=axis))


def cumprod(a, axis=None, **k):
    a = asarray(a)
    p = plain(a)
    if axis is None:
        p = p.ravel()
        axis = 0
    return wrap(np.multiply.accumulate(p, axis=axis))


def prod(a, axis=None, **k):
    a = asarray(a)
    return wrap(np.multiply.reduce(plain(a), axis=axis))


def einsum(spec, *ops, **k):
    ops = [plain(asarray(o)) for o in ops]
    if all_int(ops):
        return np.einsum(spec, *ops)
    return wrap(_einsum(spec, *ops))


def all_int(ops):
    return builtins.all(o.dtype.kind in 'iub' for o in ops)


def _einsum(spec, *ops):
    spec = spec.replace(' ', '')
    if '->' in spec:
        lhs, out = spec.split('->')
    else:
        lhs = spec
        out = None
    ins = lhs.split(',')
    # expand ellipsis
    letters = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
    ell = 0
    for s, o in zip(ins, ops):
        if '...' in s:
            ell = max(ell, o.ndim - (len(s) - 3))
    ex = []
    for s, o in zip(ins, ops):
        if '...' in s:
            n = o.ndim - (len(s) - 3)
            s = s.replace('...', letters[ell - n:ell])
        ex.append(s)
    if out is None:
        cnt = {}
        for s in ex:
            for c in s:
                cnt[c] = cnt.get(c, 0) + 1
        out = letters[:ell] + ''.join(
            sorted(c for c in cnt if cnt[c] == 1 and c not in letters[:ell]))
    else:
        out = out.replace('...', letters[:ell])
    dims = {}
    for s, o in zip(ex, ops):
        for c, n in zip(s, o.shape):
            if dims.get(c, 1) == 1:
                dims[c] = n
    inner = [c for c in dims if c not in out]
    res = np.empty([dims[c] for c in out], object)
    for oi in np.ndindex(*res.shape):
        env = dict(zip(out, oi))
        tot = lift(0)
        for ii in np.ndindex(*[dims[c] for c in inner]):
            env.update(zip(inner, ii))
            t = lift(1)
            for s, o in zip(ex, ops):
                v = o[tuple(env[c] if o.shape[j] != 1 else 0
                            for j, c in enumerate(s))]
                t = t * v
            tot = tot + t
        res[oi] = tot
    return res


def vectorize(f, *a, **k):
    def g(*xs):
        if builtins.all(isinstance(x, Sym) or np.ndim(plain(x)) == 0
                        for x in xs):
            return f(*xs)
        bs = np.broadcast_arrays(*[plain(asarray(x)) for x in xs])
        out = np.empty(bs[0].shape, object)
        for i in np.ndindex(*bs[0].shape):
            out[i] = f(*[b[i] for b in bs])
        return wrap(out)
    return g


# ---- linear algebra --------------------------------------------------------------
def _pivot_score(r):
    return (len(r.num) + 3 * len(r.den), )


def solve(A, b):
    A = plain(mkarr(A))
    b0 = mkarr(b)
    b = plain(b0)
    if A.ndim == 3:
        res = [solve(A[i], b[i] if b.ndim == 3 else b)
               for i in range(A.shape[0])]
        return wrap(np.stack([plain(x) for x in res]))
    vec = b.ndim == 1
    n = A.shape[0]
    if A.ndim != 2 or A.shape[1] != n or b.shape[0] != n:
        raise np.linalg.LinAlgError('bad shapes for solve')
    M = [[A[i, j].r for j in range(n)] for i in range(n)]
    B = [[(b[i] if vec else b[i, j]).r
          for j in range(1 if vec else b.shape[1])] for i in range(n)]
    m = len(B[0]) if n else 0
    hook = SOLVE_HOOK[0]
    if hook is not None:
        X = hook(M, B)
        if X is not None:
            out = np.empty((n, m), object)
            for i in range(n):
                for j in range(m):
                    out[i, j] = Sym(X[i][j])
            return wrap(out[:, 0] if vec else out)
    rows = list(range(n))
    for k in range(n):
        best = None
        for i in range(k, n):
            if M[i][k].is_zero():
                continue
            s = _pivot_score(M[i][k])
            # prefer simple pivots and sparse rows
            s = (s[0], builtins.sum(0 if x.is_zero() else 1 for x in M[i]))
            if best is None or s < best[0]:
                best = (s, i)
        if best is None:
            raise np.linalg.LinAlgError('Singular matrix')
        p = best[1]
        if p != k:
            M[k], M[p] = M[p], M[k]
            B[k], B[p] = B[p], B[k]
        S.CTX.note_div(M[k][k])
        for i in range(k + 1, n):
            if M[i][k].is_zero():
                continue
            f = M[i][k] / M[k][k]
            for j in range(k + 1, n):
                if not M[k][j].is_zero():
                    M[i][j] = M[i][j] - f * M[k][j]
            M[i][k] = R({})
            for j in range(m):
                if not B[k][j].is_zero():
                    B[i][j] = B[i][j] - f * B[k][j]
    X = [[None] * m for _ in range(n)]
    for k in range(n - 1, -1, -1):
        for j in range(m):
            v = B[k][j]
            for l in range(k + 1, n):
                if not M[k][l].is_zero() and not X[l][j].is_zero():
                    v = v - M[k][l] * X[l][j]
            X[k][j] = v / M[k][k] if not v.is_zero() else v
    out = np.empty((n, m), object)
    for i in range(n):
        for j in range(m):
            out[i, j] = Sym(X[i][j])
    return wrap(out[:, 0] if vec else out)


SOLVE_HOOK = [None]
EIG_HOOK = [None]


def inv(A):
    n = np.shape(plain(A))[-1]
    return solve(A, eye(n))


def det(A):
    A = plain(mkarr(A))
    n = A.shape[0]
    if n == 1:
        return A[0, 0]
    tot = lift(0)
    for j in range(n):
        minor = np.delete(np.delete(A, 0, 0), j, 1)
        t = A[0, j] * det(minor)
        tot = tot + t if j % 2 == 0 else tot - t
    return tot


def norm(x, ord=None, axis=None, keepdims=False):
    a = mkarr(x)
    if ord not in (None, 2):
        raise Unsupported('norm ord')
    s = (a * a).sum(axis=axis)
    return np.sqrt(s) if isinstance(s, np.ndarray) else S.ssqrt(s)


def eig(A):
    if EIG_HOOK[0] is not None:
        return EIG_HOOK[0](A)
    A = plain(mkarr(A))
    n = A.shape[0]
    if builtins.all(v.r.is_const() for v in A.ravel()):
        w, v = np.linalg.eig(A.astype(builtins.float))
        if np.iscomplexobj(w):
            raise Unsupported('complex eigenvalues')
        return mkarr(w), mkarr(v)
    if n == 2:
        a, b, c, d = A[0, 0], A[0, 1], A[1, 0], A[1, 1]
        if b.r.is_zero() and c.r.is_zero():
            return mkarr([a, d]), mkarr([[1, 0], [0, 1]])
        tr = a + d
        disc = S.ssqrt((a - d) * (a - d) + b * c * 4)
        l1, l2 = (tr + disc) / 2, (tr - disc) / 2
        if not b.r.is_zero():
            return mkarr([l1, l2]), mkarr([[b, b], [l1 - a, l2 - a]])
        return mkarr([l1, l2]), mkarr([[l1 - d, l2 - d], [c, c]])
    raise Unsupported('eigenvalues of a %dx%d symbolic matrix' % (n, n))


class _Linalg:
    LinAlgError = np.linalg.LinAlgError
    solve = staticmethod(solve)
    inv = staticmethod(inv)
    det = staticmethod(det)
    norm = staticmethod(norm)
    eig = staticmethod(eig)
    multi_dot = staticmethod(lambda ms, **k: multi_dot(ms))
    matrix_power = staticmethod(lambda M, n: matrix_power(M, n))
    lstsq = staticmethod(lambda *a, **k: lstsq(*a, **k))
    pinv = staticmethod(inv)

    def __getattr__(self, n):
        raise Unsupported('np.linalg.%s' % n)


# ---- scipy ------------------------------------------------------------------------
def block_diag(*arrs):
    arrs = [atleast_2d(a) for a in arrs]
    sh = np.array([a.shape for a in arrs])
    out = zeros((builtins.int(sh[:, 0].sum()), builtins.int(sh[:, 1].sum())))
    r = c = 0
    for a in arrs:
        out[r:r + a.shape[0], c:c + a.shape[1]] = a
        r += a.shape[0]
        c += a.shape[1]
    return out


INTVAR = 's#'


def _int_of(expr, a, b, svar, sidx):
    """integral of expr d s from a to b as a combination of integral atoms"""
    e = lift(expr)
    if isinstance(e, float):
        raise Unsupported('non-finite integrand')
    r = e.r
    deps = set()
    for i in r.atoms():
        if i == sidx or sidx in S.T.atoms[i].deps:
            deps.add(i)
    sden, cden = [], []
    for f, ex in r.den:
        at = P.patoms(S.T.factors[f])
        (sden if at & deps else cden).append((f, ex))
    out = R({})
    groups = {}
    for m, c in r.num.items():
        sm = tuple((i, x) for i, x in m if i in deps)
        cm = tuple((i, x) for i, x in m if i not in deps)
        groups.setdefault(sm, {})
        groups[sm][cm] = groups[sm].get(cm, 0) + c
    for sm, cp in groups.items():
        coef = R({m: c for m, c in cp.items() if c}, tuple(cden))
        kern = R({sm: 1}, tuple(sden))
        for lim, sg in ((a, 1), (b, -1)):
            if isinstance(lim, builtins.float):
                if lim == math.inf:
                    continue
                raise Unsupported('integration bound')
            j = _tail_integral(kern, lift(lim), sidx)
            out = out + coef * j * R.const(sg)
    return Sym(out)


def _tail_integral(kern, lim, sidx):
    at, new = S.new_atom(('int', kern.key(), lim.r.key()),
                         'int%d' % len(S.T.atoms), 'int', (kern, lim.r))
    if new:
        at.deps = frozenset(d for d in at.deps if d != sidx)

        def evf(env, kern=kern, lim=lim, sidx=sidx):
            from scipy.integrate import quad as q
            base = {k: v for k, v in env.items()
                    if k != sidx and sidx not in S.T.atoms[k].deps}

            def f(s):
                e2 = dict(base)
                e2[sidx] = s
                return S.ev(kern, e2)
            return q(f, S.ev(lim.r, dict(env)), np.inf, limit=200)[0]
        at.ev = evf
    return R.atom(at.idx)


def _svar():
    at, new = S.new_atom(('intvar',), 's_int', 'var', pos=True)
    if new:
        at.axioms = [at.z > 0]
    return Sym(R.atom(at.idx)), at.idx


def quad(f, a, b, args=(), **k):
    s, i = _svar()
    v = f(s, *args)
    if isinstance(v, np.ndarray):
        v = v.item()
    return (_int_of(v, a, b, s, i), lift(0))


def quad_vec(f, a, b, **k):
    s, i = _svar()
    v = f(s, *k.get('args', ()))
    if isinstance(v, np.ndarray):
        out = np.empty(v.shape, object)
        for ix in np.ndindex(*v.shape):
            out[ix] = _int_of(plain(v)[ix], a, b, s, i)
        return (wrap(out), lift(0))
    return (_int_of(v, a, b, s, i), lift(0))


class interp1d:
    """piecewise-linear interpolation on sorted knots"""

    def __init__(self, x, y, kind='linear', axis=-1, copy=True,
                 bounds_error=None, fill_value=None, assume_sorted=False):
        self.kind = {'slinear': 'linear', 'zero': 'previous'}.get(kind, kind)
        if self.kind not in ('linear', 'previous', 'next', 'nearest'):
            raise Unsupported('interp1d kind %s' % kind)
        self.x = [lift(v) for v in plain(asarray(x)).ravel()]
        y = plain(mkarr(y))
        self.axis = axis % y.ndim
        self.y = np.moveaxis(y, axis, -1)
        if self.y.shape[-1] != len(self.x):
            raise ValueError('x and y arrays must be equal in length along '
                             'interpolation axis.')
        self.fill = fill_value
        self.be = bounds_error
        if not assume_sorted:
            o = argsort(mkarr(self.x))
            self.x = [self.x[i] for i in o]
            self.y = self.y[..., o]

    def _one(self, t):
        t = lift(t)
        n = len(self.x)
        if n == 1:
            return self.y[..., 0]
        ext = self.fill == 'extrapolate' if isinstance(self.fill, str) \
            else False
        if not ext:
            if bool(t < self.x[0]) or bool(t > self.x[-1]):
                if self.be is False:
                    if self.fill is None:
                        return np.full(self.y.shape[:-1], math.nan, object)
                    lo = bool(t < self.x[0])
                    fv = self.fill
                    if isinstance(fv, tuple):
                        fv = fv[0] if lo else fv[1]
                    if isinstance(fv, np.ndarray):
                        return plain(fv)
                    out = np.empty(self.y.shape[:-1], object)
                    out[...] = plain(lift(fv))
                    return out
                raise ValueError('A value in x_new is outside the '
                                 'interpolation range.')
        k = 0
        for j in range(1, n - 1):
            if bool(t > self.x[j]):
                k = j
            else:
                break
        x0, x1 = self.x[k], self.x[k + 1]
        y0, y1 = self.y[..., k], self.y[..., k + 1]
        if self.kind == 'previous':
            return y1 if bool(t >= x1) else y0
        if self.kind == 'next':
            return y0 if bool(t <= x0) else y1
        if self.kind == 'nearest':
            return y0 if bool(t - x0 <= x1 - t) else y1
        w = (t - x0) / (x1 - x0)
        return y0 + (y1 - y0) * plain(w)

    def __call__(self, t):
        if isinstance(t, (list, tuple)):
            t = asarray(t)
        if isinstance(t, np.ndarray) and t.ndim:
            flat = [self._one(v) for v in plain(t).ravel()]
            flat = [v if isinstance(v, np.ndarray) else _np0(v) for v in flat]
            a = np.stack(flat, axis=-1).reshape(
                self.y.shape[:-1] + t.shape)
            # move interpolated axes into place
            nd = t.ndim
            src = list(range(a.ndim - nd, a.ndim))
            dst = list(range(self.axis, self.axis + nd))
            return wrap(np.moveaxis(a, src, dst))
        v = self._one(t)
        return wrap(v if isinstance(v, np.ndarray) else _np0(v))


def _np0(v):
    a = np.empty((), object)
    a[()] = v
    return a


def pdist(X, metric='euclidean', **k):
    X = plain(mkarr(X))
    n = X.shape[0]
    out = []
    for i in range(n):
        for j in range(i + 1, n):
            d = X[i] - X[j]
            out.append(S.ssqrt(builtins.sum((v * v for v in d), lift(0))))
    return mkarr(out) if out else zeros(0)


def squareform(d, **k):
    d = asarray(d)
    if d.ndim != 1:
        raise Unsupported('squareform')
    n = builtins.int((1 + math.isqrt(1 + 8 * len(d))) // 2)
    out = zeros((n, n))
    c = 0
    for i in range(n):
        for j in range(i + 1, n):
            out[i, j] = d[c]
            out[j, i] = d[c]
            c += 1
    return out


def cdist(A, B, metric='euclidean', **k):
    A, B = plain(mkarr(A)), plain(mkarr(B))
    out = np.empty((len(A), len(B)), object)
    for i in range(len(A)):
        for j in range(len(B)):
            d = A[i] - B[j]
            out[i, j] = S.ssqrt(builtins.sum((v * v for v in d), lift(0)))
    return wrap(out)


def binom(n, k):
    import scipy.special
    return lift(builtins.float(scipy.special.binom(n, k)))


def roots_legendre(M, mu=False):
    """concrete Gauss-Legendre rule (decimal rationals), symmetrised"""
    import scipy.special
    x, w = scipy.special.roots_legendre(M)
    n = len(x)
    xs, ws = [None] * n, [None] * n
    for i in range(n // 2):
        v = S.frac(abs(builtins.float(x[i])))
        u = S.frac(builtins.float(w[i]))
        xs[i], xs[n - 1 - i] = -v, v
        ws[i] = ws[n - 1 - i] = u
    if n % 2:
        xs[n // 2] = 0
        ws[n // 2] = 2 - builtins.sum(v for v in ws if v is not None)
    else:
        d = 2 - builtins.sum(ws)
        ws[0] += Fraction(d) / 2
        ws[-1] = ws[0]
    return mkarr([lift(v) for v in xs]), mkarr([lift(v) for v in ws])


class _Special:
    binom = staticmethod(binom)
    roots_legendre = staticmethod(roots_legendre)

    def erf(self, x):
        return _map1(S.serf, x)

    def erfc(self, x):
        return _map1(S.serfc, x)

    def exp1(self, x):
        import scipy.special
        return _map1(lambda v: S.generic_uf('E1', [v], lambda t: builtins.float(
            scipy.special.exp1(t)), pos=True), x)

    def __getattr__(self, n):
        raise Unsupported('scipy.special.%s' % n)


def _map1(f, x):
    if isinstance(x, (np.ndarray, list, tuple)):
        a = plain(mkarr(x))
        out = np.empty(a.shape, object)
        for i in np.ndindex(*a.shape):
            out[i] = f(a[i])
        return wrap(out)
    return f(x)


# ---- polynomial -------------------------------------------------------------------
ROOTS_HOOK = [None]


class Polynomial:
    def __init__(self, coef):
        self.coef = mkarr(coef)

    def roots(self):
        c = list(self.coef)
        while len(c) > 1 and c[-1].r.is_zero():
            c.pop()
        if ROOTS_HOOK[0] is not None:
            return ROOTS_HOOK[0](c)
        if builtins.all(v.r.is_const() for v in c):
            r = np.polynomial.polynomial.Polynomial(
                [builtins.float(v.r.const_value()) for v in c]).roots()
            return r if np.iscomplexobj(r) else mkarr(r)
        if len(c) == 2:
            return mkarr([-c[0] / c[1]])
        raise Unsupported('symbolic polynomial roots')

    def __call__(self, x):
        v = lift(0)
        for c in reversed(list(self.coef)):
            v = v * x + c
        return v


class _Poly:
    Polynomial = Polynomial

    def polyroots(self, c):
        return Polynomial(c).roots()

    def polyval(self, x, c):
        return Polynomial(c)(x)

    def __getattr__(self, n):
        raise Unsupported('numpy.polynomial.%s' % n)


# ---- generic fallbacks ---------------------------------------------------------------
def _plain_deep(x):
    if isinstance(x, (SArr, Sym, SBool)):
        return plain(x)
    if isinstance(x, list):
        return [_plain_deep(v) for v in x]
    if isinstance(x, tuple):
        return tuple(_plain_deep(v) for v in x)
    if isinstance(x, dict):
        return {k: _plain_deep(v) for k, v in x.items()}
    if isinstance(x, np.ndarray) and x.dtype.kind == 'f':
        return plain(lift_arr(x))
    return x


def _wrap_deep(x):
    if isinstance(x, tuple):
        t = [_wrap_deep(v) for v in x]
        return tuple(t)
    if isinstance(x, list):
        return [_wrap_deep(v) for v in x]
    return wrap(x)


SAFE = {'concatenate', 'stack', 'hstack', 'vstack', 'dstack', 'column_stack',
        'tile', 'repeat', 'diag', 'diagonal', 'diagflat', 'trace', 'moveaxis',
        'transpose', 'swapaxes', 'reshape', 'ravel', 'squeeze', 'expand_dims',
        'broadcast_to', 'broadcast_arrays', 'split', 'array_split', 'hsplit',
        'vsplit', 'flip', 'fliplr', 'flipud', 'roll', 'rot90', 'inner',
        'outer', 'dot', 'kron', 'tensordot', 'diff', 'delete', 'insert',
        'append', 'triu', 'tril', 'meshgrid', 'take', 'take_along_axis',
        'copy', 'block', 'vdot', 'cross', 'ndim', 'shape', 'size',
        'broadcast_shapes', 'result_type', 'fill_diagonal', 'put',
        'ascontiguousarray', 'matmul', 'vander', 'ediff1d', 'nan_to_num',
        'apply_along_axis', 'compress', 'extract', 'choose', 'resize',
        'rollaxis', 'ix_', 'unravel_index', 'ravel_multi_index',
        'triu_indices', 'tril_indices', 'diag_indices', 'indices',
        'ndindex', 'ndenumerate', 'lexsort', 'bincount', 'matrix_transpose',
        'permute_dims', 'concat', 'copyto', 'tri', 'atleast_3d', 'sum',
        'array_repr', 'array_str', 'array2string', 'may_share_memory',
        'shares_memory', 'iterable', 'isin', 'union1d', 'intersect1d',
        'setdiff1d', 'in1d', 'can_cast', 'convolve', 'correlate', 'pad',
        'array_equiv', 'sliding_window_view', 'errstate', 'newaxis'}


def array_function(func, args, kwargs):
    n = func.__name__
    if n in OVERRIDE:
        return OVERRIDE[n](*args, **kwargs)
    if n in SAFE:
        return _fallback(func)(*args, **kwargs)
    mod = getattr(func, '__module__', '')
    if 'linalg' in mod and hasattr(_Linalg, n):
        return getattr(_Linalg, n)(*args, **kwargs)
    raise Unsupported('np.%s on symbolic arrays' % n)


def _fallback(func):
    def g(*a, **k):
        k.pop('dtype', None)
        a = [_plain_deep(x) for x in a]
        k = {key: _plain_deep(v) for key, v in k.items()}
        return _wrap_deep(func(*a, **k))
    return g


def real_if_close(x, **k):
    return x


def isreal(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, SArr):
        return np.ones(x.shape, bool)
    return np.isreal(x)


def s_real(x):
    return _part(x, 'real')


def s_imag(x):
    return _part(x, 'imag')


def _part(x, which):
    if isinstance(x, Sym):
        return getattr(x, which)
    if isinstance(x, (complex, np.complexfloating)):
        return lift(getattr(x, which))
    a = mkarr(x)
    f = [getattr(lift(v), which) for v in S.plain(a).ravel()]
    return mkarr(f).reshape(a.shape) if a.ndim else f[0]



def fill_diagonal(a, v, wrap=False):
    for i in range(builtins.min(a.shape)):
        a[i, i] = v if isinstance(v, Sym) or np.ndim(v) == 0 else v[i]


def _round1(v, n=0):
    v = lift(v)
    if v.r.is_const():
        return lift(round(builtins.float(v), n))
    q = Fraction(10) ** n
    return (v * q + Fraction(1, 2)).floor() / q


def round_(a, decimals=0, **k):
    a2 = asarray(a)
    if isinstance(a2, (SArr, Sym)):
        return _map1(lambda v: _round1(v, builtins.int(decimals)), a2)
    return np.round(a, decimals)


def s_copy(a, **k):
    return a.copy() if isinstance(a, np.ndarray) else asarray(a)


def ptp(a, axis=None):
    return s_max(a, axis) - s_min(a, axis)


def var(a, axis=None, ddof=0, **k):
    a = mkarr(asarray(a))
    n = a.size if axis is None else a.shape[axis]
    m = s_mean(a, axis=axis, keepdims=True) if axis is not None \
        else s_mean(a)
    return s_sum((a - m) ** 2, axis=axis) / lift(n - ddof)


def std(a, axis=None, ddof=0, **k):
    return np.sqrt(var(a, axis=axis, ddof=ddof))


def median(a, **k):
    v = plain(s_sort(mkarr(asarray(a)).ravel()))
    n = len(v)
    return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2


def clip(a, lo=None, hi=None, **k):
    lo, hi = k.get('a_min', lo), k.get('a_max', hi)
    a = mkarr(a) if isinstance(a, (np.ndarray, list, tuple)) else lift(a)
    if lo is not None:
        a = np.maximum(a, lo)
    return a if hi is None else np.minimum(a, hi)


def select(conds, choices, default=0):
    out = default
    for c, v in zip(list(conds)[::-1], list(choices)[::-1]):
        out = where(asarray(c), v, out)
    return out


def piecewise(x, conds, fs, *a, **k):
    x = mkarr(asarray(x))
    conds = [conc_mask(asarray(c)) for c in conds]
    fs = list(fs)
    if len(fs) > len(conds):
        rest = np.ones(x.shape, bool)
        for c in conds:
            rest &= ~c
        conds.append(rest)
    out = zeros(x.shape)
    for c, f in zip(conds, fs):
        out[c] = f(x[c], *a, **k) if callable(f) else f
    return out


def trapezoid(y, x=None, dx=1, axis=-1):
    y = np.moveaxis(mkarr(asarray(y)), axis, -1)
    d = np.diff(mkarr(asarray(x))) if x is not None else lift(dx)
    return s_sum((y[..., 1:] + y[..., :-1]) * d / lift(2), axis=-1)


def cumulative_trapezoid(y, x=None, dx=1, axis=-1, initial=None):
    y = np.moveaxis(mkarr(asarray(y)), axis, -1)
    d = np.diff(mkarr(asarray(x))) if x is not None else lift(dx)
    r = cumsum((y[..., 1:] + y[..., :-1]) * d / lift(2), axis=-1)
    if initial is not None:
        r = np.concatenate([zeros(r.shape[:-1] + (1,)) + initial, r], axis=-1)
    return np.moveaxis(r, -1, axis)


def polyval(p, x):
    out = lift(0)
    for c in p:
        out = out * x + c
    return out


def geomspace(a, b, num=50, endpoint=True, **k):
    a, b = lift(a), lift(b)
    n = num - 1 if endpoint else num
    la, lb = S.slog(a), S.slog(b)
    v = [S.sexp(la + (lb - la) * Fraction(i, n)) if n else a
         for i in range(num)]
    if num:
        v[0] = a
        if endpoint and num > 1:
            v[-1] = b
    return mkarr(v)


def frompyfunc(f, nin, nout, **k):
    def g(*xs):
        if nout != 1:
            raise Unsupported('frompyfunc with several results')
        bs = np.broadcast_arrays(*[plain(asarray(x)) for x in xs])
        if bs[0].ndim == 0:
            return f(*xs)
        out = np.empty(bs[0].shape, object)
        for ix in np.ndindex(*bs[0].shape):
            out[ix] = f(*[b[ix] for b in bs])
        return wrap(out)
    return g


def pad(a, width, mode='constant', **k):
    if callable(mode) or mode not in ('constant', 'edge', 'reflect', 'wrap',
                                      'symmetric', 'empty'):
        raise Unsupported('np.pad %s' % mode)
    return _fallback(np.pad)(a, width, mode, **k)


def bincount(x, weights=None, minlength=0):
    x = np.asarray(x, int)
    if weights is None:
        return np.bincount(x, minlength=minlength)
    out = zeros(builtins.max([minlength] + [builtins.int(i) + 1 for i in x]))
    for i, w in zip(x, weights):
        out[i] = out[i] + w
    return out


def place(a, mask, vals):
    m = conc_mask(asarray(mask))
    v = list(vals)
    for k, ix in enumerate(zip(*np.nonzero(m))):
        a[ix] = v[k % len(v)]


def putmask(a, mask, vals):
    m = conc_mask(asarray(mask))
    v = asarray(vals)
    for ix in zip(*np.nonzero(m)):
        a[ix] = v[ix] if getattr(v, 'ndim', 0) else v


def multi_dot(ms, **k):
    out = ms[0]
    for m in ms[1:]:
        out = np.dot(out, m) if not isinstance(out, SArr) else out.dot(m)
    return out


def matrix_power(M, n):
    if n < 0:
        M, n = inv(M), -n
    out = eye(len(M))
    for i in range(n):
        out = out @ M
    return out


def lstsq(A, b, *a, **k):
    A = asarray(A)
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise Unsupported('least squares')
    return solve(A, b), zeros(0), len(A), None


class _Rc:
    """np.r_ and np.c_ of arrays and numbers"""

    def __init__(self, name):
        self.name = name

    def __getitem__(self, k):
        k = k if isinstance(k, tuple) else (k,)
        if builtins.any(isinstance(x, (slice, str)) for x in k):
            if _contains_sym(list(k)):
                raise Unsupported('np.%s' % self.name)
            return getattr(np, self.name)[k]
        k = [atleast_1d(x) for x in k]
        if self.name == 'r_':
            return _fallback(np.concatenate)(k)
        return _fallback(np.column_stack)(k)


OVERRIDE = {
    'zeros': zeros, 'ones': ones, 'empty': empty, 'full': full,
    'zeros_like': zeros_like, 'ones_like': ones_like,
    'empty_like': empty_like, 'full_like': full_like, 'eye': eye,
    'identity': lambda n, **k: eye(n), 'array': array, 'asarray': asarray,
    'asanyarray': asarray, 'atleast_1d': atleast_1d,
    'atleast_2d': atleast_2d, 'arange': arange, 'linspace': linspace,
    'where': where, 'isscalar': isscalar, 'isclose': isclose,
    'allclose': allclose, 'array_equal': array_equal, 'all': s_all,
    'any': s_any, 'sum': s_sum, 'mean': s_mean, 'average': average,
    'max': s_max, 'amax': s_max, 'min': s_min, 'amin': s_min,
    'argmax': _mm('argmax'), 'argmin': _mm('argmin'), 'argsort': argsort,
    'sort': s_sort, 'unique': unique, 'digitize': digitize,
    'searchsorted': searchsorted, 'interp': interp,
    'count_nonzero': count_nonzero, 'nonzero': nonzero,
    'flatnonzero': lambda a: nonzero(asarray(a).ravel())[0],
    'argwhere': lambda a: np.transpose(nonzero(a)),
    'cumsum': cumsum, 'cumprod': cumprod, 'prod': prod, 'einsum': einsum,
    'vectorize': vectorize, 'isreal': isreal, 'real': s_real, 'imag': s_imag,
    'real_if_close': real_if_close, 'fill_diagonal': fill_diagonal,
    'round': round_, 'around': round_, 'copy': s_copy, 'ptp': ptp,
    'std': std, 'var': var, 'iscomplexobj': lambda x: False,
    'isrealobj': lambda x: True, 'abs': np.absolute,
    'clip': clip, 'median': median, 'select': select, 'piecewise': piecewise,
    'trapezoid': trapezoid, 'polyval': polyval, 'geomspace': geomspace,
    'logspace': lambda a, b, num=50, endpoint=True, base=10, **k: geomspace(
        S._pw(lift(base), a), S._pw(lift(base), b), num, endpoint),
    'frompyfunc': frompyfunc, 'pad': pad, 'bincount': bincount,
    'place': place, 'putmask': putmask, 'nansum': s_sum, 'nanmax': s_max,
    'nanmin': s_min, 'nanmean': s_mean, 'fix': lambda x: np.trunc(x),
    'fromiter': lambda it, dtype=None, count=-1, **k: array(
        list(it) if count < 0 else [v for _, v in zip(range(count), it)]),
    'rint': lambda x: round_(x),
    'copysign': lambda x, y: np.absolute(x) * where(
        asarray(y) < 0, lift(-1), lift(1)),
    'heaviside': lambda x, y: where(asarray(x) < 0, lift(0), where(
        asarray(x) > 0, lift(1), y)),
    'divmod': lambda a, b: (np.floor_divide(a, b), np.remainder(a, b)),
}


class NP:
    """numpy stand-in"""
    inf = np.inf
    nan = np.nan
    newaxis = None
    ndarray = np.ndarray
    floating = np_floating
    float64 = np_floating
    linalg = _Linalg()
    errstate = staticmethod(np.errstate)
    integer = np.integer
    polynomial = types.SimpleNamespace(polynomial=_Poly(),
                                       Polynomial=Polynomial)

    r_ = _Rc('r_')
    c_ = _Rc('c_')

    @property
    def pi(self):
        return S.PI()

    @property
    def euler_gamma(self):
        return S.EULER()

    @property
    def e(self):
        return S.sexp(lift(1))

    def __getattr__(self, n):
        if n in OVERRIDE:
            return OVERRIDE[n]
        v = getattr(np, n)
        if isinstance(v, np.ufunc):
            return _Ufunc(v)
        if isinstance(v, type):
            return v
        if callable(v):
            if n in SAFE:
                return _fallback(v)
            return _guarded(v, n)
        return v


def _guarded(v, n):
    def g(*a, **k):
        if _contains_sym(a) or _contains_sym(list(k.values())):
            raise Unsupported('np.%s on symbolic values' % n)
        return _wrap_deep(v(*a, **k))
    return g


def _contains_sym(x):
    if isinstance(x, (Sym, SBool, SArr)):
        return True
    if isinstance(x, (list, tuple)):
        return builtins.any(_contains_sym(v) for v in x)
    return False


class _Ufunc:
    """ufunc proxy: lifts plain float inputs first"""

    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__

    def _prep(self, a):
        out = []
        for x in a:
            if isinstance(x, (builtins.float, np.floating)) and not \
                    isinstance(x, Sym):
                x = lift(x) if not S.is_special(x) else x
            elif isinstance(x, (list, tuple)):
                x = asarray(x)
            elif isinstance(x, np.ndarray) and x.dtype.kind == 'f':
                x = lift_arr(x)
            out.append(x)
        return out

    def __call__(self, *a, **k):
        a = self._prep(a)
        if self.u in (np.divide, np.true_divide, np.sqrt, np.exp, np.sin,
                      np.cos, np.log, np.tan, np.deg2rad, np.radians):
            a = [lift(x) if isinstance(x, NUM) and not S.is_special(x) else
                 (mkarr(x) if isinstance(x, np.ndarray) else x) for x in a]
        return self.u(*a, **k)

    def outer(self, *a, **k):
        return S.ufunc_dispatch(self.u, 'outer', self._prep(a), k) \
            if _contains_sym(self._prep(a)) else self.u.outer(*a, **k)

    def reduce(self, a, **k):
        return self.u.reduce(self._prep([a])[0], **k)

    def accumulate(self, a, **k):
        return self.u.accumulate(self._prep([a])[0], **k)

    def at(self, *a):
        return self.u.at(*a)


class _Mod:
    def __init__(self, name, **kw):
        self.__dict__.update(kw)
        self._name = name

    def __getattr__(self, n):
        raise Unsupported('%s.%s' % (self._name, n))


def linkage(*a, **k):
    import scipy.cluster.hierarchy as h
    return h.linkage(*[_tofloat(x) for x in a], **k)


def cut_tree(*a, **k):
    import scipy.cluster.hierarchy as h
    return h.cut_tree(*[_tofloat(x) for x in a], **k)


def dendrogram(*a, **k):
    import scipy.cluster.hierarchy as h
    return h.dendrogram(*[_tofloat(x) for x in a], **k)


def _tofloat(x):
    if isinstance(x, SArr):
        return np.array([builtins.float(v) for v in plain(x).ravel()]
                        ).reshape(x.shape)
    return x


NPSHIM = NP()


class _MathShim:
    """stand-in for the math module"""
    inf = math.inf
    nan = math.nan

    @property
    def pi(self):
        return S.PI()

    @property
    def e(self):
        return S.sexp(lift(1))

    def __getattr__(self, n):
        m = {'sqrt': S.ssqrt, 'exp': S.sexp, 'log': S.slog,
             'sin': lambda x: S.ssincos(x)[0],
             'cos': lambda x: S.ssincos(x)[1],
             'tan': lambda x: S.ssincos(x)[0] / S.ssincos(x)[1],
             'atan2': S.satan2, 'fabs': S.sabs, 'erf': S.serf,
             'erfc': S.serfc, 'pow': lambda a, b: S._pw(a, b),
             'floor': lambda x: s_int(lift(x).floor()),
             'ceil': lambda x: s_int(lift(x).ceil()),
             'radians': lambda x: x * S.PI() / 180,
             'degrees': lambda x: x * 180 / S.PI(),
             'isclose': lambda a, b, rel_tol=Fraction(1, 10 ** 9), abs_tol=0:
                 S.sabs(lift(a) - b) <= smax2(
                     rel_tol * smax2(S.sabs(lift(a)), S.sabs(lift(b))),
                     abs_tol),
             'hypot': lambda a, b: S.ssqrt(lift(a) * a + lift(b) * b),
             'cosh': lambda x: S.sym_hyp(lift(x), 'cosh'),
             'sinh': lambda x: S.sym_hyp(lift(x), 'sinh'),
             'tanh': lambda x: S.sym_hyp(lift(x), 'tanh'),
             'isnan': lambda x: S.is_special(x) and x != x,
             'isinf': lambda x: S.is_special(x) and x == x,
             'isfinite': lambda x: not S.is_special(x),
             'fsum': lambda xs: builtins.sum(xs, lift(0)),
             'prod': lambda xs: prod(asarray(list(xs))),
             'trunc': lambda x: s_int(lift(x).trunc()),
             'copysign': lambda x, y: -S.sabs(lift(x)) if bool(lift(y) < 0)
                 else S.sabs(lift(x)),
             'log10': S.slog10,
             'log2': lambda x: S.slog(lift(x)) / S.slog(lift(2)),
             'log1p': lambda x: S.slog(lift(x) + 1),
             'expm1': lambda x: S.sexp(lift(x)) - 1,
             'dist': lambda p, q: S.ssqrt(builtins.sum(
                 ((lift(a) - b) ** 2 for a, b in zip(p, q)), lift(0))),
             }
        if n in m:
            return m[n]
        v = getattr(math, n)
        if n in ('comb', 'factorial', 'gcd', 'isqrt', 'perm', 'lcm'):
            return v
        raise Unsupported('math.%s' % n)


def smax2(a, b):
    return S.smax(lift(a), lift(b))


def scipy_modules():
    sp = _Special()
    integ = _Mod('scipy.integrate', quad=quad, quad_vec=quad_vec,
                 trapezoid=trapezoid,
                 cumulative_trapezoid=cumulative_trapezoid)
    itp = _Mod('scipy.interpolate', interp1d=interp1d)
    lin = _Mod('scipy.linalg', block_diag=block_diag,
               solve=lambda A, b, **k: solve(A, b),
               inv=lambda A, **k: inv(A), det=lambda A, **k: det(A),
               pinv=lambda A, **k: inv(A), norm=norm,
               lu_factor=lambda A, **k: (A, None),
               lu_solve=lambda lu, b, **k: solve(lu[0], b),
               cho_factor=lambda A, **k: (A, None),
               cho_solve=lambda lu, b, **k: solve(lu[0], b))
    dist = _Mod('scipy.spatial.distance', pdist=pdist, squareform=squareform,
                cdist=cdist)
    spat = _Mod('scipy.spatial', distance=dist)
    hier = _Mod('scipy.cluster.hierarchy', linkage=linkage, cut_tree=cut_tree,
                dendrogram=dendrogram)
    clus = _Mod('scipy.cluster', hierarchy=hier)

    class _Const:
        @property
        def pi(self):
            return S.PI()
    const = _Const()
    root = _Mod('scipy', special=sp, integrate=integ, interpolate=itp,
                linalg=lin, spatial=spat, cluster=clus, constants=const)
    return {'scipy': root, 'scipy.special': sp, 'scipy.integrate': integ,
            'scipy.interpolate': itp, 'scipy.linalg': lin,
            'scipy.spatial.distance': dist, 'scipy.spatial': spat,
            'scipy.cluster.hierarchy': hier, 'scipy.cluster': clus,
            'scipy.constants': const}


def s_max_b(*a, key=None, default=None):
    if key is not None or default is not None:
        return builtins.max(*a, **({'key': key} if key else {}),
                            **({'default': default} if default is not None
                               else {}))
    xs = list(a[0]) if len(a) == 1 else list(a)
    m = xs[0]
    if S._lazy() and builtins.any(isinstance(v, Sym) for v in xs):
        for v in xs[1:]:
            m = S.smax(m, v)
        return m
    for v in xs[1:]:
        if v > m:
            m = v
    return m


def s_min_b(*a, key=None, default=None):
    if key is not None or default is not None:
        return builtins.min(*a, **({'key': key} if key else {}),
                            **({'default': default} if default is not None
                               else {}))
    xs = list(a[0]) if len(a) == 1 else list(a)
    m = xs[0]
    if S._lazy() and builtins.any(isinstance(v, Sym) for v in xs):
        for v in xs[1:]:
            m = S.smin(m, v)
        return m
    for v in xs[1:]:
        if v < m:
            m = v
    return m


def s_round(x, n=None):
    if isinstance(x, Sym):
        return x.__round__(n)
    return builtins.round(x, n) if n is not None else builtins.round(x)


def s_isinstance(x, t):
    return isinstance(x, t)
