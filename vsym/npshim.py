"""numpy / scipy stand-ins for running the real Python source on object arrays of Sym.

Only what cannot work on object arrays is replaced; everything else is the real numpy.
"""
import builtins
import functools
import itertools
import math
import types
from fractions import Fraction

import numpy as _np
import scipy as _scipy
import scipy.interpolate as _si
import scipy.stats as _ss
import scipy.integrate as _sint
import scipy.linalg as _sl
import scipy.spatial as _spatial

from . import core
from .core import Sym, SymBool, Unsupported, CycBase, lift
from .linalg import sym_inv, sym_solve, det as sym_det

FLOATS = (None, float, _np.float64, _np.float32, complex, _np.complex128, "float", "float64", "f8", "d", _np.dtype(float), _np.dtype(complex))


def has_sym(a):
    if isinstance(a, (Sym, CycBase)):
        return True
    if isinstance(a, _np.ndarray):
        return a.dtype == object
    if hasattr(a, "dtype"):
        return a.dtype == object
    if isinstance(a, (list, tuple)):
        return any(has_sym(x) for x in a)
    return False


def arr(a):
    """plain ndarray of anything array-like (DataArray included)"""
    if isinstance(a, _np.ndarray):
        return a
    if hasattr(a, "to_numpy"):
        return a.to_numpy()
    if hasattr(a, "__array__") and not isinstance(a, (Sym,)):
        return _np.asarray(a)
    if has_sym(a):
        return _toobj(a)
    return _np.asarray(a)


def _toobj(a):
    if isinstance(a, (Sym, CycBase)):
        r = _np.empty((), dtype=object)
        r[()] = a
        return r
    return _np.array(_plain(a), dtype=object)


def _plain(a):
    """nested lists with DataArray / 0-d array members replaced by their values"""
    if isinstance(a, (list, tuple)):
        return [_plain(x) for x in a]
    if hasattr(a, "to_numpy"):
        a = a.to_numpy()
    if isinstance(a, _np.ndarray):
        return a.item() if a.ndim == 0 else a
    return a


def _isfloat(dtype):
    try:
        return dtype is None or (dtype != object and _np.dtype(dtype).kind in "fc")
    except TypeError:
        return True


def _filled(shape, v, order="C"):
    r = _np.empty(shape, dtype=object, order=order if order in ("C", "F") else "C")
    r[...] = v
    return r


def zeros(shape, dtype=None, order="C", **k):
    return _filled(shape, 0.0, order) if _isfloat(dtype) else _np.zeros(shape, dtype, order)


def ones(shape, dtype=None, order="C", **k):
    return _filled(shape, 1.0, order) if _isfloat(dtype) else _np.ones(shape, dtype, order)


def empty(shape, dtype=None, order="C", **k):
    return _filled(shape, float("nan"), order) if _isfloat(dtype) else _np.empty(shape, dtype, order)


def full(shape, v, dtype=None, **k):
    return _filled(shape, v) if _isfloat(dtype) or has_sym(v) else _np.full(shape, v, dtype)


def _like(a, v, dtype=None, shape=None):
    a = arr(a)
    shape = a.shape if shape is None else shape
    if dtype is None and a.dtype.kind in "iub":
        return _np.full(shape, v, a.dtype)
    if not _isfloat(dtype) and dtype != object:
        return _np.full(shape, v, dtype)
    return _filled(shape, v)


def zeros_like(a, dtype=None, shape=None, **k):
    return _like(a, 0.0, dtype, shape)


def ones_like(a, dtype=None, shape=None, **k):
    return _like(a, 1.0, dtype, shape)


def empty_like(a, dtype=None, shape=None, **k):
    return _like(a, float("nan"), dtype, shape)


def full_like(a, v, dtype=None, shape=None, **k):
    return _like(a, v, dtype, shape)


def eye(n, m=None, k=0, dtype=None, **kw):
    r = _np.eye(n, m, k)
    return r.astype(object) if _isfloat(dtype) else r.astype(dtype)


def identity(n, dtype=None, **k):
    return eye(n, dtype=dtype)


def array(a, dtype=None, copy=True, **k):
    if has_sym(a) or (hasattr(a, "to_numpy") and a.dtype == object):
        r = arr(a)
        if dtype is not None and not _isfloat(dtype) and dtype != object:
            return r.astype(dtype)
        r = _np.array(r, dtype=object, copy=copy)
        nd = k.get("ndmin", 0)
        while r.ndim < nd:
            r = r[None]
        return r
    return _np.array(a, dtype=dtype, copy=copy, **k)


def asarray(a, dtype=None, **k):
    if has_sym(a):
        r = arr(a)
        if dtype is not None and not _isfloat(dtype) and dtype != object:
            return r.astype(dtype)
        return r
    return _np.asarray(a, dtype=dtype, **k)


def astype(a, dtype=None, *args, **k):
    if has_sym(a) and _isfloat(dtype):
        return a.copy() if k.get("copy", True) else a
    return a.astype(dtype, *args, **k)


def vs_real(x):
    if isinstance(x, _np.ndarray) and x.dtype == object:
        return _map(lambda v: v.real, x)
    return x.real


def vs_imag(x):
    if isinstance(x, _np.ndarray) and x.dtype == object:
        return _map(lambda v: v.imag if not isinstance(v, Sym) else core.ZERO, x)
    return x.imag


def vs_float(x=0.0):
    if isinstance(x, Sym):
        return x
    if isinstance(x, _np.ndarray) and x.dtype == object and x.size == 1:
        return x.item()
    if hasattr(x, "to_numpy") and x.dtype == object and x.size == 1:
        return x.to_numpy().item()
    return float(x)


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    if not has_sym(start) and not has_sym(stop):
        return _np.linspace(start, stop, num, endpoint=endpoint, retstep=retstep, dtype=dtype, axis=axis)
    a, b = arr(start), arr(stop)
    dv = num - 1 if endpoint else num
    delta = b - a
    out = []
    for i in range(num):
        if endpoint and i == num - 1 and num > 1:
            out.append(b + 0 * a)
        else:
            out.append(a + (delta * Fraction(i, dv) if dv > 0 else delta * 0))
    shp = _np.shape(delta)
    r = _np.empty((num,) + shp, dtype=object)
    for i, o in enumerate(out):
        if shp:
            r[i] = o
        else:
            r[i] = o.item() if isinstance(o, _np.ndarray) else o
    if axis != 0:
        r = _np.moveaxis(r, 0, axis)
    if retstep:
        return r, delta / dv
    return r


def arange(*a, **k):
    if any(isinstance(x, Sym) for x in a):
        if len(a) == 3 and not isinstance(a[0], Sym):
            raise Unsupported("arange with symbolic step")
        raise Unsupported("arange with symbolic bounds")
    return _np.arange(*a, **k)


def isnan(a):
    if not has_sym(a):
        return _np.isnan(a)
    if isinstance(a, Sym):
        return False
    b = arr(a)
    return _np.array([isinstance(x, float) and math.isnan(x) for x in b.ravel()], dtype=bool).reshape(b.shape)


def isfinite(a):
    if not has_sym(a):
        return _np.isfinite(a)
    if isinstance(a, Sym):
        return True
    b = arr(a)
    return _np.array([not (isinstance(x, float) and not math.isfinite(x)) for x in b.ravel()], dtype=bool).reshape(b.shape)


def _map(f, a, otype=object):
    b = arr(a)
    r = _np.empty(b.shape, dtype=otype)
    for i in _np.ndindex(*b.shape):
        r[i] = f(b[i])
    return r if b.ndim else r[()]


def real(a):
    if not has_sym(a):
        return _np.real(a)
    return _map(lambda x: x.real if isinstance(x, CycBase) else x, a)


def imag(a):
    if not has_sym(a):
        return _np.imag(a)
    return _map(lambda x: x.imag if isinstance(x, CycBase) else core.ZERO, a)


def digitize(x, bins, right=False):
    if not has_sym(x) and not has_sym(bins):
        return _np.digitize(x, bins, right)
    bins = list(arr(bins))
    inc = len(bins) < 2 or bool(bins[0] <= bins[-1])

    def one(v):
        n = 0
        if inc:
            for b in bins:
                if (b < v) if right else (b <= v):
                    n += 1
                else:
                    break
        else:
            for b in bins:
                if (b >= v) if right else (b > v):
                    n += 1
                else:
                    break
        return n

    return _map(one, x, int)


def gradient(f, *varargs, axis=None, edge_order=1):
    if not has_sym(f) and not has_sym(varargs):
        return _np.gradient(f, *varargs, axis=axis, edge_order=edge_order)
    f = arr(f)
    if f.ndim != 1 or edge_order != 1 or (varargs and arr(varargs[0]).ndim):
        raise Unsupported("gradient form")
    h = varargs[0] if varargs else 1.0
    out = _np.empty(f.shape, dtype=object)
    out[1:-1] = (f[2:] - f[:-2]) / (2 * h)
    out[0] = (f[1] - f[0]) / h
    out[-1] = (f[-1] - f[-2]) / h
    return out


def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return bool(_np.all(isclose(a, b, rtol, atol)))


def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if not has_sym(a) and not has_sym(b):
        return _np.isclose(a, b, rtol, atol)
    a, b = _np.broadcast_arrays(arr(a), arr(b))
    r = _np.empty(a.shape, dtype=bool)
    for i in _np.ndindex(*a.shape):
        r[i] = bool(abs(a[i] - b[i]) <= atol + rtol * abs(b[i]))
    return r


class finfo:
    """machine limits; symbolic reals stand for doubles"""

    def __new__(cls, t):
        return _np.finfo(_np.float64 if t == object or isinstance(t, Sym) else t)


def histogram_bin_edges(a, bins=10, range=None, weights=None):
    if has_sym(a) and all(lift(v).op == "const" for v in arr(a).ravel()):
        a = _np.array([float(lift(v).val) for v in arr(a).ravel()])
    if not has_sym(a) and not has_sym(range):
        return _np.histogram_bin_edges(a, bins, range, weights)
    if not isinstance(bins, (int, _np.integer)):
        raise Unsupported("histogram bins")
    lo, hi = range if range is not None else (amin(a), amax(a))
    if bool(lift(lo) > lift(hi)):
        raise ValueError("max must be larger than min in range parameter.")
    if bool(lift(lo) == lift(hi)):
        lo, hi = lo - 0.5, hi + 0.5
    return linspace(lo, hi, bins + 1)


def unique(*a, **k):
    if has_sym(a[0]):
        raise Unsupported("unique on symbolic data")
    return _np.unique(*a, **k)


def _obj(fname):
    f = getattr(_np, fname)

    def g(*a, **k):
        a = tuple(arr(x) if has_sym(x) and not isinstance(x, Sym) else x for x in a)
        return f(*a, **k)

    g.__name__ = fname
    return g


def square(a):
    return a * a


def nan_to_num(x, *a, **k):
    if not has_sym(x):
        return _np.nan_to_num(x, *a, **k)
    return _map(lambda v: 0.0 if isinstance(v, float) and math.isnan(v) else v, x)


def where(*a):
    if len(a) == 1:
        return _np.where(a[0])
    c, x, y = a
    c = arr(c)
    if c.dtype == object:
        c = _np.array([bool(v) for v in c.ravel()], dtype=bool).reshape(c.shape)
    return _np.where(c, arr(x) if has_sym(x) else x, arr(y) if has_sym(y) else y)


def average(a, axis=None, weights=None, **k):
    if not has_sym(a) and not has_sym(weights):
        return _np.average(a, axis=axis, weights=weights, **k)
    a = arr(a)
    if weights is None:
        return a.mean(axis)
    w = arr(weights)
    if w.ndim == 1 and axis is not None and a.ndim > 1:
        sh = [1] * a.ndim
        sh[axis] = -1
        w = w.reshape(sh)
    return (a * w).sum(axis) / _np.broadcast_to(w, a.shape).sum(axis)


def var_(a, axis=None, ddof=0, keepdims=False, **k):
    if not has_sym(a):
        return _np.var(a, axis=axis, ddof=ddof, keepdims=keepdims, **k)
    a = arr(a)
    m = a.mean(axis=axis, keepdims=True)
    n = a.size if axis is None else a.shape[axis]
    d = a - m
    return (d * d).sum(axis=axis, keepdims=keepdims) / (n - ddof)


def std_(a, axis=None, ddof=0, keepdims=False, **k):
    if not has_sym(a):
        return _np.std(a, axis=axis, ddof=ddof, keepdims=keepdims, **k)
    return _np.sqrt(var_(a, axis, ddof, keepdims))


def median(a, *x, **k):
    if has_sym(a):
        raise Unsupported("median of symbolic data")
    return _np.median(a, *x, **k)


def sqrt(a, *args, **k):
    if isinstance(a, Sym):
        return core.sqrt(a)
    if isinstance(a, _np.ndarray) and a.dtype == object and not args and not k:
        return _map(lambda z: math.sqrt(z) if isinstance(z, (int, float)) else z.sqrt(), a)
    return _np.sqrt(a, *args, **k)


def _extremum(kind, vals):
    """min / max of Syms without forking: one opaque term with its defining facts (see smt.Script.congruence)."""
    flat = []
    for v in vals:
        if isinstance(v, float) and math.isnan(v):
            return v
        v = lift(v)
        if not any(v is w for w in flat):
            flat.append(v)
    if len(flat) == 1:
        return flat[0]
    if all(v.op == "const" for v in flat):
        return core.const((min if kind == "min" else max)(v.val for v in flat))
    flat.sort(key=lambda v: v.id)
    return core.app(kind, *flat)


def _minmax(kind):
    real_f = getattr(_np, "a" + kind)

    def g(a, axis=None, out=None, keepdims=False, **k):
        if not has_sym(a):
            return real_f(a, axis=axis, keepdims=keepdims) if not k else real_f(a, axis=axis, keepdims=keepdims, **k)
        b = arr(a)
        if axis is None:
            r = _extremum(kind, list(b.ravel()))
            if keepdims:
                q = _np.empty((1,) * b.ndim, dtype=object)
                q[...] = r
                return q
            return r
        m = _np.moveaxis(b, axis, -1)
        o = _np.empty(m.shape[:-1], dtype=object)
        for i in _np.ndindex(*m.shape[:-1]):
            o[i] = _extremum(kind, list(m[i]))
        if keepdims:
            o = _np.expand_dims(o, axis)
        return o if o.ndim else o[()]

    return g


amin = _minmax("min")
amax = _minmax("max")


def _minmax2(kind):
    def g(a, b, *r, **k):
        if not has_sym(a) and not has_sym(b):
            return getattr(_np, "minimum" if kind == "min" else "maximum")(a, b, *r, **k)
        A, B = _np.broadcast_arrays(arr(a), arr(b))
        o = _np.empty(A.shape, dtype=object)
        for i in _np.ndindex(*A.shape):
            o[i] = _extremum(kind, [A[i], B[i]])
        return o if o.ndim else o[()]

    return g


minimum = _minmax2("min")
maximum = _minmax2("max")


# ------------------------------------------------------------------ linalg
def minors(B, k):
    """all minors of order k"""
    n, m = B.shape
    out = []
    for r in itertools.combinations(range(n), k):
        for c in itertools.combinations(range(m), k):
            out.append(lift(sym_det(arr(B[_np.ix_(r, c)]))))
    return out


def generic_rank(B):
    """a bound of the rank that holds for all values of the variables"""
    for k in range(1, min(min(B.shape), 3) + 1):
        if all(_is_zero(x) or vanishes(x) for x in minors(B, k)):
            return k - 1
    return min(B.shape)


def vanishes(x):
    """identically zero, by the solver"""
    from . import smt

    c = core.cmp("==", lift(x), core.ZERO)
    return c if isinstance(c, bool) else smt.check_many([c], timeout=3) == ["unsat"]


def complex_inv(A):
    """inverse of P + iQ from that of [[P, -Q], [Q, P]]"""
    n = A.shape[-1]
    P = _map(lambda x: x.real if isinstance(x, (CycBase, complex, _np.complexfloating)) else x, A)
    Q = _map(lambda x: x.imag if isinstance(x, (CycBase, complex, _np.complexfloating)) else core.ZERO, A)
    if all(_is_zero(x) for x in arr(Q).ravel()):
        return sym_inv(arr(P))
    R = sym_inv(_np.block([[arr(P), -arr(Q)], [arr(Q), arr(P)]]))
    out = _np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            out[i, j] = Cyc(4, {0: lift(R[i, j]), 1: lift(R[n + i, j])})
    return out


class _Linalg:
    LinAlgError = _np.linalg.LinAlgError

    def inv(self, a):
        if not has_sym(a):
            return _np.linalg.inv(a)
        a = arr(a)
        if any(isinstance(x, (CycBase, complex, _np.complexfloating)) for x in a.ravel()):
            return complex_inv(a)
        return sym_inv(a)

    def solve(self, a, b):
        if not has_sym(a) and not has_sym(b):
            return _np.linalg.solve(a, b)
        return sym_solve(arr(a), arr(b))

    def det(self, a):
        return sym_det(arr(a)) if has_sym(a) else _np.linalg.det(a)

    def pinv(self, a, *r, **k):
        if not has_sym(a):
            return _np.linalg.pinv(a, *r, **k)
        A = arr(a)
        if A.shape[0] == A.shape[1]:
            return sym_inv(A)
        raise Unsupported("pinv of non square symbolic matrix")

    def lstsq(self, a, b, rcond=None):
        if not has_sym(a) and not has_sym(b):
            return _np.linalg.lstsq(a, b, rcond=rcond)
        A, B = arr(a), arr(b)
        if A.shape[0] == A.shape[1]:
            return sym_solve(A, B), None, A.shape[0], None
        At = A.T
        return sym_solve(At @ A, At @ B), None, A.shape[1], None

    def norm(self, x, ord=None, axis=None, keepdims=False):
        if not has_sym(x):
            return _np.linalg.norm(x, ord, axis, keepdims)
        if ord not in (None, 2):
            raise Unsupported("norm order")
        x = arr(x)
        return sqrt((x * x).sum(axis=axis, keepdims=keepdims))

    def _sym_eig(self, a, name):
        """spectral theorem for a symmetric matrix: a = V diag(w) V^T, V orthogonal"""
        A = arr(a)
        if A.ndim != 2 or A.shape[0] != A.shape[1]:
            raise _np.linalg.LinAlgError("square matrix expected")
        n = A.shape[0]
        if n == 1:
            return _np.array([lift(A[0, 0]), None], dtype=object)[:1], _np.array([[core.ONE]], dtype=object)
        for i in range(n):
            for j in range(i):
                if not _is_zero(lift(A[i, j]) - lift(A[j, i])):
                    raise Unsupported("eigenvalues of a matrix that is not symmetric")
        flat = [lift(x) for x in A.ravel()]
        w = _np.array([core.app("%s%d_w%d" % (name, n, i), *flat) for i in range(n)] + [None], dtype=object)[:-1]
        V = _np.empty((n, n), dtype=object)
        for i in _np.ndindex(n, n):
            V[i] = core.app("%s%d_v%d%d" % ((name, n) + i), *flat)
        real = getattr(_np.linalg, name)
        for i in range(n):
            core.EXTRA_FN.setdefault("%s%d_w%d" % (name, n, i), lambda *f, i=i: float(real(_np.array(f).reshape(n, n))[0][i]))
            for j in range(n):
                core.EXTRA_FN.setdefault("%s%d_v%d%d" % (name, n, i, j), lambda *f, i=i, j=j: float(real(_np.array(f).reshape(n, n))[1][i, j]))
        if core.CTX is not None:
            for i in range(n):
                for j in range(i, n):
                    core.CTX.facts.append(core.cmp("==", sum((V[i, k] * w[k] * V[j, k] for k in range(n)), core.ZERO), lift(A[i, j])))
                    one = core.ONE if i == j else core.ZERO
                    core.CTX.facts.append(core.cmp("==", sum((V[i, k] * V[j, k] for k in range(n)), core.ZERO), one))
                    core.CTX.facts.append(core.cmp("==", sum((V[k, i] * V[k, j] for k in range(n)), core.ZERO), one))
        return w, V

    def svd(self, a, full_matrices=True, compute_uv=True, hermitian=False):
        """singular value decomposition: a = U diag(S) V, U and V orthogonal, S sorted and not negative"""
        if not has_sym(a):
            return _np.linalg.svd(a, full_matrices, compute_uv, hermitian)
        A = arr(a)
        if A.ndim != 2 or A.shape[0] != A.shape[1] or not compute_uv:
            raise Unsupported("singular values of a matrix that is not square")
        n = A.shape[0]
        zero = lambda l: all(_is_zero(lift(x)) for x in l)
        dead = [i for i in range(n) if zero(A[i, :]) and zero(A[:, i])]
        live = [i for i in range(n) if i not in dead]
        m = len(live)
        U, S, V = zeros((n, n), dtype=object), zeros(n, dtype=object), zeros((n, n), dtype=object)
        for j, i in enumerate(dead):
            U[i, m + j] = V[m + j, i] = core.ONE
        if m == 1:
            z = lift(A[live[0], live[0]])
            U[live[0], 0] = core.ONE
            pos = bool(z >= 0)
            S[0], V[0, live[0]] = (z, core.ONE) if pos else (-z, -core.ONE)
            return U, S, V
        B = A[_np.ix_(live, live)]
        if all(i == j or lift(B[i, j]) is core.ZERO for i in range(m) for j in range(m)):
            val = [(lift(B[i, i]), bool(lift(B[i, i]) >= 0)) for i in range(m)]
            val = [(z if p else -z, core.ONE if p else -core.ONE, i) for i, (z, p) in enumerate(val)]
            order = []
            for x in val:
                p = len(order)
                while p > 0 and bool(order[p - 1][0] < x[0]):
                    p -= 1
                order.insert(p, x)
            for k, (z, sg, i) in enumerate(order):
                S[k], U[live[i], k], V[k, live[i]] = z, core.ONE, sg
            return U, S, V
        flat = [lift(x) for x in B.ravel()]
        rk = generic_rank(B)
        if rk == m:
            flat = [core.name_value(x, "svd") for x in flat]
        B = arr(flat).reshape(m, m)
        real = lambda f: _np.linalg.svd(_np.array(f).reshape(m, m), hermitian=hermitian)
        u, v = _np.empty((m, m), dtype=object), _np.empty((m, m), dtype=object)
        s = []
        tag = "svd%d%s" % (m, "h" if hermitian else "")
        for i in range(m):
            core.EXTRA_FN.setdefault("%s_s%d" % (tag, i), lambda *f, i=i: float(real(f)[1][i]))
            s.append(core.app("%s_s%d" % (tag, i), *flat) if i < rk else core.ZERO)
            for j in range(m):
                core.EXTRA_FN.setdefault("%s_u%d%d" % (tag, i, j), lambda *f, i=i, j=j: float(real(f)[0][i, j]))
                core.EXTRA_FN.setdefault("%s_v%d%d" % (tag, i, j), lambda *f, i=i, j=j: float(real(f)[2][i, j]))
                u[i, j] = core.app("%s_u%d%d" % (tag, i, j), *flat)
                v[i, j] = core.app("%s_v%d%d" % (tag, i, j), *flat)
        if core.CTX is not None:
            fact = core.CTX.facts.append
            ortho = []
            for i in range(m if rk < m else 0):
                for j in range(m):
                    core.CTX.rewrites[sum((u[i, k] * s[k] * v[k, j] for k in range(m)), core.ZERO)] = lift(B[i, j])
            for i in range(m if rk == m else 0):
                fact(core.cmp("<=", s[i + 1] if i + 1 < m else core.ZERO, s[i]))
                for j in range(m):
                    full = sum((u[i, k] * s[k] * v[k, j] for k in range(m)), core.ZERO)
                    fact(core.cmp("==", full, lift(B[i, j])))
                    if j >= i:
                        one = core.ONE if i == j else core.ZERO
                        ortho += [core.cmp("==", sum((q[i, k] * q[j, k] for k in range(m)), core.ZERO), one) for q in (u, u.T, v, v.T)]
            core.CTX.facts += ortho
        if core.CTX is not None and rk < m and rk <= 2:
            e1 = core.name_value(sum((lift(x * x) for x in B.ravel()), core.ZERO), "svd")
            lem = [core.cmp("==", sum((x * x for x in s), core.ZERO), e1)] + [core.cmp("<=", core.ZERO, x) for x in s[:rk]]
            if rk == 2:
                e2 = core.name_value(sum((x * x for x in minors(B, 2)), core.ZERO), "svd")
                lem += [core.cmp("==", s[0] * s[0] * s[1] * s[1], e2), core.cmp("<=", s[1], s[0])]
            core.CTX.lemmas = core.CTX.lemmas or [[], [], []]
            core.CTX.lemmas[0] += lem
            core.CTX.facts += lem
        if core.CTX is not None and m == 2 and rk == 2:  # consequences that the solver does not find easily
            det = lift(B[0, 0] * B[1, 1] - B[0, 1] * B[1, 0])
            lem = [core.cmp("==", s[0] * s[1] * s[0] * s[1], det * det), core.cmp("==", s[0] * s[0] + s[1] * s[1], sum((lift(x * x) for x in B.ravel()), core.ZERO))]
            if hermitian and B[0, 1] is B[1, 0]:
                tr = lift(B[0, 0] + B[1, 1])
                is_ = lambda x, y: core.cmp("==", x, y)
                lem.append((is_(s[0] * s[1], det) & (is_(s[0] + s[1], tr) | is_(s[0] + s[1], -tr))) | (is_(s[0] * s[1], -det) & (is_(s[0] - s[1], tr) | is_(s[0] - s[1], -tr))))
            lem += [core.cmp("<=", core.ZERO, s[1]), core.cmp("<=", s[1], s[0])]
            norm = [core.cmp("==", sum((sum((u[i, k] * B[i, j] for i in range(m)), core.ZERO) ** 2 for j in range(m)), core.ZERO), s[k] * s[k]) for k in range(m)]
            core.CTX.lemmas = core.CTX.lemmas or [[], [], []]
            core.CTX.lemmas[0] += lem
            core.CTX.lemmas[1] += lem + norm
            core.CTX.lemmas[2] += ortho
            lem = lem + norm
            core.CTX.facts += lem
        for i, a_ in enumerate(live):
            S[i] = s[i]
            for k in range(m):
                U[a_, k] = u[i, k]
                V[k, a_] = v[k, i]
        return U, S, V

    def eig(self, a):
        return self._sym_eig(a, "eig") if has_sym(a) else _np.linalg.eig(a)

    def eigh(self, a, UPLO="L"):
        return self._sym_eig(a, "eigh") if has_sym(a) else _np.linalg.eigh(a, UPLO)

    def matrix_power(self, a, n):
        if not has_sym(a):
            return _np.linalg.matrix_power(a, n)
        A = arr(a)
        if n < 0:
            A = sym_inv(A)
            n = -n
        r = eye(A.shape[0])
        for _ in range(n):
            r = r @ A
        return r

    def multi_dot(self, l, out=None):
        r = arr(l[0])
        for m in l[1:]:
            r = r @ arr(m)
        return r

    def __getattr__(self, n):
        f = getattr(_np.linalg, n)

        def g(*a, **k):
            if any(has_sym(x) for x in a):
                raise Unsupported("numpy.linalg.%s on symbolic data" % n)
            return f(*a, **k)

        return g


linalg = _Linalg()


# ------------------------------------------------------------------ exact DFT
class Cyc(CycBase):
    """Element of Q(zeta_N)[terms]: sum_k c_k zeta_N^k, c_k Sym; zeta_N = exp(2 i pi / N)."""

    __slots__ = ("n", "c")

    def __init__(self, n, c):
        # reduce with zeta^(N/2) = -1 when N is even
        self.n = n
        d = {}
        for k, v in c.items():
            k %= n
            s = 1
            if n % 2 == 0 and k >= n // 2:
                k -= n // 2
                s = -1
            v = v if s == 1 else -v
            d[k] = d[k] + v if k in d else v
        self.c = {k: v for k, v in d.items() if not (type(v) is Sym and v is core.ZERO)}

    def _co(self, o):
        if isinstance(o, Cyc):
            if o.n == self.n:
                return self, o
            m = math.lcm(self.n, o.n)
            return Cyc(m, {k * (m // self.n): v for k, v in self.c.items()}), Cyc(m, {k * (m // o.n): v for k, v in o.c.items()})
        if isinstance(o, (complex, _np.complexfloating)):
            m = math.lcm(self.n, 4)
            return Cyc(m, {k * (m // self.n): v for k, v in self.c.items()}), Cyc(m, {0: lift(o.real), m // 4: lift(o.imag)})
        return self, Cyc(self.n, {0: lift(o)})

    def __add__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        a, b = self._co(o)
        d = dict(a.c)
        for k, v in b.c.items():
            d[k] = d[k] + v if k in d else v
        return Cyc(a.n, d)

    __radd__ = __add__

    def __neg__(self):
        return Cyc(self.n, {k: -v for k, v in self.c.items()})

    def __sub__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        a, b = self._co(o)
        return a + (-b)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        a, b = self._co(o)
        d = {}
        for k, v in a.c.items():
            for l, w in b.c.items():
                p = v * w
                q = k + l
                d[q] = d[q] + p if q in d else p
        return Cyc(a.n, d)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        if isinstance(o, CycBase):
            raise Unsupported("division of Fourier coefficients")
        o = lift(o)
        return Cyc(self.n, {k: v / o for k, v in self.c.items()})

    def __pow__(self, n):
        if n in (1, 2, 3, 4):
            r = self
            for _ in range(int(n) - 1):
                r = r * self
            return r
        if n == 0.5:
            return self.sqrt()
        raise Unsupported("power of Fourier coefficient")

    def __abs__(self):
        if not self.c:
            return core.ZERO
        return core.sqrt(lift((self * self.conjugate()).real))

    def conjugate(self):
        return Cyc(self.n, {-k: v for k, v in self.c.items()})

    conj = conjugate

    @property
    def real(self):
        r = core.ZERO
        for k, v in self.c.items():
            r = r + v * _cos(k, self.n)
        return r

    @property
    def imag(self):
        r = core.ZERO
        for k, v in self.c.items():
            r = r + v * _cos(k - Fraction(self.n, 4), self.n)
        return r

    def sqrt(self):
        """principal square root of a real coefficient"""
        if not _is_zero(self.imag):
            raise Unsupported("square root of a complex Fourier coefficient")
        r = lift(self.real)
        if bool(r >= 0):
            return Cyc(1, {0: core.sqrt(r)})
        return Cyc(4, {1: core.sqrt(-r)})

    def exp(self):
        """exponential of a rational multiple of i pi"""
        im = lift(self.imag) / PI[0]
        im = lift(_normal(im))
        if not _is_zero(self.real) or im.op != "const":
            raise Unsupported("exponential of a complex symbolic number")
        q = im.val / 2 % 1
        return Cyc(q.denominator, {q.numerator: core.ONE})

    def __float__(self):
        raise Unsupported("float of Cyc")

    def __repr__(self):
        return "Cyc(%d,%r)" % (self.n, self.c)


PI = [None]


def _normal(x):
    from . import smt

    l = smt.Lifter()
    n, d = l.rat(x)
    return core.div(n, l._prod(d)) if d else n


def _is_zero(x):
    x = lift(x)
    return x is core.ZERO or _normal(x) is core.ZERO


def _complex_arith(op, a, b):
    def up(x):
        if isinstance(x, (complex, _np.complexfloating)):
            return Cyc(4, {0: lift(x.real), 1: lift(x.imag)})
        return x if isinstance(x, CycBase) else Cyc(1, {0: lift(x)})

    if op == "div":
        if isinstance(b, (complex, _np.complexfloating)):
            raise Unsupported("division by a complex number")
        return up(a) / b
    return {"add": Cyc.__add__, "sub": Cyc.__sub__, "mul": Cyc.__mul__}[op](up(a), up(b))


core.COMPLEX = _complex_arith


@functools.lru_cache(maxsize=None)
def _dyadic_tower(f):
    """2 cos(2 pi k / 2^m) in the tower s1 = sqrt(2), s2 = sqrt(2 + s1), ... with 2 cos(2 pi / 2^m) = s_(m-2)"""
    m = f.denominator.bit_length() - 3

    def mult(a, b):
        r = {}
        for p, u in a.items():
            for q, v in b.items():
                todo = [(tuple(i + j for i, j in zip(p, q)), u * v)]
                while todo:
                    e, c = todo.pop()
                    top = max((j for j in range(m) if e[j] > 1), default=None)
                    if top is None:
                        r[e] = r.get(e, 0) + c
                        continue
                    l = list(e)
                    l[top] -= 2  # s_top^2 = 2 + s_(top - 1)
                    todo.append((tuple(l), 2 * c))
                    if top:
                        l[top - 1] += 1
                        todo.append((tuple(l), c))
        return r

    one, c = {(0,) * m: Fraction(1)}, {(0,) * (m - 1) + (1,): Fraction(1)}  # c = 2 cos
    a, b = {(0,) * m: Fraction(2)}, c
    for _ in range(f.numerator - 1):
        t = mult(c, b)
        for e, v in a.items():
            t[e] = t.get(e, 0) - v
        a, b = b, t
    return m, b


def _dyadic_cos(f):
    m, b = _dyadic_tower(f)
    s = [core.sqrt(core.const(2))]
    while len(s) < m:
        s.append(core.sqrt(2 + s[-1]))
    r = core.ZERO
    for e, v in b.items():
        if v:
            t = core.const(v / 2)
            for j in range(m):
                if e[j]:
                    t = t * s[j]
            r = r + t
    return r


def _cos(k, n):
    """cos(2 pi k / n) exactly, or as an opaque constant constrained by nothing (see DESIGN: sound)."""
    f = Fraction(k) / n % 1
    if f > Fraction(1, 2):
        f = 1 - f
    sign = 1
    if f > Fraction(1, 4):
        f = Fraction(1, 2) - f
        sign = -1
    tab = {Fraction(0): core.ONE, Fraction(1, 4): core.ZERO, Fraction(1, 6): core.const(Fraction(1, 2))}
    if f in tab:
        v = tab[f]
    elif f == Fraction(1, 8):
        v = core.sqrt(core.const(2)) / 2
    elif f == Fraction(1, 5):
        v = (core.sqrt(core.const(5)) - 1) / 4
    elif f == Fraction(1, 10):
        v = (core.sqrt(core.const(5)) + 1) / 4
    elif f == Fraction(1, 12):
        v = core.sqrt(core.const(3)) / 2
    elif f.denominator in (16, 32, 64):
        v = _dyadic_cos(f)
    else:
        v = core.app("cospi%d_%d" % (f.numerator, f.denominator))
        core.EXTRA_FN.setdefault("cospi%d_%d" % (f.numerator, f.denominator), lambda f=f: math.cos(2 * math.pi * float(f)))
    return v if sign == 1 else -v


def _dft(a, n, axis, inverse):
    a = arr(a)
    axis = axis % a.ndim
    m = a.shape[axis]
    if n is None:
        n = m
    if n < 1:
        raise ValueError("Invalid number of FFT data points (%d) specified." % n)
    a = _np.moveaxis(a, axis, -1)
    out = _np.empty(a.shape[:-1] + (n,), dtype=object)
    sgn = 1 if inverse else -1
    for idx in _np.ndindex(*a.shape[:-1]):
        row = [a[idx + (t,)] for t in range(min(m, n))]
        if not inverse and all(not isinstance(x, CycBase) for x in row):
            for w in range(n):
                d = {}
                for t, x in enumerate(row):
                    x = lift(x)
                    if x is core.ZERO:
                        continue
                    k = (sgn * w * t) % n
                    d[k] = d[k] + x if k in d else x
                out[idx + (w,)] = Cyc(n, d)
        else:
            for w in range(n):
                tot = Cyc(n, {})
                for t, x in enumerate(row):
                    z = Cyc(n, {(sgn * w * t) % n: core.ONE})
                    tot = tot + z * x
                out[idx + (w,)] = tot / n if inverse else tot
    return _np.moveaxis(out, -1, axis)


class _FFT:
    def fft(self, a, n=None, axis=-1, norm=None):
        if not has_sym(a):
            return _np.fft.fft(a, n, axis, norm)
        if norm not in (None, "backward"):
            raise Unsupported("fft norm")
        return _dft(a, n, axis, False)

    def ifft(self, a, n=None, axis=-1, norm=None):
        if not has_sym(a):
            return _np.fft.ifft(a, n, axis, norm)
        if norm not in (None, "backward"):
            raise Unsupported("fft norm")
        return _dft(a, n, axis, True)

    def rfft(self, a, n=None, axis=-1, norm=None):
        if not has_sym(a):
            return _np.fft.rfft(a, n, axis, norm)
        r = self.fft(a, n, axis, norm)
        m = r.shape[axis] // 2 + 1
        return _np.take(r, range(m), axis=axis)

    def irfft(self, a, n=None, axis=-1, norm=None):
        if not has_sym(a):
            return _np.fft.irfft(a, n, axis, norm)
        A = _np.moveaxis(arr(a), axis, -1)
        m = A.shape[-1]
        if n is None:
            n = 2 * (m - 1)
        h = n // 2 + 1
        if m < h:
            raise Unsupported("irfft padding")
        A = A[..., :h]
        tail = A[..., 1:(n + 1) // 2][..., ::-1]
        full_ = _np.concatenate([A, _map(lambda x: x.conjugate() if isinstance(x, CycBase) else x, tail)], axis=-1)
        return _np.moveaxis(real(self.ifft(full_, axis=-1)), -1, axis)

    def __getattr__(self, n):
        f = getattr(_np.fft, n)

        def g(*a, **k):
            if any(has_sym(x) for x in a):
                raise Unsupported("numpy.fft.%s on symbolic data" % n)
            return f(*a, **k)

        return g


fft = _FFT()


def _unary(name):
    """elementary function of an array in which numbers and terms are mixed"""
    f = getattr(_np, name)

    def g(a, *r, **k):
        if r or k or not isinstance(a, _np.ndarray) or a.dtype != object:
            return f(a, *r, **k)
        if not has_sym(a):
            return f(a.astype(float))
        return _map(lambda x: f(x) if not isinstance(x, (Sym, CycBase)) else getattr(x, name)(), a)

    return g


def emath_log(a, *r, **k):
    """logarithm, complex for negative numbers"""
    if not has_sym(a):
        return _np.emath.log(a, *r, **k)
    return _map(lambda x: Cyc(4, {0: _np.log(-lift(x)), 1: lift(PI[0])}) if not isinstance(x, CycBase) and bool(lift(x) < 0) else _np.log(x), a)


# ------------------------------------------------------------------ module proxies
class Proxy(types.ModuleType):
    def __init__(self, name, real_mod, over):
        super().__init__(name)
        self.__dict__["_real"] = real_mod
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self.__dict__["_real"], n)


def make_numpy(pi):
    PI[0] = pi
    emath = Proxy("numpy.emath", _np.emath, dict(log=emath_log, sqrt=lambda a, **k: sqrt(a, **k)))
    over = {f: _unary(f) for f in ("exp", "log", "sin", "cos", "tan", "sinh", "cosh", "tanh", "arctan")}
    over.update(
        emath=emath, lib=Proxy("numpy.lib", _np.lib, dict(scimath=emath)),
        zeros=zeros, ones=ones, empty=empty, full=full, zeros_like=zeros_like, ones_like=ones_like, empty_like=empty_like, full_like=full_like, eye=eye, identity=identity,
        array=array, asarray=asarray, asanyarray=asarray, ascontiguousarray=asarray, asfortranarray=asarray, linspace=linspace, arange=arange, isnan=isnan, isfinite=isfinite, real=real, imag=imag, digitize=digitize,
        gradient=gradient, allclose=allclose, isclose=isclose, unique=unique, finfo=finfo, histogram_bin_edges=histogram_bin_edges, nan_to_num=nan_to_num, where=where, average=average, var=var_, std=std_, median=median, sqrt=sqrt,
        linalg=linalg, fft=fft, pi=pi, square=square, min=amin, amin=amin, max=amax, amax=amax, nanmin=amin, nanmax=amax, minimum=minimum, maximum=maximum,
    )
    return Proxy("numpy", _np, over)


# ------------------------------------------------------------------ scipy
class BSpline:
    """Exact evaluation of a B-spline with concrete knots (coefficients may be symbolic)."""

    def __init__(self, t, c, k, extrapolate=True, axis=0):
        self.t = arr(t)
        self.c = arr(c)
        self.k = int(k)
        self.extrapolate = extrapolate
        self.axis = axis
        if not has_sym(self.c) and not has_sym(self.t):
            _si.BSpline(self.t, self.c, self.k)  # same validation as the real class

    @classmethod
    def basis_element(cls, t, extrapolate=True):
        t = arr(t)
        k = len(t) - 2
        tt = _np.r_[(t[0] - 1,) * k, t, (t[-1] + 1,) * k]
        c = _np.zeros(len(tt))
        c[k] = 1.0
        return cls(tt, c, k, extrapolate)

    @property
    def tck(self):
        return self.t, self.c, self.k

    def __call__(self, x, nu=0, extrapolate=None):
        if nu:
            return self.derivative(nu)(x, 0, extrapolate)
        ex = self.extrapolate if extrapolate is None else extrapolate
        x = arr(x)
        out = _np.empty(x.shape + self.c.shape[1:], dtype=object)
        for i in _np.ndindex(*x.shape):
            out[i] = self.eval1(x[i], ex)
        return out

    def eval1(self, x, ex):
        t, k = self.t, self.k
        n = len(t) - k - 1
        c = [self.c[i] if self.c.ndim == 1 else self.c[i] for i in range(min(n, len(self.c)))]
        if ex == "periodic":
            raise Unsupported("periodic extrapolation of splines")
        if ex is False:
            if bool(x < t[k]) or bool(x > t[n]):
                return float("nan")
        # interval: t[l] <= x < t[l+1], clamped
        l = k
        while l < n - 1 and bool(x >= t[l + 1]):
            l += 1
        d = [lift(c[j + l - k]) if self.c.ndim == 1 else c[j + l - k] for j in range(k + 1)]
        for r in range(1, k + 1):
            for j in range(k, r - 1, -1):
                den = _fr(t[j + 1 + l - r]) - _fr(t[j + l - k])
                if not isinstance(den, Sym) and den == 0:
                    a = 0
                else:
                    a = (x - _fr(t[j + l - k])) / den
                d[j] = (1 - a) * d[j - 1] + a * d[j]
        return d[k]

    def derivative(self, nu=1):
        t, c, k = self.t, self.c, self.k
        nu = int(nu)
        if nu < 0:
            return self.antiderivative(-nu)
        for _ in range(nu):
            if k == 0:
                n = len(t) - 1
                return BSpline(t, _np.zeros((n,) + c.shape[1:]), 0, self.extrapolate)
            n = len(t) - k - 1
            cc = _np.empty((n - 1,) + c.shape[1:], dtype=object)
            for i in range(n - 1):
                den = _fr(t[i + k + 1]) - _fr(t[i + 1])
                cc[i] = 0 * lift(c[i]) if (not isinstance(den, Sym) and den == 0) else (c[i + 1] - c[i]) * k / den if isinstance(den, Sym) else (lift(c[i + 1]) - lift(c[i])) * Fraction(k) / den
            t = t[1:-1]
            c = cc
            k -= 1
        return BSpline(t, c, k, self.extrapolate)

    def antiderivative(self, nu=1):
        t, c, k = self.t, self.c, self.k
        if int(nu) < 0:
            return self.derivative(-int(nu))
        for _ in range(int(nu)):
            n = len(t) - k - 1
            cc = _np.empty((n + 1,) + c.shape[1:], dtype=object)
            cc[0] = core.ZERO
            for i in range(n):
                den = _fr(t[i + k + 1]) - _fr(t[i])
                cc[i + 1] = cc[i] + lift(c[i]) * den / (k + 1)
            t = _np.concatenate([[t[0]], t, [t[-1]]])
            c = cc
            k += 1
        return BSpline(t, c, k, self.extrapolate)

    def integrate(self, a, b, extrapolate=None):
        F = self.antiderivative()
        return F(_toobj(b)) - F(_toobj(a))


def _fr(x):
    return x if isinstance(x, Sym) else core.snap(float(x))


def splev(x, tck, der=0, ext=0):
    if isinstance(tck, BSpline):
        b = tck
    elif isinstance(tck, _si.BSpline):
        b = BSpline(tck.t, tck.c, tck.k)
    else:
        t, c, k = tck
        n = len(t) - k - 1
        b = BSpline(t, arr(c)[:n], k)
    if not has_sym(x) and not has_sym(b.c):
        return _si.splev(x, (b.t, _np.concatenate([b.c, _np.zeros(len(b.t) - len(b.c))]), b.k), der=der, ext=ext)
    if has_sym(x):
        x = _map(_settle, arr(x))
    if ext != 0:
        raise Unsupported("splev ext")
    if not 0 <= der <= b.k:
        raise ValueError("0<=der=%d<=k=%d must hold" % (der, b.k))
    return (b.derivative(der) if der else b)(x)


def splantider(tck, n=1):
    t, c, k = tck
    m = len(t) - k - 1
    b = BSpline(t, arr(c)[:m], k).antiderivative(n)
    return (b.t, _np.concatenate([b.c, _filled((len(b.t) - len(b.c),), core.ZERO)]), b.k)


def splder(tck, n=1):
    t, c, k = tck
    m = len(t) - k - 1
    b = BSpline(t, arr(c)[:m], k).derivative(n)
    return (b.t, _np.concatenate([b.c, _filled((len(b.t) - len(b.c),), core.ZERO)]), b.k)


def _settle(v):
    """extrema inside a term decided by forking on their arguments"""
    v = lift(v)
    if v.op == "+":
        return lift(sum((c * _settle(t) for c, t in v.args), core.const(v.val)))
    if v.op == "*":
        r = core.const(v.val)
        for b, e in v.args:
            r = r * _settle(b) ** e
        return lift(r)
    if v.op == "app" and v.val in ("min", "max"):
        best = _settle(v.args[0])
        for o in v.args[1:]:
            o = _settle(o)
            if bool(o < best if v.val == "min" else o > best):
                best = o
        return lift(best)
    return v


def splrep(x, y, w=None, xb=None, xe=None, k=3, task=0, s=None, t=None, full_output=0, per=0, quiet=1):
    x = arr(x)
    if has_sym(x) or has_sym(y):
        if has_sym(x):
            x = _map(_settle, x)
        if has_sym(x) and all(isinstance(v, Sym) and v.op == "const" or not isinstance(v, Sym) for v in x.ravel()):
            x = _np.array([float(v) for v in x.ravel()]).reshape(x.shape)
        if has_sym(y) and all(not isinstance(v, Sym) for v in arr(y).ravel()):
            y = _np.array([float(v) for v in arr(y).ravel()])
        if has_sym(x) or has_sym(y):
            return _interpolating(x, arr(y), w, xb, xe, k, task, s, t, full_output, per)
    return _si.splrep(x, y, w, xb, xe, k, task, s, t, full_output, per, quiet)


def _interpolating(x, y, w, xb, xe, k, task, s, t, full_output, per):
    """interpolating spline of FITPACK (odd degree, no smoothing): linear in the data"""
    if has_sym(x) or w is not None and s is None or xb is not None or xe is not None or task or t is not None or full_output or per or k % 2 == 0 or (s is not None and s != 0):
        raise Unsupported("splrep on symbolic data %r" % ([x, w, xb, xe, k, task, s, t, full_output, per],))
    m = len(x)
    if m <= k:
        raise TypeError("m > k must hold")
    if len(y) != m or any(x[i] >= x[i + 1] for i in range(m - 1)):
        raise ValueError("Error on input data")
    h = (k + 1) // 2
    kn = _np.concatenate([[x[0]] * (k + 1), x[h:m - h], [x[-1]] * (k + 1)])
    B = _np.array([[lift(v) for v in _toobj(BSpline(kn, _toobj(_np.eye(m)[j]), k)(_toobj(x)))] for j in range(m)], dtype=object).T
    inv = sym_inv(B)
    c = inv.dot(y)
    return (kn, _np.concatenate([c, _filled((k + 1,), core.ZERO)]), k)


def describe(a, axis=0, ddof=1, **k):
    if not has_sym(a):
        return _ss.describe(a, axis=axis, ddof=ddof, **k)
    a = arr(a)
    if a.size == 0:
        raise ValueError("The input must not be empty.")
    n = a.shape[axis]
    mm = (amin(a, axis=axis), amax(a, axis=axis))
    m = _np.mean(a, axis=axis)
    v = var_(a, axis, ddof) if n > ddof else _map(lambda x: float("nan"), m)
    D = type(_ss.describe(_np.array([[1.0], [2.0]])))
    d = a - _np.expand_dims(m, axis)
    m2, m3, m4 = [(d**k).sum(axis) / n for k in (2, 3, 4)]
    return D(n, mm, m, v, m3 / (m2 * _np.sqrt(m2)), m4 / (m2 * m2) - 3)


def simpson(y, x=None, dx=1.0, axis=-1, even=None):
    """composite Simpson of scipy 1.11 for an odd number of equally weighted samples; other forms unsupported"""
    if not has_sym(y) and not has_sym(x):
        return _sint.simpson(y, x=x, dx=dx, axis=axis)
    y = _np.moveaxis(arr(y), axis, -1)
    N = y.shape[-1]
    if x is not None:
        x = arr(x)
        h = [x[i + 1] - x[i] for i in range(N - 1)]
    else:
        h = [dx] * (N - 1)

    def panel(i):
        h0, h1 = lift(h[i]), lift(h[i + 1])
        s, p = h0 + h1, h0 * h1
        return s / 6 * (y[..., i] * (2 - h1 / h0) + y[..., i + 1] * (s * s / p) + y[..., i + 2] * (2 - h0 / h1))

    if N % 2 == 1:
        r = 0
        for i in range(0, N - 2, 2):
            r = r + panel(i)
        return r
    if N == 2:
        return (y[..., 0] + y[..., 1]) * h[0] / 2
    r = 0
    for i in range(0, N - 3, 2):
        r = r + panel(i)
    h0, h1 = lift(h[-2]), lift(h[-1])
    al = (2 * h1 * h1 + 3 * h0 * h1) / (6 * (h1 + h0))
    be = (h1 * h1 + 3 * h0 * h1) / (6 * h0)
    et = h1 * h1 * h1 / (6 * h0 * (h0 + h1))
    return r + al * y[..., -1] + be * y[..., -2] - et * y[..., -3]


def cumulative_trapezoid(y, x=None, dx=1.0, axis=-1, initial=None):
    if not has_sym(y) and not has_sym(x):
        return _sint.cumulative_trapezoid(y, x=x, dx=dx, axis=axis, initial=initial)
    y = _np.moveaxis(arr(y), axis, -1)
    d = _np.diff(arr(x)) if x is not None else dx
    r = _np.cumsum(d * (y[..., 1:] + y[..., :-1]) / 2.0, axis=-1)
    if initial is not None:
        r = _np.concatenate([_filled(r.shape[:-1] + (1,), initial), r], axis=-1)
    return _np.moveaxis(r, -1, axis)


def trapezoid(y, x=None, dx=1.0, axis=-1):
    if not has_sym(y) and not has_sym(x):
        return _sint.trapezoid(y, x=x, dx=dx, axis=axis)
    y = _np.moveaxis(arr(y), axis, -1)
    d = _np.diff(arr(x)) if x is not None else dx
    return (d * (y[..., 1:] + y[..., :-1]) / 2.0).sum(-1)


def hankel(c, r=None):
    c = arr(c).ravel()
    r = zeros_like(c) if r is None else arr(r).ravel()
    v = _np.concatenate((c, r[1:]))
    return _np.array([[v[i + j] for j in range(len(r))] for i in range(len(c))], dtype=object if has_sym(v) else None)


def toeplitz(c, r=None):
    if not has_sym(c) and not has_sym(r):
        return _sl.toeplitz(c, r)
    c = arr(c).ravel()
    r = c if r is None else arr(r).ravel()
    return _np.array([[c[i - j] if i >= j else r[j - i] for j in range(len(r))] for i in range(len(c))], dtype=object)


def expm(A):
    if not has_sym(A):
        return _sl.expm(A)
    A = arr(A)
    n = A.shape[0]
    if all(lift(x) is core.ZERO for x in A.ravel()):
        return _np.array([[core.ONE if i == j else core.ZERO for j in range(n)] for i in range(n)], dtype=object)
    if n == 1:
        return _np.array([[lift(A[0, 0]).exp()]], dtype=object)
    r = _np.empty((n, n), dtype=object)
    flat = [lift(x) for x in A.ravel()]
    for i in range(n):
        for j in range(n):
            r[i, j] = core.app("expm%d_%d%d" % (n, i, j), *flat)
            core.EXTRA_FN.setdefault("expm%d_%d%d" % (n, i, j), lambda *f, i=i, j=j, n=n: float(_sl.expm(_np.array(f).reshape(n, n))[i, j]))
    return r


def _guard(mod, name):
    f = getattr(mod, name)

    def g(*a, **k):
        if any(has_sym(x) for x in a):
            raise Unsupported("scipy %s on symbolic data" % name)
        return f(*a, **k)

    return g


class COO:
    """sparse.COO contract: entries at given coordinates, duplicates added up"""

    def __init__(self, coords, data=None, shape=None, **k):
        self.coords, self.data, self.shape = [_np.asarray(c) for c in coords], arr(data), tuple(shape)
        if self.data.ndim == 0:
            self.data = _np.full(self.coords[0].shape, self.data[()], dtype=object)
        if any(len(c) != len(self.data) for c in self.coords):
            raise ValueError("The coordinates and the data have different lengths")

    def todense(self):
        r = _filled(self.shape, 0.0)
        for i, v in enumerate(self.data):
            j = tuple(int(c[i]) for c in self.coords)
            if any(a < 0 or a >= s for a, s in zip(j, self.shape)):
                raise ValueError("coordinate out of bounds")
            r[j] = r[j] + v
        return r


class cKDTree:
    """nearest neighbours of a symbolic point among concrete (or symbolic) points, ties in index order"""

    def __init__(self, data, *a, **k):
        self.data = arr(data)
        self.n, self.m = self.data.shape
        self._real = None if has_sym(data) else _spatial.cKDTree(data, *a, **k)

    def query(self, x, k=1, **kw):
        if not has_sym(x) and self._real is not None:
            return self._real.query(x, k, **kw)
        if kw:
            raise Unsupported("options of a nearest neighbour query")
        X = arr(x)
        ks = list(range(1, k + 1)) if isinstance(k, (int, _np.integer)) else [int(i) for i in k]
        lead = X.shape[:-1]
        D = _np.empty(lead + (len(ks),), dtype=object)
        I = _np.empty(lead + (len(ks),), dtype=int)
        for idx in _np.ndindex(*lead):
            d2 = [sum((X[idx][j] - self.data[i, j]) ** 2 for j in range(self.m)) for i in range(self.n)]
            order = []
            for i in range(self.n):  # insertion sort; each comparison may fork
                p = len(order)
                while p > 0 and bool(d2[i] < d2[order[p - 1]]):
                    p -= 1
                order.insert(p, i)
                order = order[: max(ks)]
            for c, q in enumerate(ks):
                I[idx + (c,)] = order[q - 1] if q <= self.n else self.n
                D[idx + (c,)] = sqrt(d2[order[q - 1]]) if q <= self.n else float("inf")
        if isinstance(k, (int, _np.integer)) and k == 1:
            return D[..., 0], I[..., 0]
        return D, I


KDTree = cKDTree


def make_scipy(overrides=None):
    interp = Proxy("scipy.interpolate", _si, dict(BSpline=BSpline, splev=splev, splrep=splrep, splantider=splantider, splder=splder))
    stats = Proxy("scipy.stats", _ss, dict(describe=describe))
    integ = Proxy("scipy.integrate", _sint, dict(simpson=simpson, simps=simpson, cumulative_trapezoid=cumulative_trapezoid, cumtrapz=cumulative_trapezoid, trapezoid=trapezoid, trapz=trapezoid))
    lin = Proxy("scipy.linalg", _sl, dict(hankel=hankel, toeplitz=toeplitz, expm=expm, inv=linalg.inv, solve=linalg.solve, det=linalg.det))
    import scipy.optimize as _so

    spat = Proxy("scipy.spatial", _spatial, dict(cKDTree=cKDTree, KDTree=KDTree))

    opt = Proxy("scipy.optimize", _so, dict())
    sp = Proxy("scipy", _scipy, dict(interpolate=interp, stats=stats, integrate=integ, linalg=lin, optimize=opt, spatial=spat))
    return {"scipy": sp, "scipy.interpolate": interp, "scipy.stats": stats, "scipy.integrate": integ, "scipy.linalg": lin, "scipy.optimize": opt, "scipy.spatial": spat}


class _Delayed:
    pass


def delayed(f):
    def g(*a, **k):
        return (f, a, k)

    return g


class Parallel:
    """joblib.Parallel contract: results in submission order (serial execution)."""

    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, it):
        return [f(*a, **k) for f, a, k in it]


joblib = types.ModuleType("joblib")
joblib.Parallel = Parallel
joblib.delayed = delayed


sparse = types.ModuleType("sparse")
sparse.COO = COO
