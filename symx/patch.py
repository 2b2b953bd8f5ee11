"""Wrappers around numpy / scipy / math entry points that numpy cannot run on object arrays.

Every wrapper defers to the original unless symbolic execution is active and an argument is symbolic (or, for array
constructors, the caller is the code under test).  Install before importing the code under test."""
import builtins
import functools
import math
import sys
from fractions import Fraction

import numpy as np

from . import sym
from .sym import CTX, SymReal, SymBool, SymUnsupported, NONFINITE, hassym, symstrict, defloat, sym_round, sym_short

TARGET = 'moirae'
ORIG = {}


def _target(depth=2):
    return sys._getframe(depth).f_globals.get('__name__', '').startswith(TARGET)


def _on():
    return CTX.active


def obj(x):
    return np.asarray(x, dtype=object) if not (isinstance(x, np.ndarray) and x.dtype == object) else x


def lift_arr(x):
    a = obj(x)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = SymReal.lift(a[i])
    return out


def _unwrap(r):
    return r.item() if isinstance(r, np.ndarray) and r.ndim == 0 else r


def elementwise(name, f):
    orig = getattr(np, name)
    ORIG['np.' + name] = orig

    @functools.wraps(orig, assigned=('__name__', '__doc__'), updated=())
    def w(x, *a, **k):
        if _on() and hassym(x):
            arr = obj(x)
            out = np.empty(arr.shape, dtype=object)
            for i in np.ndindex(arr.shape):
                out[i] = f(arr[i])
            if k.get('out') is not None:
                o = k['out'][0] if isinstance(k['out'], tuple) else k['out']
                o[...] = out
                return o
            if a or any(kk not in ('out', 'dtype') for kk in k):
                raise SymUnsupported(f'np.{name} with extra arguments')
            return out if isinstance(x, (np.ndarray, list, tuple)) and arr.ndim else _unwrap(out)
        if _on():
            x = defloat(x)
            if name == 'sqrt' and _target() and isinstance(x, (int, float, np.integer, np.floating)) and x >= 0:
                return SymReal.lift(x).sqrt()
        return orig(x, *a, **k)
    if name in ('exp', 'log', 'sqrt'):
        for attr in ('reduce', 'accumulate', 'outer', 'at'):
            setattr(w, attr, getattr(orig, attr))
    setattr(np, name, w)


def patch(mod, name, impl, cond=None):
    """Replace mod.name by impl(orig, *args, **kw) when active and any argument is symbolic (or cond says so)."""
    orig = getattr(mod, name)
    ORIG[f'{mod.__name__}.{name}'] = orig

    @functools.wraps(orig, assigned=('__name__', '__doc__'), updated=())
    def w(*a, **k):
        if _on():
            if (cond(*a, **k) if cond else (any(hassym(x) for x in a) or any(hassym(x) for x in k.values()))):
                a2 = tuple(defloat(x) for x in a)
                k2 = {kk: defloat(v) for kk, v in k.items()}
                if not cond and not (any(hassym(x) for x in a2) or any(hassym(x) for x in k2.values())):
                    return orig(*a2, **k2)
                return impl(orig, *a, **k)
            if not cond and any(isinstance(x, np.ndarray) and x.dtype == object for x in a):
                a = tuple(defloat(x) for x in a)        # numbers that only happen to be stored as objects
        return orig(*a, **k)
    setattr(mod, name, w)
    return w


# ------------------------------------------------------------------ array construction
def _isfloatdtype(dt):
    if dt is None:
        return True
    if dt is float or dt is SymFloat:
        return True
    try:
        return np.dtype(dt).kind in 'fO'
    except TypeError:
        return False


def ctor(name, fill):
    orig = getattr(np, name)
    ORIG['np.' + name] = orig

    @functools.wraps(orig, assigned=('__name__', '__doc__'), updated=())
    def w(*a, **k):
        if _on() and _target():
            dt = k.get('dtype', a[1] if len(a) > 1 and name not in ('eye', 'full') else None)
            if name == 'full':
                dt = k.get('dtype', a[2] if len(a) > 2 else None)
                fv = a[1] if len(a) > 1 else k.get('fill_value')
                if dt is None and isinstance(fv, (bool, np.bool_, str, bytes)):
                    return orig(*a, **k)
            if name == 'eye':
                dt = k.get('dtype', a[3] if len(a) > 3 else None)
            if _isfloatdtype(dt):
                if name == 'full':
                    shape = a[0] if a else k['shape']
                    out = np.empty(shape, dtype=object)
                    out[...] = lift_arr(a[1] if len(a) > 1 else k['fill_value'])
                    return out
                r = orig(*a, **k)
                out = np.empty(r.shape, dtype=object)
                if name == 'empty':
                    for i in np.ndindex(r.shape):
                        out[i] = NONFINITE
                    return out
                return lift_arr(r)
        return orig(*a, **k)
    setattr(np, name, w)


def like(name):
    orig = getattr(np, name)
    ORIG['np.' + name] = orig

    @functools.wraps(orig, assigned=('__name__', '__doc__'), updated=())
    def w(x, *a, **k):
        if _on() and (_target() or hassym(x)):
            arr = np.asarray(x)
            dt = k.get('dtype', None)
            if (dt is None and (arr.dtype.kind in 'fO')) or (dt is not None and _isfloatdtype(dt)):
                out = np.empty(k.get('shape') or arr.shape, dtype=object)
                v = {'zeros_like': 0, 'ones_like': 1, 'empty_like': None, 'full_like': a[0] if a else k.get('fill_value')}[name]
                out[...] = lift_arr(v) if v is not None else NONFINITE
                return out
        return orig(x, *a, **k)
    setattr(np, name, w)


def arrayctor(name):
    orig = getattr(np, name)
    ORIG['np.' + name] = orig

    @functools.wraps(orig, assigned=('__name__', '__doc__'), updated=())
    def w(x, *a, **k):
        if _on():
            if name == 'fromiter' and not isinstance(x, np.ndarray):
                x = list(x)
            if CTX.tokens and name != 'fromiter':
                x = untoken(x)
            dt = k.get('dtype', a[0] if a else None)
            if dt is not None and _isfloatdtype(dt) and hassym(x):
                k = dict(k)
                k['dtype'] = object
                return orig(x, **k)
        return orig(x, *a, **k)
    setattr(np, name, w)


# ------------------------------------------------------------------ text
def token(x):
    """The number that stands for a symbolic value in a JSON text (text and back is the identity on numbers)."""
    if not isinstance(x, SymReal):
        raise TypeError(f'cannot serialise {type(x).__name__}')
    if x.is_const():
        return float(x.const_value())
    for t, y in CTX.tokens.items():
        if y is x:
            return t
    vs = sorted(x.vars())
    v = CTX.vars[vs[0]] if len(vs) == 1 else None
    lo = float(v.lo) if v is not None and v.lo is not None else -3.
    hi = float(v.hi) if v is not None and v.hi is not None else max(lo, 0.) + 3.
    t = lo + (hi - lo) * ((0.31830988 + 0.0123456789 * len(CTX.tokens)) % 1.)
    while t in CTX.tokens:
        t += (hi - lo) * 1e-6
    CTX.tokens[t] = x
    return t


def untoken(x):
    if isinstance(x, list):
        return [untoken(e) for e in x]
    if type(x) is float:
        return CTX.tokens.get(x, x)
    return x


def json_boundary():
    from pydantic import BaseModel
    orig = BaseModel.model_dump_json

    def dump(self, *, indent=None, **k):
        if not _on():
            return orig(self, indent=indent, **k)
        return self.__pydantic_serializer__.to_json(self, indent=indent, fallback=token, **k).decode()
    BaseModel.model_dump_json = dump


# ------------------------------------------------------------------ comparisons
def _isclose1(a, b, rtol, atol):
    a, b = SymReal.lift(a), SymReal.lift(b)
    if a is NONFINITE or b is NONFINITE:
        return False
    d = a - b
    if not d.num:
        return True
    tol = SymReal.lift(atol) + SymReal.lift(rtol) * abs(b)
    return bool(abs(d) <= tol)


def isclose(orig, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = np.broadcast_arrays(obj(a), obj(b))
    out = np.empty(a.shape, dtype=bool)
    for i in np.ndindex(a.shape):
        out[i] = _isclose1(a[i], b[i], rtol, atol)
    return out if out.ndim else bool(out)


def allclose(orig, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = np.broadcast_arrays(obj(a), obj(b))
    return all(_isclose1(a[i], b[i], rtol, atol) for i in np.ndindex(a.shape))


def array_equal(orig, a, b, equal_nan=False):
    a, b = obj(a), obj(b)
    return a.shape == b.shape and all(bool(SymReal.lift(a[i]) == b[i]) for i in np.ndindex(a.shape))


def where(orig, c, *a):
    c = np.asarray(c)
    if c.dtype == object:
        c = np.array([bool(e) for e in c.flat], dtype=bool).reshape(c.shape)
    if not a:
        return orig(c)
    return orig(c, obj(a[0]), obj(a[1]))


def average(orig, a, axis=None, weights=None, returned=False, **k):
    a = obj(a)
    if weights is None or returned or k.get('keepdims'):
        if weights is None and not returned:
            return np.mean(a, axis=axis, **k)
        raise SymUnsupported('np.average options')
    w = obj(weights)
    if w.shape != a.shape:
        if axis is None or w.ndim != 1 or w.shape[0] != a.shape[axis]:
            raise TypeError('Axis must be specified when shapes of a and weights differ.')
        sh = [1] * a.ndim
        sh[axis] = w.shape[0]
        w = w.reshape(sh)
        w = np.broadcast_to(w, a.shape)
    scl = w.sum(axis=axis)
    for e in np.asarray(scl, dtype=object).flat:
        if bool(SymReal.lift(e) == 0):
            raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    return np.multiply(a, w).sum(axis=axis) / scl


def mean(orig, a, axis=None, **k):
    a = obj(a)
    keep = k.get('keepdims', False)
    if k.get('where') is not None:
        w = np.broadcast_to(np.where(k['where'], 1., 0.), a.shape)
        return np.sum(np.where(k['where'], a, 0), axis=axis, keepdims=bool(keep)) / np.sum(w, axis=axis, keepdims=bool(keep))
    if k.get('dtype') is not None and not _isfloatdtype(k['dtype']):
        raise SymUnsupported('np.mean options')
    s = a.sum(axis=axis, keepdims=bool(keep) if keep not in (False, None) else False)
    if axis is None:
        n = a.size
    else:
        ax = axis if isinstance(axis, tuple) else (axis,)
        n = 1
        for x in ax:
            n *= a.shape[x]
    return s / n


def var(orig, a, axis=None, ddof=0, **k):
    a = obj(a)
    m = np.mean(a, axis=axis, keepdims=True) if axis is not None else np.mean(a)
    d = a - m
    s = (d * d).sum(axis=axis)
    n = a.size if axis is None else a.shape[axis]
    return s / (n - ddof)


def std(orig, a, axis=None, ddof=0, **k):
    return np.sqrt(var(None, a, axis=axis, ddof=ddof))


def linspace(orig, start, stop, num=50, endpoint=True, **k):
    if k:
        raise SymUnsupported('np.linspace options')
    n = num - 1 if endpoint else num
    start, stop = obj(start), obj(stop)
    out = [start + (stop - start) * Fraction(i, n) if n else start for i in range(num)]
    return np.array([_unwrap(np.asarray(o, dtype=object)) for o in out], dtype=object)


def trapezoid(orig, y, x=None, dx=1.0, axis=-1):
    y = obj(y)
    if x is None:
        d = dx
    else:
        x = obj(x)
        if x.ndim == 1:
            d = np.diff(x)
            sh = [1] * y.ndim
            sh[axis] = d.shape[0]
            d = d.reshape(sh)
        else:
            d = np.diff(x, axis=axis)
    ym = np.moveaxis(y, axis, -1)
    dm = np.moveaxis(np.asarray(d, dtype=object), axis, -1) if np.ndim(d) else d
    r = (dm * (ym[..., 1:] + ym[..., :-1])).sum(axis=-1)
    return r * Fraction(1, 2)


def simpson(orig, *a, **k):
    raise SymUnsupported('simpson')


# ------------------------------------------------------------------ linear algebra
LinAlgError = np.linalg.LinAlgError


def _batched(f):
    def g(orig, a, *rest, **k):
        a = obj(a)
        if a.ndim > 2:
            outs = [g(orig, x, *rest, **k) for x in a]
            return np.stack(outs)
        return f(a, *rest, **k)
    return g


def _det(a):
    n = a.shape[0]
    if n == 0:
        return SymReal.lift(1)
    if n == 1:
        return SymReal.lift(a[0, 0])
    r = SymReal.lift(0)
    for j in range(n):
        c = SymReal.lift(a[0, j])
        if c.is_const() and c.const_value() == 0:
            continue
        minor = np.delete(np.delete(a, 0, 0), j, 1)
        t = c * _det(minor)
        r = r + t if j % 2 == 0 else r - t
    return r


def _blocks(a):
    """Index sets of the connected components of a square matrix."""
    n = a.shape[0]
    lab = list(range(n))

    def find(i):
        while lab[i] != i:
            i = lab[i]
        return i
    for i in range(n):
        for j in range(n):
            e = a[i, j]
            if i != j and not (isinstance(e, SymReal) and not isinstance(e, sym._NonFinite) and not e.num) and not (not isinstance(e, SymReal) and e == 0):
                x, y = find(i), find(j)
                if x != y:
                    lab[max(x, y)] = min(x, y)
    g = {}
    for i in range(n):
        g.setdefault(find(i), []).append(i)
    return list(g.values())


def _inv(a):
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise LinAlgError('Last 2 dimensions of the array must be square')
    a = lift_arr(a)
    n = a.shape[0]
    out = lift_arr(np.zeros((n, n)))
    for idx in _blocks(a):
        b = a[np.ix_(idx, idx)]
        m = len(idx)
        if any(e is NONFINITE for e in b.flat):
            for i in range(m):
                for j in range(m):
                    out[idx[i], idx[j]] = NONFINITE
            continue
        d = _det(b)
        if not d.num or not CTX.engine.nonzero(d):
            raise LinAlgError('Singular matrix')
        for i in range(m):
            for j in range(m):
                minor = np.delete(np.delete(b, j, 0), i, 1)
                c = _det(minor)
                out[idx[i], idx[j]] = (c if (i + j) % 2 == 0 else -c) / d
    return out


def _cholesky(a, upper=False):
    a = lift_arr(a)
    n = a.shape[0]
    if a.ndim != 2 or n != a.shape[1]:
        raise LinAlgError('Last 2 dimensions of the array must be square')
    L = lift_arr(np.zeros((n, n)))
    for j in range(n):
        s = a[j, j]
        for k in range(j):
            s = s - L[j, k] * L[j, k]
        if s is NONFINITE or not bool(s > 0):
            raise LinAlgError('Matrix is not positive definite')
        L[j, j] = s.sqrt()
        for i in range(j + 1, n):
            t = a[i, j]
            for k in range(j):
                t = t - L[i, k] * L[j, k]
            L[i, j] = t / L[j, j]
    return L.T.copy() if upper else L


def _pinv(a, rcond=None, hermitian=False, *, rtol=None):
    a = lift_arr(a)
    cut = rcond if rcond is not None else rtol
    if cut is not None and np.ndim(cut) == 0 and float(cut) <= 1e-12:
        cut = None      # no singular value within the ranges explored is that much smaller than the largest
    if cut is not None:
        if a.shape[0] != a.shape[1] or np.ndim(cut) or any(len(i) > 1 for i in _blocks(a)):
            raise SymUnsupported('pseudo-inverse that drops small singular values of a full matrix')
        n = a.shape[0]
        out = lift_arr(np.zeros((n, n)))
        for i in range(n):
            e = a[i, i]
            if all(abs(e) > cut * abs(a[j, j]) for j in range(n)):
                out[i, i] = 1 / e
        return out
    if a.shape[0] == a.shape[1]:
        # block-diagonal with zero 1x1 blocks is handled exactly: the pseudo-inverse of 0 is 0
        n = a.shape[0]
        out = lift_arr(np.zeros((n, n)))
        for idx in _blocks(a):
            b = a[np.ix_(idx, idx)]
            if len(idx) == 1:
                e = b[0, 0]
                out[idx[0], idx[0]] = 1 / e if (e.num and CTX.engine.nonzero(e)) else SymReal.lift(0)
            else:
                d = _det(b)
                if not d.num or not CTX.engine.nonzero(d):
                    raise SymUnsupported('pseudo-inverse of a singular symbolic matrix')
                out[np.ix_(idx, idx)] = _inv(b)
        return out
    if a.shape[0] < a.shape[1]:
        g = np.matmul(a, a.T)
        return np.matmul(a.T, _inv(g))
    g = np.matmul(a.T, a)
    return np.matmul(_inv(g), a.T)


def _solve(orig, a, b):
    return np.matmul(_inv(obj(a)), obj(b))


def _is_symmetric(a):
    return all((SymReal.lift(a[i, j]) - a[j, i]).num == {} for i in range(a.shape[0]) for j in range(i))


def _eig2(a):
    """Exact eigen-decomposition of symmetric 1x1 / 2x2 (forking on degenerate cases): (ascending values, vectors as columns)."""
    a = lift_arr(a)
    n = a.shape[0]
    if n == 1:
        return np.array([a[0, 0]], dtype=object), lift_arr(np.eye(1))
    blocks = _blocks(a)
    if len(blocks) == 1 and n > 2:
        raise SymUnsupported('eigen-decomposition beyond 2x2 blocks')
    vals, vecs = [], []
    for idx in blocks:
        if len(idx) == 1:
            v = lift_arr(np.zeros(n))
            v[idx[0]] = SymReal.lift(1)
            vals.append(a[idx[0], idx[0]])
            vecs.append(v)
            continue
        if len(idx) > 2:
            raise SymUnsupported('eigen-decomposition beyond 2x2 blocks')
        i, j = idx
        p, q, r = a[i, i], a[j, i], a[j, j]
        if bool(q == 0):
            for k in idx:
                v = lift_arr(np.zeros(n))
                v[k] = SymReal.lift(1)
                vals.append(a[k, k])
                vecs.append(v)
            continue
        # the contract of the decomposition: a rotation (c, s) and values l1, l2 with
        #   p = l1 c^2 + l2 s^2,  r = l1 s^2 + l2 c^2,  q = (l1 - l2) c s
        h = (p - r) * Fraction(1, 2)
        disc = (h * h + q * q).sqrt()
        m = (p + r) * Fraction(1, 2)
        l1, l2 = m + disc, m - disc
        # eigenvector of l1: (q, l1 - p) ; norm^2 = q^2 + (l1-p)^2 = 2 disc (disc - h)
        x, y = q, l1 - p
        nr = (x * x + y * y).sqrt()
        c, s = x / nr, y / nr
        v1, v2 = lift_arr(np.zeros(n)), lift_arr(np.zeros(n))
        v1[i], v1[j] = c, s
        v2[i], v2[j] = -s, c
        vals += [l2, l1]
        vecs += [v2, v1]
    order = list(range(n))
    # ascending by value (forks)
    order.sort(key=functools.cmp_to_key(lambda x, y: 0 if bool(vals[x] == vals[y]) else (-1 if bool(vals[x] < vals[y]) else 1)))
    return np.array([vals[o] for o in order], dtype=object), np.array([vecs[o] for o in order], dtype=object).T


def _eigh(a, *r, **k):
    w, v = _eig2(_sym_lower(a))
    try:
        from numpy.linalg._linalg import EighResult
        return EighResult(w, v)
    except ImportError:
        return w, v


def _sym_lower(a):
    a = lift_arr(a)
    b = a.copy()
    for i in range(a.shape[0]):
        for j in range(i + 1, a.shape[0]):
            b[i, j] = a[j, i]
    return b


def _svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    """SVD of a symmetric matrix from its eigen-decomposition; of a general one from that of A^T A."""
    a = lift_arr(a)
    if a.shape[0] != a.shape[1]:
        raise SymUnsupported('svd of a non-square symbolic matrix')
    n = a.shape[0]
    if _is_symmetric(a):
        w, v = _eig2(a)
        s = [abs(x) for x in w]
        sg = [SymReal.lift(1) if bool(x >= 0) else SymReal.lift(-1) for x in w]
        order = list(range(n))
        order.sort(key=functools.cmp_to_key(lambda x, y: 0 if bool(s[x] == s[y]) else (1 if bool(s[x] < s[y]) else -1)))
        S = np.array([s[o] for o in order], dtype=object)
        U = np.array([v[:, o] * sg[o] for o in order], dtype=object).T
        Vt = np.array([v[:, o] for o in order], dtype=object)
        if not compute_uv:
            return S
        return U, S, Vt
    w, v = _eig2(np.matmul(a.T, a))
    order = list(range(n))[::-1]
    S = np.array([w[o].sqrt() for o in order], dtype=object)
    if not compute_uv:
        return S
    Vt = np.array([v[:, o] for o in order], dtype=object)
    U = []
    for k, o in enumerate(order):
        if bool(S[k] == 0):
            U.append(None)
        else:
            U.append(np.matmul(a, v[:, o]) / S[k])
    for k in range(n):
        if U[k] is None:
            if n == 1:
                U[k] = lift_arr(np.ones(1))
            elif n == 2 and U[1 - k] is not None:
                o = U[1 - k]
                U[k] = np.array([-o[1], o[0]], dtype=object)
            else:
                e = lift_arr(np.zeros(n))
                e[k] = SymReal.lift(1)
                U[k] = e
    return np.array(U, dtype=object).T, S, Vt


def _norm(orig, x, ord=None, axis=None, keepdims=False):
    x = obj(x)
    if ord in (None, 2, 'fro') and axis is None and (x.ndim == 1 or ord in (None, 'fro')):
        return np.sqrt((x * x).sum())
    if ord in (None, 2) and axis is not None:
        return np.sqrt((x * x).sum(axis=axis, keepdims=keepdims))
    raise SymUnsupported('norm')


def _slogdet(orig, a):
    raise SymUnsupported('slogdet')


def block_diag(orig, *arrs):
    arrs = [np.atleast_2d(obj(a)) for a in arrs]
    out = lift_arr(np.zeros((sum(a.shape[0] for a in arrs), sum(a.shape[1] for a in arrs))))
    r = c = 0
    for a in arrs:
        out[r:r + a.shape[0], c:c + a.shape[1]] = a
        r += a.shape[0]
        c += a.shape[1]
    return out


# ------------------------------------------------------------------ interpolation
class SymInterp1d:
    """scipy.interpolate.interp1d on symbolic nodes / values / queries (last axis)."""

    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False):
        self.x, self.y = obj(np.array(x, dtype=object)), obj(np.array(y, dtype=object))
        self.kind = kind if isinstance(kind, str) else {0: 'zero', 1: 'slinear', 2: 'quadratic', 3: 'cubic'}.get(kind, kind)
        if self.x.ndim != 1:
            raise ValueError('the x array must have exactly one dimension.')
        if self.y.ndim == 0:
            raise ValueError('the y array must have at least one dimension.')
        axis = axis % self.y.ndim
        self.ym = np.moveaxis(self.y, axis, -1)
        self.axis = axis
        if self.ym.shape[-1] != self.x.shape[0]:
            raise ValueError('x and y arrays must be equal in length along interpolation axis.')
        self.bounds_error, self.fill_value = bounds_error, fill_value
        order = list(range(len(self.x)))
        if not assume_sorted:
            order.sort(key=functools.cmp_to_key(lambda a, b: -1 if bool(SymReal.lift(self.x[a]) < self.x[b]) else (1 if bool(SymReal.lift(self.x[a]) > self.x[b]) else 0)))
            self.x = self.x[order]
            self.ym = self.ym[..., order]

    def _weights(self, q):
        """Interpolation weights (length n, lists of SymReal) at one query point."""
        n = len(self.x)
        x = [SymReal.lift(v) for v in self.x]
        q = SymReal.lift(q)
        zero, one = SymReal.lift(0), SymReal.lift(1)
        out = bool(q < x[0]) or bool(q > x[-1])
        if out and not (isinstance(self.fill_value, str) and self.fill_value == 'extrapolate'):
            if self.bounds_error or self.bounds_error is None:
                raise ValueError('A value in x_new is outside the interpolation range.')
            fv = self.fill_value
            if isinstance(fv, tuple):
                return ('fill', fv[0] if bool(q < x[0]) else fv[1])
            return ('fill', fv)
        w = [zero] * n
        if self.kind in ('linear', 'slinear'):
            # scipy: searchsorted(x, q) clipped to 1..n-1
            hi = n - 1
            for k in range(1, n):
                if bool(q <= x[k]):
                    hi = k
                    break
            lo = hi - 1
            t = (q - x[lo]) / (x[hi] - x[lo])
            w[lo] = one - t
            w[hi] = t
            return w
        if self.kind in ('nearest', 'nearest-up'):
            k = n - 1
            for i in range(n - 1):
                mid = (x[i] + x[i + 1]) * Fraction(1, 2)
                if bool(q <= mid) if self.kind == 'nearest' else bool(q < mid):
                    k = i
                    break
            w[k] = one
            return w
        if self.kind in ('previous', 'zero'):
            k = 0
            for i in range(n):
                if bool(q >= x[i]):
                    k = i
            w[k] = one
            return w
        if self.kind == 'next':
            k = n - 1
            for i in range(n):
                if bool(q <= x[i]):
                    k = i
                    break
            w[k] = one
            return w
        # splines: linear in y; with concrete nodes and query the weights are numbers, else uninterpreted
        if all(v.is_const() for v in x) and q.is_const():
            xs = np.array([float(v) for v in x])
            f = ORIG['interp1d'](xs, np.eye(n), kind=self.kind, bounds_error=False, fill_value='extrapolate')
            return [SymReal.lift(float(v)) for v in f(float(q))]
        if all(v.is_const() for v in x):
            xs = np.array([float(v) for v in x])
            res = []
            for i in range(n):
                f = ORIG['interp1d'](xs, np.eye(n)[i], kind=self.kind, bounds_error=False, fill_value='extrapolate')
                res.append(sym.sym_uf(f'{self.kind}[{i}/{n}]@{hash(tuple(xs)) & 0xffffff}', (q,), lambda v, f=f: float(f(v))))
            return res
        raise SymUnsupported(f'{self.kind} interpolation with symbolic nodes')

    def __call__(self, q):
        q = np.asarray(q, dtype=object)
        lead = self.ym.shape[:-1]
        out = np.empty(lead + q.shape, dtype=object)
        for i in np.ndindex(q.shape):
            w = self._weights(q[i])
            if isinstance(w, tuple):
                v = np.empty(lead, dtype=object)
                v[...] = SymReal.lift(w[1]) if not np.ndim(w[1]) else obj(w[1])
            else:
                v = None
                for k, wk in enumerate(w):
                    if isinstance(wk, SymReal) and not wk.num and wk is not NONFINITE:
                        continue
                    t = self.ym[..., k] * wk
                    v = t if v is None else v + t
                if v is None:
                    v = np.empty(lead, dtype=object)
                    v[...] = SymReal.lift(0)
            out[(slice(None),) * len(lead) + i] = v
        if self.axis != self.y.ndim - 1:
            for _ in range(q.ndim):
                out = np.moveaxis(out, len(lead), self.axis) if q.ndim == 1 else out
        return out


def interp(orig, x, xp, fp, left=None, right=None, period=None):
    xs, xp, fp = obj(x), lift_arr(xp), lift_arr(fp)
    out = np.empty(xs.shape, dtype=object)
    for i in np.ndindex(xs.shape):
        q = SymReal.lift(xs[i])
        if bool(q <= xp[0]):
            out[i] = fp[0] if left is None or bool(q == xp[0]) else left
        elif bool(q >= xp[-1]):
            out[i] = fp[-1] if right is None or bool(q == xp[-1]) else right
        else:
            for k in range(1, len(xp)):
                if bool(q <= xp[k]):
                    t = (q - xp[k - 1]) / (xp[k] - xp[k - 1])
                    out[i] = fp[k - 1] + t * (fp[k] - fp[k - 1])
                    break
    return out if out.ndim else _unwrap(out)


# ------------------------------------------------------------------ float()
class _FM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or (CTX.active and isinstance(x, SymReal))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __eq__(cls, o):
        return o is builtins.float or o is SymFloat

    def __hash__(cls):
        return hash(builtins.float)


class SymFloat(metaclass=_FM):
    """Stands in for `float` inside the code under test: leaves symbolic values alone."""
    def __new__(cls, x=0.0):
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            x = x.reshape(-1)[0]
        if CTX.active and isinstance(x, SymReal):
            return x
        return builtins.float(x)

    fromhex = builtins.float.fromhex


def after_import():
    """Give every module of the code under test the stand-in for float()."""
    for name, mod in list(sys.modules.items()):
        if name.startswith(TARGET) and mod is not None:
            mod.__dict__['float'] = SymFloat


def _isfinite1(e):
    if isinstance(e, SymReal):
        return e is not NONFINITE
    return math.isfinite(e)


def _copysign(a, b):
    return abs(SymReal.lift(a)) if bool(SymReal.lift(b) >= 0) else -abs(SymReal.lift(a))


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import scipy.interpolate
    import scipy.integrate
    import scipy.linalg

    def tr(meth):
        def f(e):
            e = SymReal.lift(e)
            return getattr(e, meth)()
        return f
    for n in ('exp', 'log', 'sqrt', 'expm1', 'log1p', 'log10', 'log2', 'tanh', 'sinh', 'cosh', 'exp2', 'sin', 'cos'):
        elementwise(n, tr(n))
    for n in ('rint', 'floor', 'ceil', 'trunc'):
        elementwise(n, tr(n))

    def rnd(orig, a, decimals=0, out=None):
        x = obj(a)
        r = np.empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape):
            r[i] = SymReal.lift(x[i]).round(decimals)
        if out is not None:
            out[...] = r
            return out
        return r if r.ndim else _unwrap(r)
    patch(np, 'round', rnd)
    patch(np, 'around', rnd)
    elementwise('isnan', lambda e: e is NONFINITE if isinstance(e, SymReal) else math.isnan(e))
    elementwise('isinf', lambda e: e is NONFINITE if isinstance(e, SymReal) else math.isinf(e))
    elementwise('isfinite', _isfinite1)
    elementwise('signbit', lambda e: bool(SymReal.lift(e) < 0))
    elementwise('nan_to_num', lambda e: SymReal.lift(0) if e is NONFINITE else SymReal.lift(e))
    for n in ('isnan', 'isinf', 'isfinite', 'signbit'):
        f = getattr(np, n)

        def boolify(x, *a, _f=f, **k):
            r = _f(x, *a, **k)
            if isinstance(r, np.ndarray) and r.dtype == object:
                r = r.astype(bool)
            return r
        setattr(np, n, boolify)

    def heav(orig, x, h):
        x = obj(x)
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape):
            e = SymReal.lift(x[i])
            out[i] = SymReal.lift(0) if bool(e < 0) else (SymReal.lift(1) if bool(e > 0) else SymReal.lift(h))
        return out if out.ndim else _unwrap(out)
    patch(np, 'heaviside', heav)

    def copysign(orig, a, b):
        a, b = np.broadcast_arrays(obj(a), obj(b))
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            out[i] = _copysign(a[i], b[i])
        return out if out.ndim else _unwrap(out)
    patch(np, 'copysign', copysign)

    def hypot(orig, a, b):
        return np.sqrt(obj(a) * obj(a) + obj(b) * obj(b))
    patch(np, 'hypot', hypot)

    def sign(orig, x):
        xa = obj(x)
        out = np.empty(xa.shape, dtype=object)
        for i in np.ndindex(xa.shape):
            e = SymReal.lift(xa[i])
            out[i] = SymReal.lift(1) if bool(e > 0) else (SymReal.lift(-1) if bool(e < 0) else SymReal.lift(0))
        return out if out.ndim else _unwrap(out)
    patch(np, 'sign', sign)

    for n in ('zeros', 'ones', 'empty', 'eye', 'full', 'identity'):
        ctor(n, None)
    for n in ('zeros_like', 'ones_like', 'empty_like', 'full_like'):
        like(n)
    for n in ('array', 'asarray', 'asanyarray', 'ascontiguousarray', 'fromiter'):
        arrayctor(n)
    astype_method()
    patch(np, 'allclose', allclose)
    patch(np, 'isclose', isclose)
    patch(np, 'array_equal', array_equal)
    patch(np, 'where', where)
    patch(np, 'average', average)
    patch(np, 'mean', mean)
    patch(np, 'var', var)

    def cov(orig, m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, **k):
        m = np.atleast_2d(lift_arr(m))
        m = m if rowvar else m.T
        if y is not None or fweights is not None:
            raise SymUnsupported('np.cov with these options')
        n = m.shape[1]
        ddof = (0 if bias else 1) if ddof is None else ddof
        w = lift_arr(np.ones(n) if aweights is None else aweights)
        tot = w.sum()
        d = m - (m * w).sum(axis=1, keepdims=True) / tot
        f = tot - (0 if ddof == 0 else ddof * (w * w).sum() / tot)
        return _unwrap(np.squeeze(np.matmul(d * w, d.T) / f))
    patch(np, 'cov', cov)
    patch(np, 'std', std)
    patch(np, 'linspace', linspace)
    patch(np, 'interp', interp)
    patch(np, 'trapezoid', trapezoid)
    if hasattr(np, 'trapz'):
        patch(np, 'trapz', trapezoid)
    json_boundary()
    L = np.linalg
    patch(L, 'inv', _batched(_inv))
    patch(L, 'pinv', _batched(_pinv))
    patch(L, 'cholesky', _batched(_cholesky))
    patch(L, 'det', _batched(lambda a: _det(lift_arr(a))))
    patch(L, 'eigh', _batched(_eigh))
    patch(L, 'eigvalsh', _batched(lambda a, *r, **k: _eig2(_sym_lower(a))[0]))
    patch(L, 'svd', lambda orig, a, *r, **k: _svd(obj(a), *r, **k))
    patch(L, 'solve', _solve)
    patch(L, 'norm', _norm)
    patch(L, 'slogdet', _slogdet)
    patch(np, 'logaddexp', lambda o, a, b: np.log(np.exp(obj(a)) + np.exp(obj(b))))
    patch(np, 'require', lambda o, a, dtype=None, *r, **k: np.asarray(a, dtype=dtype))
    SL = scipy.linalg
    patch(SL, 'inv', lambda o, a, *r, **k: _inv(obj(a)))
    patch(SL, 'pinv', lambda o, a, *r, **k: _pinv(obj(a)))
    patch(SL, 'cholesky', lambda o, a, lower=False, **k: _cholesky(obj(a)) if lower else _cholesky(obj(a)).T)
    patch(SL, 'solve', lambda o, a, b, **k: _solve(o, a, b))
    patch(SL, 'block_diag', block_diag)

    def cho_solve(o, c_and_lower, b, *r, **k):      # the factor carries its matrix: only the stated triangle is read
        c, lower = c_and_lower
        L = np.tril(obj(c)) if lower else np.triu(obj(c)).T
        return _solve(o, lift_arr(L @ L.T), b)

    def cho_factor(o, a, lower=False, *r, **k):
        L = _cholesky(obj(a) if lower else obj(a).T)
        return (L if lower else L.T), bool(lower)

    def triangular(o, a, b, trans=0, lower=False, unit_diagonal=False, *r, **k):
        m = np.tril(obj(a)) if lower else np.triu(obj(a))
        if unit_diagonal:
            m = lift_arr(m)
            for i in range(len(m)):
                m[i, i] = SymReal.lift(1)
        return _solve(o, lift_arr(m.T if trans in (1, 'T', 2, 'C') else m), b)
    patch(SL, 'cho_factor', cho_factor)
    patch(SL, 'cho_solve', cho_solve)
    patch(SL, 'solve_triangular', triangular)
    patch(SL, 'lu_factor', lambda o, a, *r, **k: (lift_arr(a), None))
    patch(SL, 'lu_solve', lambda o, lu, b, *r, **k: _solve(o, lu[0], b))
    patch(L, 'lstsq', lambda o, a, b, *r, **k: (_solve(o, lift_arr(obj(a).T @ obj(a)), obj(a).T @ obj(b)), None, None, None))
    patch(np, 'float_power', lambda o, a, b: obj(a) ** b)
    patch(SL, 'pinvh', lambda o, a, *r, **k: _pinv(_sym_lower(obj(a))))

    def fmod(o, a, b):      # the sign of the dividend
        a, b = np.broadcast_arrays(obj(a), obj(b))
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            x, y = SymReal.lift(a[i]), abs(SymReal.lift(b[i]))
            out[i] = x % y if bool(x >= 0) else -((-x) % y)
        return out if out.ndim else _unwrap(out)
    patch(np, 'fmod', fmod)
    patch(np, 'divmod', lambda o, a, b: (obj(a) // obj(b), obj(a) % obj(b)))
    for n, f in (('degrees', 180 / math.pi), ('rad2deg', 180 / math.pi), ('radians', math.pi / 180), ('deg2rad', math.pi / 180)):
        patch(np, n, lambda o, a, f=f: obj(a) * f)

    def bincount(o, x, weights=None, minlength=0):
        x = np.asarray(x)
        if hassym(x):
            raise SymUnsupported('np.bincount of symbolic positions')
        out = lift_arr(np.zeros(max(minlength, int(x.max()) + 1 if x.size else 0)))
        for k, w in zip(x.ravel(), np.asarray(weights, dtype=object).ravel()):
            out[int(k)] = out[int(k)] + w
        return out
    patch(np, 'bincount', bincount)

    for n in ('concatenate', 'stack', 'hstack', 'vstack'):
        oj = getattr(np, n)

        def join(arrs, *a, _o=oj, **k):
            if _on() and k.get('dtype') is not None and _isfloatdtype(k['dtype']) and hassym(list(arrs) if not isinstance(arrs, np.ndarray) else arrs):
                k = dict(k, dtype=object)
            return _o(arrs, *a, **k)
        setattr(np, n, functools.wraps(oj, assigned=('__name__', '__doc__'), updated=())(join))

    osub = np.issubdtype

    def issubdtype(a, b):
        if _on() and _target() and isinstance(a, (np.dtype, type)) and np.dtype(a if a is not SymFloat else float) == object:
            a = np.float64
        return osub(a, b)
    np.issubdtype = issubdtype
    osum = np.sum

    def sums(a, *r, **k):
        if _on() and k.get('where') is not None and hassym(a):
            k = dict(k)
            a = np.where(k.pop('where'), a, 0)
        return osum(a, *r, **k)
    np.sum = functools.wraps(osum, assigned=('__name__', '__doc__'), updated=())(sums)
    for mod, names in ((np, ('array', 'asarray', 'asanyarray', 'ascontiguousarray', 'arange', 'linspace', 'tile', 'repeat', 'concatenate', 'hstack',
                             'vstack', 'stack', 'column_stack', 'atleast_1d', 'atleast_2d', 'diag', 'tri', 'tril', 'triu', 'append', 'copy', 'insert',
                             'delete', 'flip', 'roll', 'diagflat', 'block', 'pad', 'resize', 'fromiter', 'outer', 'kron', 'meshgrid')),
                       (scipy.linalg, ('block_diag',))):
        for n in names:
            lifting(mod, n)
    omv = np.vectorize

    class vectorize(omv):
        def __init__(self, pyfunc=np._NoValue, otypes=None, **k):
            if _on() and _target() and otypes is not None:
                otypes = None if isinstance(otypes, str) or all(_isfloatdtype(t) for t in otypes) else otypes
            super().__init__(pyfunc, otypes, **k)
    np.vectorize = vectorize
    pandas_routes()
    patch(SL, 'eigh', lambda o, a, *r, **k: tuple(_eigh(obj(a))))
    patch(SL, 'svd', lambda o, a, *r, **k: _svd(obj(a)))
    patch(scipy.integrate, 'trapezoid', trapezoid)
    patch(scipy.integrate, 'simpson', simpson)
    ORIG['interp1d'] = scipy.interpolate.interp1d
    real = scipy.interpolate.interp1d

    class interp1d_dispatch:
        def __new__(cls, x, y, *a, **k):
            if _on():
                # nodes and values may be plain while the query is symbolic: decide at call time
                return _LazyInterp(real, x, y, a, k)
            return real(x, y, *a, **k)
    scipy.interpolate.interp1d = interp1d_dispatch

    # math
    for n in ('exp', 'log', 'sqrt', 'expm1', 'log1p', 'tanh', 'sinh', 'cosh', 'fabs'):
        def mk(n):
            orig = getattr(math, n)

            def w(x, *a):
                x = _item(x)
                if isinstance(x, SymReal) and not x.is_const():
                    if a:
                        return x.log() / SymReal.lift(a[0]).log()
                    return getattr(x, n)()
                if n == 'sqrt' and _on() and _target() and isinstance(x, (int, float, SymReal)) and x >= 0:
                    return SymReal.lift(x).sqrt()
                return orig(float(x) if isinstance(x, SymReal) else x, *a)
            return w
        setattr(math, n, mk(n))

    def mkf(orig, f):
        def w(x):
            x = _item(x)
            return f(x) if isinstance(x, SymReal) else orig(x)
        return w
    math.isfinite = mkf(math.isfinite, _isfinite1)
    math.isnan = mkf(math.isnan, lambda e: e is NONFINITE)
    math.isinf = mkf(math.isinf, lambda e: e is NONFINITE)
    def mkn(n, f):
        orig = getattr(math, n)

        def w(*a, **k):
            flat = [e for x in a for e in (x if isinstance(x, (list, tuple, np.ndarray)) else [x])] if _on() else ()
            return f(*a, **k) if any(isinstance(e, SymReal) and not e.is_const() for e in flat) else orig(*a, **k)
        setattr(math, n, w)
    mkn('fsum', lambda x: sum(x, SymReal.lift(0)))
    mkn('hypot', lambda *x: sum([SymReal.lift(_item(e)) ** 2 for e in x], SymReal.lift(0)).sqrt())
    mkn('dist', lambda p, q: sum([(SymReal.lift(x) - y) ** 2 for x, y in zip(p, q)], SymReal.lift(0)).sqrt())
    mkn('fmod', lambda x, y: np.fmod(obj([x]), obj([y]))[0])
    for n in ('log10', 'log2', 'exp2'):
        mkn(n, lambda x, n=n: getattr(SymReal.lift(_item(x)), n)())
    mkn('degrees', lambda x: _item(x) * (180 / math.pi))
    mkn('radians', lambda x: _item(x) * (math.pi / 180))
    mkn('pow', lambda a, b: SymReal.lift(_item(a)) ** _item(b))
    oc = math.copysign
    math.copysign = lambda a, b: _copysign(a, b) if isinstance(a, SymReal) or isinstance(b, SymReal) else oc(a, b)
    oi = math.isclose

    def misclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
        if isinstance(a, SymReal) or isinstance(b, SymReal):
            a, b = SymReal.lift(a), SymReal.lift(b)
            d = abs(a - b)
            return bool(d <= abs_tol) or bool(d <= rel_tol * abs(a)) or bool(d <= rel_tol * abs(b))
        return oi(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    math.isclose = misclose


def lifting(mod, name):
    """In a second attempt (CTX.lift) every array of floats the code makes can hold symbolic values."""
    orig = getattr(mod, name)

    def w(*a, **k):
        r = orig(*a, **k)
        if _on() and CTX.lift and _target() and isinstance(r, np.ndarray) and r.dtype.kind == 'f':
            return lift_arr(r)
        return r
    setattr(mod, name, functools.wraps(orig, assigned=('__name__', '__doc__'), updated=())(w))


def pandas_routes():
    """Reductions of columns of symbolic values that pandas hands to compiled code for numbers."""
    import pandas as pd
    from pandas.core import nanops
    on = nanops._ensure_numeric

    def ensure(x):
        return x if _on() and hassym(x) else on(x)
    nanops._ensure_numeric = ensure
    osr, osn = pd.Series.round, pd.Series.nlargest

    def rnd(self, decimals=0, *a, **k):
        if _on() and self.dtype == object and hassym(self.to_numpy()):
            return pd.Series(np.round(self.to_numpy(), decimals), index=self.index, name=self.name, dtype=object)
        return osr(self, decimals, *a, **k)

    def nlargest(self, n=5, keep='first'):
        if _on() and self.dtype == object and hassym(self.to_numpy()):
            return self.sort_values(ascending=False, kind='stable').iloc[:n]
        return osn(self, n, keep)
    pd.Series.round, pd.Series.nlargest = rnd, nlargest
    osm = pd.Series.nsmallest

    def nsmallest(self, n=5, keep='first'):
        if _on() and self.dtype == object and hassym(self.to_numpy()):
            return self.sort_values(kind='stable').iloc[:n]
        return osm(self, n, keep)
    pd.Series.nsmallest = nsmallest


def astype_method():
    """ndarray.astype of arrays that hold symbolic values (the method itself would ask each for a float)."""
    import ctypes
    import gc
    d, = [x for x in gc.get_referents(np.ndarray.__dict__) if isinstance(x, dict)]
    orig = d['astype']
    ORIG['astype'] = orig

    def each(self, f):
        out = np.empty(self.shape, dtype=object)
        for i in np.ndindex(self.shape):
            e = self[i]
            out[i] = f(SymReal.lift(int(bool(e)) if isinstance(e, (SymBool, np.bool_)) else e))
        return out

    def astype(self, dtype, *a, **k):
        if self.dtype != object or not _on() or not symstrict(self):
            return orig(self, dtype, *a, **k)
        dt = np.dtype(object if dtype is SymFloat else dtype)
        if dt.kind == 'b':
            return orig(each(self, lambda e: bool(e != 0)), bool)
        if dt.kind == 'f' and dt.itemsize < 8:
            return each(self, lambda e: sym_short(e, dt))
        if dt.kind in 'iu':
            return each(self, lambda e: sym_round(e, 'trunc'))
        if dt.kind in 'fO':
            return each(self, lambda e: e) if k.get('copy', True) or any(isinstance(e, SymBool) for e in self.flat) else self
        return orig(self, dtype, *a, **k)
    d['astype'] = astype
    ctypes.pythonapi.PyType_Modified(ctypes.py_object(np.ndarray))


def _item(x):
    if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
        return x.reshape(-1)[0]
    return x


class _LazyInterp:
    def __init__(self, real, x, y, a, k):
        self.real, self.xx, self.yy, self.a, self.k = real, x, y, a, k
        self._r = self._s = None
        xs, ys = defloat(np.array(x)), defloat(np.array(y))
        if not symstrict(xs) and not symstrict(ys):
            self._r = real(xs, ys, *a, **k)
        else:
            self._s = SymInterp1d(x, y, *a, **k)

    def __call__(self, q):
        if self._r is not None:
            qd = defloat(np.asarray(q))
            if not symstrict(qd):
                return self._r(qd)
            if self._s is None:
                self._s = SymInterp1d(self.xx, self.yy, *self.a, **self.k)
        if self._s is None:
            self._s = SymInterp1d(self.xx, self.yy, *self.a, **self.k)
        return self._s(q)
