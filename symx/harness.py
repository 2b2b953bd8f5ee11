"""The two faces of a harness: SymCx runs it on symbolic values, ConcCx on floats against the unpatched code."""
import math
import random

import numpy as np


class Case:
    def __init__(self, name, fn, params=None, limit=240, max_paths=3000, assert_ms=None, validate=2):
        self.name, self.fn, self.params = name, fn, dict(params or {})
        self.limit, self.max_paths, self.assert_ms, self.validate = limit, max_paths, assert_ms, validate


class CheckFailed(BaseException):
    def __init__(self, label, detail=''):
        self.label, self.detail = label, detail


class Skip(BaseException):
    pass


def _flat(x):
    a = np.asarray(x, dtype=object) if not isinstance(x, np.ndarray) else x
    return a


# generic smooth functions that stand for uninterpreted ones in concrete runs
def generic(name, args):
    h = 0
    for ch in name:
        h = (h * 131 + ord(ch)) % 1000003
    r = random.Random(h)
    s = r.uniform(0.2, 1.0)
    for k, a in enumerate(args):
        w1, w2, p = r.uniform(0.3, 1.2), r.uniform(0.1, 0.6), r.uniform(0, 3)
        if r.random() < 0.5:
            w1 = -w1
        a = float(a)
        s += w1 * a + w2 * math.sin(0.7 * a + p)
    return s


def generic_pos(name, args):
    g = generic(name, args)
    return 0.5 + math.log1p(math.exp(-abs(g))) + max(g, 0.)


class Cx:
    """Shared conveniences."""
    def reals(self, name, shape, lo=None, hi=None):
        if isinstance(shape, int):
            shape = (shape,)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            out[i] = self.real(name + ''.join(f'_{k}' for k in i), lo, hi)
        return self.arr(out)

    def nonzero(self, name, lo, hi, gap):
        """lo <= x <= hi with |x| >= gap or x == 0."""
        x = self.real(name, lo, hi)
        self.assume_any(x == 0, x >= gap, x <= -gap)
        return x

    def away(self, x, gap):
        """|x| >= gap, one path for each sign."""
        if self.branch(x > 0):
            self.assume(x >= gap)
        else:
            self.assume(x < 0)
            self.assume(x <= -gap)

    def psd(self, name, n, lo=0.2, hi=2., off=1.0, diag=False):
        """A positive definite matrix L L^T with symbolic L; returns (P, L)."""
        L = np.empty((n, n), dtype=object)
        L[...] = 0.
        for i in range(n):
            for j in range(i + 1):
                if i == j:
                    L[i, j] = self.real(f'{name}_{i}{j}', lo, hi)
                elif not diag:
                    L[i, j] = self.real(f'{name}_{i}{j}', -off, off)
        L = self.arr(L)
        return self.arr(L.dot(L.T)), L

    def exactly(self):
        """From here on values are only copied: concrete runs compare them without tolerance."""

    def same(self, label, a, b):
        self.true(label, a == b, f'{a!r} != {b!r}')

    def shape(self, label, a, shape):
        self.true(label + ' shape', tuple(np.shape(a)) == tuple(shape), f'shape {np.shape(a)} instead of {tuple(shape)}')


class SymCx(Cx):
    symbolic = True

    def __init__(self, eng):
        from . import sym
        self.s = sym
        self.eng = eng
        self.obs = []

    def real(self, name, lo=None, hi=None):
        return self.s.new_input(name, lo, hi)

    def arr(self, x):
        a = np.array(x, dtype=object)
        from .patch import lift_arr
        return lift_arr(a)

    def const(self, x):
        return self.s.SymReal.lift(x)

    # ---- assumptions
    def assume(self, cond):
        if isinstance(cond, np.ndarray):
            cond = cond.reshape(-1)[0]
        if not isinstance(cond, self.s.SymBool):
            if not cond:
                raise self.s.PathAbort()
            return
        self.eng.assume(cond)

    def assume_any(self, *conds):
        r = conds[0]
        for c in conds[1:]:
            if r is True or c is True:
                r = True
            elif r is False:
                r = c
            elif c is False:
                pass
            else:
                r = self.s.SymBool(('or', r, c))
        self.assume(r)

    def branch(self, cond):
        return bool(cond)

    def cut(self, terms):
        """From here on, products name operands of more than that many terms by a variable equal to them."""
        self.s.CTX.cut = terms

    # ---- functions
    def exp(self, x):
        return self.s.SymReal.lift(x).exp()

    def log(self, x):
        return self.s.SymReal.lift(x).log()

    def sqrt(self, x):
        return self.s.SymReal.lift(x).sqrt()

    def abs(self, x):
        return abs(self.s.SymReal.lift(x))

    def uf(self, name, args, positive=False):
        args = [a for x in args for a in np.asarray(x, dtype=object).reshape(-1)]
        g = generic_pos if positive else generic
        return self.s.sym_uf(name, args, lambda *v: g(name, v), positive)

    # ---- assertions
    def _lift(self, x):
        if isinstance(x, np.ndarray) and x.ndim == 0:
            x = x.item()
        r = self.s.SymReal.lift(x)
        if r is NotImplemented:
            raise TypeError(f'not a number: {x!r}')
        return r

    def _pair(self, label, a, b):
        A, B = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        if A.shape != B.shape:
            if A.size == 1 and B.size == 1:
                A, B = A.reshape(()), B.reshape(())
            else:
                self.true(label + ' shape', False, f'shape {A.shape} instead of {B.shape}')
        return [(self._lift(x), self._lift(y)) for x, y in zip(A.flat, B.flat)]

    def eq(self, label, a, b, tol=None):
        ps = self._pair(label, a, b)
        if self.eng.follow is not None:
            f = self.eng.follow
            self.obs.append((label, [x.ev(f) for x, _ in ps], [y.ev(f) for _, y in ps]))
            return
        self.eng.prove_eq(label, ps)

    def le(self, label, a, b, tol=None):
        A, B = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        ps = [(self._lift(x), self._lift(y)) for x, y in zip(A.flat, B.flat)]
        if self.eng.follow is not None:
            f = self.eng.follow
            self.obs.append((label, [x.ev(f) for x, _ in ps], [y.ev(f) for _, y in ps]))
            return
        self.eng.prove_le(label, ps)

    def true(self, label, cond, detail=''):
        if isinstance(cond, np.ndarray):
            cond = bool(cond.all())
        if self.eng.follow is not None:
            self.obs.append((label, [float(bool(cond))], [1.]))
            return
        if isinstance(cond, self.s.SymBool):
            self.eng.prove_true(label, cond)
            return
        self.eng.stats.add('assertions')
        self.eng.stats.add('assertions_ground')
        if not cond:
            self.eng.fail(label, detail)

    def observe(self, label, x):
        if self.eng.follow is not None:
            A = np.asarray(x, dtype=object)
            v = [self._lift(e).ev(self.eng.follow) for e in A.flat]
            self.obs.append((label, v, v))

    def raises(self, label, exc, fn):
        try:
            fn()
        except exc:
            self.true(label, True)
            return
        self.true(label, False, 'nothing was raised')

    def num(self, x):
        """For messages only."""
        return x


class ConcCx(Cx):
    symbolic = False

    def __init__(self, asg=None, rng=None, table=None):
        self.asg = dict(asg or {})
        self.rng = rng
        self.used = {}
        self.obs = []
        self.table = table or []
        self.tol = 1e-6
        self.noise = 1e-9

    def exactly(self):
        self.tol = self.noise = 0.

    def real(self, name, lo=None, hi=None):
        v = self.asg.get(name)
        if v is None:
            l = lo if lo is not None else (-3. if hi is None or hi > -3 else hi - 6)
            h = hi if hi is not None else max(l, 0) + 3.
            if self.rng is None:
                v = (l + h) / 2 if not (l < 0 < h) else 0.37 * h
            else:
                u = self.rng.random()
                if u < 0.06 and l <= 0 <= h:
                    v = 0.
                elif u < 0.10:
                    v = l
                elif u < 0.14:
                    v = h
                else:
                    v = self.rng.uniform(l, h)
        v = float(v)
        if lo is not None and v < lo:
            v = float(lo)
        if hi is not None and v > hi:
            v = float(hi)
        self.used[name] = v
        return v

    def arr(self, x):
        return np.array(x, dtype=float)

    def const(self, x):
        return float(x)

    def assume(self, cond):
        if isinstance(cond, np.ndarray):
            cond = bool(cond.all())
        if not cond:
            raise Skip()

    def assume_any(self, *conds):
        if not any(bool(c) for c in conds):
            raise Skip()

    def branch(self, cond):
        return bool(cond)

    def cut(self, terms):
        pass

    def exp(self, x):
        return math.exp(x)

    def log(self, x):
        return math.log(x)

    def sqrt(self, x):
        return math.sqrt(max(float(x), 0.))

    def abs(self, x):
        return abs(x)

    def uf(self, name, args, positive=False):
        args = [float(a) for x in args for a in np.asarray(x, dtype=float).reshape(-1)]
        for n, av, val in self.table:
            if n == name and len(av) == len(args) and all(abs(p - q) <= 1e-7 * (1 + abs(p)) for p, q in zip(args, av)):
                return val
        return (generic_pos if positive else generic)(name, args)

    @staticmethod
    def _num(x):
        return np.asarray(x, dtype=float)

    def eq(self, label, a, b, tol=None):
        A, B = self._num(a), self._num(b)
        if A.shape != B.shape:
            if A.size == 1 and B.size == 1:
                A, B = A.reshape(()), B.reshape(())
            else:
                raise CheckFailed(label + ' shape', f'shape {A.shape} instead of {B.shape}')
        self.obs.append((label, [float(v) for v in A.flat], [float(v) for v in B.flat]))
        for i in np.ndindex(A.shape):
            x, y = float(A[i]), float(B[i])
            if not (math.isfinite(x) and math.isfinite(y)):
                raise CheckFailed(label, f'{x!r} instead of {y!r} at {i}')
            if abs(x - y) > (tol or self.tol) * max(abs(x), abs(y)) + self.noise:
                # absolute noise of differences of large entries of the same object
                scale = max(np.max(np.abs(A)), np.max(np.abs(B)))
                if abs(x - y) > self.noise * scale + (tol or self.tol) * max(abs(x), abs(y)):
                    raise CheckFailed(label, f'{x!r} instead of {y!r} at {i}')

    def le(self, label, a, b, tol=None):
        A, B = np.broadcast_arrays(self._num(a), self._num(b))
        self.obs.append((label, [float(v) for v in A.flat], [float(v) for v in B.flat]))
        for i in np.ndindex(A.shape):
            x, y = float(A[i]), float(B[i])
            if not (math.isfinite(x) and math.isfinite(y)):
                raise CheckFailed(label, f'{x!r} <= {y!r} at {i}')
            if x - y > 1e-8 + self.tol * max(abs(x), abs(y)):
                raise CheckFailed(label, f'{x!r} > {y!r} at {i}')

    def true(self, label, cond, detail=''):
        c = bool(np.all(cond))
        self.obs.append((label, [float(c)], [1.]))
        if not c:
            raise CheckFailed(label, detail)

    def observe(self, label, x):
        v = [float(e) for e in self._num(x).flat]
        self.obs.append((label, v, v))

    def raises(self, label, exc, fn):
        try:
            fn()
        except exc:
            self.true(label, True)
            return
        self.true(label, False, 'nothing was raised')

    def num(self, x):
        return float(x)
