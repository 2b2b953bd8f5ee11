from symx.harness import Case
from .common import *
from moirae.estimators.online.filters.conversions import (IdentityConversionOperator, LinearConversionOperator, AbsoluteValueConversionOperator,
                                                          FirstOrderTaylorConversionOperator)

BOUNDS = ('dimensions 1 to 3, without matrices also 6 and 9; scale factors 1e-7..1e7 or negative (scalar, vector), full matrices with entries in [-3,3]; offsets, samples and '
          'pivots in [-10,10]; covariances L L^T with symbolic L; one point, batches of 1, 2 and 40; every index subset for the absolute value, also counted from the end')
ASSUMPTIONS = ['the linear map is invertible, |determinant| >= 0.1', 'pivots of the absolute value are not zero where its derivative is taken']


def operator(cx, kind, d, offset):
    kw = {}
    if offset == 'vector':
        kw['additive_array'] = cx.reals('b', d, -10, 10)
    elif offset == 'scalar':
        kw['additive_array'] = cx.reals('b', 1, -10, 10)
    if kind == 'scalar':
        kw['multiplicative_array'] = cx.arr(nonzero(cx, 'm'))
    elif kind == 'vector':
        kw['multiplicative_array'] = cx.arr([nonzero(cx, f'm{i}') for i in range(d)])
    elif kind == 'matrix':
        m = cx.reals('m', (d, d), -3, 3)
        cx.away(determinant(m), 0.1)
        kw['multiplicative_array'] = m
    elif kind == 'rotation':       # orthogonal columns with different lengths
        a, b = cx.real('ma', 0.2, 2), cx.real('mb', -2, 2)
        kw['multiplicative_array'] = cx.arr([[a, -b], [b, a]])
    return LinearConversionOperator(**kw)


def nonzero(cx, n):
    x = cx.real(n, -1e7, 1e7)
    cx.assume_any(x >= 1e-7, x <= -1e-7)
    return x


def determinant(m):
    d = len(m)
    if d == 1:
        return m[0, 0]
    if d == 2:
        return m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
    return (m[0, 0] * (m[1, 1] * m[2, 2] - m[1, 2] * m[2, 1]) - m[0, 1] * (m[1, 0] * m[2, 2] - m[1, 2] * m[2, 0])
            + m[0, 2] * (m[1, 0] * m[2, 1] - m[1, 1] * m[2, 0]))


def matrix_of(cx, f, d):
    """The linear part of an affine map of points, row i being the image of the i-th unit vector."""
    z = f(cx.arr(np.zeros(d)))
    return [[f(cx.arr(np.eye(d)[i]))[j] - z[j] for j in range(len(z))] for i in range(d)]


def congruence(m, p):
    """Covariance of x M for x of covariance p, from the definition."""
    d, e = len(m), len(m[0])
    return [[sum(m[i][a] * p[i, j] * m[j][b] for i in range(d) for j in range(d)) for b in range(e)] for a in range(e)]


def samples(cx, op, d, B, lo=-10, back=True):
    x = cx.reals('x', (B, d) if B else (d,), lo, 10)
    keep = np.array(x, copy=True)
    y = op.transform_samples(x)
    cx.eq('argument', x, keep)
    ky = np.array(y, copy=True)
    cx.shape('converted', y, x.shape)
    if back:
        z = op.inverse_transform_samples(y)
        cx.eq('there and back', z, keep)
        cx.eq('converted argument', y, ky)
        w = op.transform_samples(op.inverse_transform_samples(np.array(keep, copy=True)))
        cx.eq('back and there', w, keep)
    for b in range(B):
        cx.eq(f'point {b} alone', op.transform_samples(np.array(keep[b], copy=True)), ky[b])
        cx.eq(f'row {b} alone', op.transform_samples(np.array(keep[b:b + 1], copy=True)), ky[b:b + 1])
        cx.eq(f'point {b} alone, inverse', op.inverse_transform_samples(np.array(ky[b], copy=True)), op.inverse_transform_samples(ky)[b])
    return keep, ky


def linear_points(cx, kind, d, offset, B):
    samples(cx, operator(cx, kind, d, offset) if kind != 'identity' else IdentityConversionOperator(), d, B)


def linear_cov(cx, kind, d, offset):
    op = operator(cx, kind, d, offset) if kind != 'identity' else IdentityConversionOperator()
    P, L = cx.psd('p', d)
    keep = np.array(P, copy=True)
    piv = cx.reals('piv', d, -10, 10)
    C = op.transform_covariance(P, piv)
    cx.eq('argument', P, keep)
    cx.eq('covariance of the converted variable', C, cx.arr(congruence(matrix_of(cx, op.transform_samples, d), keep)))
    kc = np.array(C, copy=True)
    cx.eq('there and back', op.inverse_transform_covariance(C, op.transform_samples(piv)), keep)
    cx.eq('converted argument', C, kc)
    D = op.inverse_transform_covariance(P, piv)
    cx.eq('covariance of the variable converted back', D, cx.arr(congruence(matrix_of(cx, op.inverse_transform_samples, d), keep)))
    cx.eq('argument after', P, keep)
    cx.eq('back and there', op.transform_covariance(D, piv), keep)
    cx.eq('keywords', op.transform_covariance(covariance=P, pivot=piv), kc)
    for i in range(d):
        for j in range(i):
            cx.eq(f'symmetric {i},{j}', C[i, j], C[j, i])
            cx.eq(f'symmetric inverse {i},{j}', D[i, j], D[j, i])


def absolute_points(cx, d, idx, B):
    op = AbsoluteValueConversionOperator() if idx is None else AbsoluteValueConversionOperator(indices=idx)
    on = range(d) if idx is None else [i % d for i in idx]
    x = cx.reals('x', (B, d) if B else (d,), -10, 10)
    keep = np.array(x, copy=True)
    y = op.transform_samples(x)
    cx.shape('converted', y, x.shape)
    for i in np.ndindex(*x.shape):
        cx.eq(f'value {i}', y[i], cx.abs(keep[i]) if i[-1] in on else keep[i])
    cx.eq('argument', x, keep)
    scribble(y)
    cx.eq('argument after writing to the result', x, keep)
    for b in range(B):
        cx.eq(f'point {b} alone', op.transform_samples(np.array(keep[b], copy=True)), op.transform_samples(keep)[b])


def absolute_back(cx, d, idx, B):
    op = AbsoluteValueConversionOperator() if idx is None else AbsoluteValueConversionOperator(indices=idx)
    samples(cx, op, d, B, lo=0)


def absolute_cov(cx, d, idx, back):
    op = AbsoluteValueConversionOperator() if idx is None else AbsoluteValueConversionOperator(indices=idx)
    on = range(d) if idx is None else [i % d for i in idx]
    P, L = cx.psd('p', d)
    keep = np.array(P, copy=True)
    piv = cx.reals('piv', d, 0.01 if back else -10, 10)
    for i in on:
        cx.assume_any(piv[i] >= 0.01, piv[i] <= -0.01)
    kp = np.array(piv, copy=True)
    sg = [(1 if cx.branch(piv[i] > 0) else -1) if i in on else 1 for i in range(d)]
    C = op.transform_covariance(P, piv)
    cx.eq('covariance of the converted variable', C, cx.arr([[sg[i] * sg[j] * keep[i, j] for j in range(d)] for i in range(d)]))
    D = op.inverse_transform_covariance(C, op.transform_samples(piv))
    if back:
        cx.eq('there and back', D, keep)
    cx.eq('argument', P, keep)
    cx.eq('pivot', piv, kp)


class Own(FirstOrderTaylorConversionOperator):
    """A user's conversion: any derivative matrix at any pivot."""
    f: object = None
    g: object = None

    def get_jacobian(self, pivot):
        return self.f(pivot)

    def get_inverse_jacobian(self, transformed_pivot):
        return self.g(transformed_pivot)

    def transform_samples(self, samples):
        return samples

    def inverse_transform_samples(self, samples):
        return samples


def taylor(cx, d, e):
    """Covariances are carried by the derivative the conversion reports at the pivot given."""
    def mat(name, r, c):
        return lambda p: cx.arr([[cx.uf(f'{name}{i}{j}', [p]) for j in range(c)] for i in range(r)])
    op = Own(f=mat('j', d, e), g=mat('k', e, d))
    P, _ = cx.psd('p', d)
    Q, _ = cx.psd('q', e)
    p, q = cx.reals('pp', d, -3, 3), cx.reals('qq', e, -3, 3)
    kP, kQ = np.array(P, copy=True), np.array(Q, copy=True)
    cx.eq('covariance', op.transform_covariance(P, p), cx.arr(congruence(mat('j', d, e)(p), kP)))
    cx.eq('inverse', op.inverse_transform_covariance(Q, q), cx.arr(congruence(mat('k', e, d)(q), kQ)))
    cx.eq('argument', P, kP)
    cx.eq('inverse argument', Q, kQ)


def cases(tier):
    out = []
    full = tier == 'thorough'
    for d in (1, 2, 3):
        for kind in ('identity', 'default', 'scalar', 'vector', 'matrix', 'rotation'):
            if kind == 'rotation' and d != 2:
                continue
            for offset in ('none', 'scalar', 'vector'):
                if kind == 'identity' and offset != 'none':
                    continue
                for B in (0, 1, 2):
                    if kind == 'matrix' and d == 3 and B == 2 and not full:
                        continue
                    out.append(Case(f'points-{kind}-d={d}-offset={offset}-B={B}', linear_points, dict(kind=kind, d=d, offset=offset, B=B), validate=1))
                if kind == 'matrix' and d == 3 and offset != 'vector' and not full:
                    continue
                out.append(Case(f'cov-{kind}-d={d}-offset={offset}', linear_cov, dict(kind=kind, d=d, offset=offset), validate=1))
        subs = [None] + [[i for i in range(d) if k >> i & 1] for k in range(2 ** d)] + ([[d - 1, 0], [-1], [0, -1]] if d > 1 else [[-1]])
        for idx in subs:
            for B in (0, 1, 2):
                if d == 3 and B == 2 and (idx is None or len(idx) == 3) and not full:
                    continue
                out.append(Case(f'abs-d={d}-{idx}-B={B}', absolute_points, dict(d=d, idx=idx, B=B), validate=1))
                out.append(Case(f'absback-d={d}-{idx}-B={B}', absolute_back, dict(d=d, idx=idx, B=B), validate=1))
            for back in (False, True):
                out.append(Case(f'abscov-d={d}-{idx}-{int(back)}', absolute_cov, dict(d=d, idx=idx, back=back), validate=1))
    for kind in ('scalar', 'vector', 'matrix'):
        out.append(Case(f'points-{kind}-many', linear_points, dict(kind=kind, d=2, offset='vector', B=40), validate=1))
    for kind in ('scalar', 'vector'):
        out.append(Case(f'points-{kind}-wide', linear_points, dict(kind=kind, d=9, offset='vector', B=2), validate=1))
        out.append(Case(f'cov-{kind}-wide', linear_cov, dict(kind=kind, d=6, offset='vector'), validate=1))
    for d, e in ((1, 1), (2, 2), (3, 3), (1, 2), (2, 1), (3, 2)):
        out.append(Case(f'taylor-{d}-{e}', taylor, dict(d=d, e=e), validate=1))
    return out
