import itertools
from symx.harness import Case
from .common import *
from .c14 import operator, congruence, matrix_of, AbsoluteValueConversionOperator, IdentityConversionOperator
from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution

BOUNDS = ('Gaussian and Delta distributions of dimension 1 to 6; 1 to 3 and 9 distributions combined, the result combined again; conversions: identity, '
          'scalar, vector, full 1x1..3x3 matrices with offsets, absolute value (of some or all coordinates, of any sign), and a conversion that is not linear and has its own inverse; means and covariances of 0 to 3 axes that do not fit; means in [-10,10], covariances L L^T with symbolic L')
ASSUMPTIONS = ['the linear conversion is invertible, |determinant| >= 0.1', 'for the absolute value there and back, means are positive']


def dist(cx, kind, d, pre='', lo=-10, small=0.2):
    m = cx.reals(pre + 'mu', d, lo, 10)
    if kind == 'delta':
        return DeltaDistribution(mean=m), np.array(m, copy=True), cx.arr(np.zeros((d, d)))
    P, _ = cx.psd(pre + 'P', d, small)
    return MultivariateGaussian(mean=m, covariance=P), np.array(m, copy=True), np.array(P, copy=True)


def holds(cx, label, x, m, P):
    cx.eq(f'{label}: mean', x.get_mean(), m)
    cx.eq(f'{label}: covariance', x.get_covariance(), P)
    cx.true(f'{label}: dimensions', x.num_dimensions == len(m), str(x.num_dimensions))


def shake(x):
    """Write to everything a distribution hands out or holds."""
    scribble(x.get_mean())
    scribble(x.get_covariance())


def shake_own(x):
    scribble(x.mean)
    if hasattr(x, 'covariance'):
        scribble(x.covariance)


def convert(cx, kind, op, d, offset):
    x, m, P = dist(cx, kind, d, lo=0.01 if op == 'abs' else -10)
    o = {'identity': IdentityConversionOperator, 'abs': AbsoluteValueConversionOperator}.get(op, lambda: operator(cx, op, d, offset))()
    shake(x)
    holds(cx, 'handed out', x, m, P)
    y = x.convert(o)
    cx.true('type', type(y) is type(x))
    ym = np.array(o.transform_samples(np.array(m, copy=True)), copy=True)
    yP = cx.arr(congruence(matrix_of(cx, o.transform_samples, d), P)) if op != 'abs' else P
    holds(cx, 'converted', y, ym, yP)
    holds(cx, 'original', x, m, P)
    z = y.convert(o, inverse=True)
    holds(cx, 'there and back', z, m, P)
    w = x.convert(conversion_operator=o, inverse=True)
    wm = np.array(o.inverse_transform_samples(np.array(m, copy=True)), copy=True)
    wP = cx.arr(congruence(matrix_of(cx, o.inverse_transform_samples, d), P)) if op != 'abs' else P
    holds(cx, 'converted back', w, wm, wP)
    holds(cx, 'back and there', w.convert(o), m, P)
    for r in (z, w, y):
        shake_own(r)
        holds(cx, 'original after writes to the result', x, m, P)
    y2 = x.convert(o)
    shake_own(x)
    holds(cx, 'result after writes to the original', y2, ym, yP)


class Bent:
    """A conversion that is neither linear nor the same in both directions."""

    @staticmethod
    def make():
        from moirae.estimators.online.filters.conversions import FirstOrderTaylorConversionOperator

        class Op(FirstOrderTaylorConversionOperator):
            def get_jacobian(self, pivot):
                return np.diag(1 + 2 * pivot)

            def get_inverse_jacobian(self, transformed_pivot):
                return np.diag(3 + transformed_pivot * transformed_pivot)

            def transform_samples(self, samples):
                return samples + samples * samples

            def inverse_transform_samples(self, transformed_samples):
                return 3 * transformed_samples + transformed_samples ** 3 / 3

        return Op()


def bent(cx, op, d):
    """Conversions that depend on where they are taken: around the mean that is converted, in both directions."""
    x, m, P = dist(cx, 'gauss', d)
    for i in range(d):
        cx.away(m[i], 0.01)
    if op == 'own':
        o = Bent.make()
        fm, fj = m + m * m, 1 + 2 * m
        im, ij = 3 * m + m * m * m / 3, 3 + m * m
    else:
        on = [i for i in range(d) if op == 'abs' or i in op]
        o = AbsoluteValueConversionOperator(indices=None if op == 'abs' else list(op))
        s = [cx.branch(m[i] > 0) for i in range(d)]
        fj = cx.arr([1. if s[i] or i not in on else -1. for i in range(d)])
        fm = fj * m
        im, ij = m, cx.arr(np.ones(d))
    y = x.convert(o)
    holds(cx, 'converted', y, fm, fj[:, None] * P * fj[None, :])
    holds(cx, 'original', x, m, P)
    holds(cx, 'converted back', x.convert(o, inverse=True), im, ij[:, None] * P * ij[None, :])
    holds(cx, 'original', x, m, P)
    holds(cx, 'converted again', y.convert(conversion_operator=o).convert(IdentityConversionOperator()),
          *((fm + fm * fm, ((1 + 2 * fm) * fj)[:, None] * P * ((1 + 2 * fm) * fj)[None, :]) if op == 'own' else (fm, fj[:, None] * P * fj[None, :])))
    z = DeltaDistribution(mean=np.array(m, copy=True)).convert(o)
    holds(cx, 'exact value', z, fm, cx.arr(np.zeros((d, d))))


def combine(cx, kind, dims, how):
    cx.exactly()
    xs = [dist(cx, kind, d, f'{i}.', small=1e-7) for i, d in enumerate(dims)]
    first, rest = xs[0][0], [x for x, _, _ in xs[1:]]
    arg = tuple(rest) if how == 'tuple' else list(rest) if how == 'list' else (r for r in rest)
    c = first.combine_with(arg)
    n = sum(dims)
    m = np.concatenate([x[1] for x in xs])
    P = np.empty((n, n), dtype=object)
    P[...] = 0.
    at = 0
    for x, d in zip(xs, dims):
        P[at:at + d, at:at + d] = x[2]
        at += d
    P = cx.arr(P)
    cx.true('type', type(c) is type(first))
    holds(cx, 'combined', c, m, P)
    for k, x in enumerate(xs):
        holds(cx, f'operand {k}', *x)
    more, mm, mP = dist(cx, kind, 1, 'more.')
    c2 = c.combine_with([more])
    cx.eq('combined again: mean', c2.get_mean(), np.concatenate([m, mm]))
    holds(cx, 'first combination', c, m, P)
    shake(c)
    holds(cx, 'combination handed out', c, m, P)
    shake_own(c)
    for k, x in enumerate(xs):
        holds(cx, f'operand {k} after writes to the result', *x)
    c3 = first.combine_with(rest)
    for x in xs:
        shake_own(x[0])
    holds(cx, 'combination after writes to the operands', c3, m, P)


def refused(cx, kind, shape, cov):
    """What is no vector is no mean, and a covariance is a square matrix of the size of the mean."""
    m = cx.reals('mu', shape, -10, 10) if shape else cx.arr(cx.real('mu', -10, 10))
    if kind == 'delta':
        return cx.raises('mean', (ValueError, TypeError), lambda: DeltaDistribution(mean=m))
    P = cx.reals('P', cov, 0.1, 10) if cov else cx.arr(cx.real('P', 0.1, 10))
    cx.raises('mean and covariance', (ValueError, TypeError), lambda: MultivariateGaussian(mean=m, covariance=P))


def assigned(cx, d, e):
    """A distribution cannot be given a mean or a covariance that does not fit; one that fits replaces what was there."""
    x, m, P = dist(cx, 'gauss', d)
    m2, P2 = cx.reals('mu2', e, -10, 10), cx.psd('P2', e)[0]
    km, kP = np.array(m2, copy=True), np.array(P2, copy=True)
    if d == e:
        x.mean = m2
        holds(cx, 'other mean', x, km, P)
        x.covariance = P2
        return holds(cx, 'other mean and covariance', x, km, kP)
    cx.raises('mean', ValueError, lambda: setattr(x, 'mean', m2))
    x, _, _ = MultivariateGaussian(mean=np.array(m, copy=True), covariance=np.array(P, copy=True)), None, None
    cx.raises('covariance', ValueError, lambda: setattr(x, 'covariance', P2))
    y = DeltaDistribution(mean=np.array(m, copy=True))
    y.mean = m2
    holds(cx, 'exact value', y, km, cx.arr(np.zeros((e, e))))


def cases(tier):
    out = []
    full = tier == 'thorough'
    for shape in ((), (1, 1), (1, 2), (2, 1), (3, 1), (2, 2), (2, 3), (3, 3), (1, 1, 1), (1, 2, 1), (2, 1, 2)):
        out.append(Case(f'refused-delta-{shape}', refused, dict(kind='delta', shape=shape, cov=None), validate=1))
        n = max(shape, default=1)
        for cov in ((n, n), ()) if len(shape) < 3 else ((n, n),):
            out.append(Case(f'refused-mean-{shape}-{cov}', refused, dict(kind='gauss', shape=shape, cov=cov), validate=1))
    for d in (1, 2, 3):
        for cov in ((), (d,), (d, d + 1), (d + 1, d), (d + 1, d + 1), (1, d, d), (d, d, 1)) + (((1, 1), (d - 1, d - 1), (1, d), (d, 1), (d * d, 1)) if d > 1 else ()):
            out.append(Case(f'refused-covariance-{d}-{cov}', refused, dict(kind='gauss', shape=(d,), cov=cov), validate=1)) if f'refused-covariance-{d}-{cov}' not in [c.name for c in out] else None
        for e in (1, 2, 3):
            out.append(Case(f'assigned-{d}-{e}', assigned, dict(d=d, e=e), validate=1))
    for kind in ('gauss', 'delta'):
        for d in (1, 2, 3):
            for op in ('identity', 'abs', 'default', 'scalar', 'vector', 'matrix'):
                for offset in ('none', 'scalar', 'vector') if op not in ('identity', 'abs') else ('none',):
                    if op == 'matrix' and d == 3 and offset == 'scalar' and not full:
                        continue
                    out.append(Case(f'convert-{kind}-{op}-d={d}-offset={offset}', convert, dict(kind=kind, op=op, d=d, offset=offset), validate=1))
        for op in ('own', 'abs', (0,), (1,), (0, 2)) if kind == 'gauss' else ():
            for d in (1, 2, 3):
                if not isinstance(op, str) and max(op) >= d:
                    continue
                out.append(Case(f'bent-{op}-d={d}', bent, dict(op=op, d=d), validate=1))
        out.append(Case(f'convert-{kind}-wide', convert, dict(kind=kind, op='vector', d=6, offset='vector'), validate=1))
        for dims in [(1,), (2,), (3,), (1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 1, 1), (1, 2, 1), (2, 1, 2), (2, 2, 1), (5, 4), (1,) * 9] + ([(3, 3, 3), (3, 2, 1, 2)] if full else []):
            for how in ('tuple', 'list', 'iterator'):
                out.append(Case(f'combine-{kind}-{dims}-{how}', combine, dict(kind=kind, dims=dims, how=how), validate=1))
    return out
