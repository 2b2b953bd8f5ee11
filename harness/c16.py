from symx.harness import Case
from .common import *
from .kf import *

BOUNDS = ('1 to 3 states, 1 to 2 outputs; every mean in [-5,5], positive definite covariance and noises (L L^T, symbolic lower triangular L, '
          'diagonal of L 0.2..2); alpha in [0.001,1], beta in [0,5], kappa in (-L,5] or automatic or defaults')
ASSUMPTIONS = ['covariances are positive definite']


def sigma(cx, nx, ny, kind, diag):
    m = Shape(nx, ny)
    kw, (al, ka, be) = tuning(cx, kind, 2 * nx + ny)
    mu = cx.reals('mu', nx, -5, 5)
    P, _ = cx.psd('P', nx)
    Q, _ = cx.psd('Q', nx, diag=diag)
    R, _ = cx.psd('R', ny, diag=diag)
    kP, kQ, kR = copy(P), copy(Q), copy(R)
    f = UnscentedKalmanFilter(m, MultivariateGaussian(mean=mu, covariance=P), DeltaDistribution(mean=cx.arr([0.])),
                              covariance_process_noise=Q, covariance_sensor_noise=R, **kw)
    s = f.build_sigma_points()
    n = 2 * nx + ny
    N = 2 * n + 1
    cx.shape('points', s, (N, n))
    wm, wc = f.mean_weights, f.cov_weights
    cx.shape('mean weights', wm, (N,))
    cx.shape('covariance weights', wc, (N,))
    cx.eq('mean weights sum to one', sum(wm[1:], wm[0]), 1)
    cx.eq('first covariance weight', wc[0] - wm[0], 1 - al * al + be)
    for k in range(1, N):
        cx.eq(f'covariance weight {k}', wc[k], wm[k])
    aug = np.concatenate([mu, cx.arr(np.zeros(nx + ny))])
    C = blockdiag(cx, kP, kQ, kR)
    cx.eq('centre', s[0], aug)
    # symmetric about the mean: the points other than the centre pair up
    for k in range(1, n + 1):
        cx.eq(f'pair {k}', s[k] + s[k + n], 2 * aug)
    cx.eq('weighted mean', wsum(cx, wm, s), aug)
    dev = s - wsum(cx, wm, s)
    cx.eq('weighted covariance', outer(cx, wc, dev, dev), C)
    info = assemble_unscented_estimate_from_samples(s, wm, wc)
    cx.eq('assembled mean', info['mean'], aug)
    cx.eq('assembled covariance', info['covariance'], C)
    # spread: the scale of the deviations is alpha^2 (n + kappa)
    x, w, v = f._break_sigma_pts(s)
    cx.eq('states', x, s[:, :nx])
    cx.eq('process noise', w, s[:, nx:2 * nx])
    cx.eq('sensor noise', v, s[:, 2 * nx:])
    cx.eq('mean kept', f.hidden.get_mean(), mu)
    cx.eq('covariance kept', f.hidden.get_covariance(), kP)
    cx.eq('points again', f.build_sigma_points(), s)
    cx.eq('process noise argument', Q, kQ)
    cx.eq('sensor noise argument', R, kR)
    scribble(P)
    scribble(Q)
    scribble(R)
    cx.eq('points after writes to the arguments', f.build_sigma_points(), s)


def moments(cx, N, n):
    """Weighted mean and covariance of any points with any weights that sum to one."""
    w = cx.reals('w', N - 1, -2, 2)
    wm = np.concatenate([cx.arr([1 - sum(w[1:], w[0])]), w])
    wc = cx.reals('c', N, -2, 2)
    s = cx.reals('s', (N, n), -5, 5)
    t = cx.reals('t', (N, 1), -5, 5)
    keep = copy(s), copy(wm), copy(wc)
    info = assemble_unscented_estimate_from_samples(s, wm, wc)
    mu = wsum(cx, wm, s)
    cx.eq('mean', info['mean'], mu)
    cx.eq('covariance', info['covariance'], outer(cx, wc, s - mu, s - mu))
    cx.eq('variance', compute_unscented_covariance(wc, s), outer(cx, wc, s, s))
    cx.eq('cross covariance', compute_unscented_covariance(wc, s, t), outer(cx, wc, s, t))
    for l, a, b in zip(('points', 'mean weights', 'covariance weights'), (s, wm, wc), keep):
        cx.eq(f'{l} kept', a, b)


def admissible(cx, nx, ny, bad):
    """Settings outside the admissible range are refused."""
    lo, hi, key = {'alpha low': (0, 0.0009, 'alpha'), 'alpha high': (1.001, 5, 'alpha'), 'beta': (-5, -0.001, 'beta'),
                   'kappa': (-20, -(2 * nx + ny), 'kappa')}[bad]
    kw = {key + '_param': cx.real('a', lo, hi)}
    P, _ = cx.psd('P', nx)
    cx.raises('refused', AssertionError, lambda: UnscentedKalmanFilter(
        Shape(nx, ny), MultivariateGaussian(mean=cx.reals('mu', nx, -5, 5), covariance=P), DeltaDistribution(mean=cx.arr([0.])), **kw))


def cases(tier):
    out = []
    for nx in (1, 2, 3):
        for ny in (1, 2):
            for kind in ('default', 'automatic', 'free'):
                for diag in (True, False) if tier == 'thorough' or nx < 3 else (nx == 3 and ny == 2,):
                    out.append(Case(f'sigma-{nx}-{ny}-{kind}-{int(diag)}', sigma, dict(nx=nx, ny=ny, kind=kind, diag=diag)))
            for bad in ('alpha low', 'alpha high', 'beta', 'kappa'):
                if nx < 3:
                    out.append(Case(f'refused-{nx}-{ny}-{bad}', admissible, dict(nx=nx, ny=ny, bad=bad), validate=1))
    for N, n in ((3, 1), (5, 2), (7, 2)) + (((9, 3),) if tier == 'thorough' else ()):
        out.append(Case(f'moments-{N}-{n}', moments, dict(N=N, n=n)))
    return out
