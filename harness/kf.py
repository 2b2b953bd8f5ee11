"""Models and filters shared by the harnesses of the unscented filter."""
import numpy as np
from moirae.estimators.online.filters.base import ModelWrapper
from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution
from moirae.estimators.online.filters.kalman.unscented import (UnscentedKalmanFilter, assemble_unscented_estimate_from_samples,
                                                               compute_unscented_covariance)


class Shape(ModelWrapper):
    """Dimensions only."""
    def __init__(self, nx, ny):
        super().__init__()
        self.nx, self.ny = nx, ny

    @property
    def num_hidden_dimensions(self):
        return self.nx

    @property
    def num_output_dimensions(self):
        return self.ny


def tuning(cx, kind, aug):
    if kind == 'default':
        return {}, (1, 0, 2)
    if kind == 'fixed':
        return dict(alpha_param=0.5, beta_param=3., kappa_param=1.), (cx.const(0.5), 1, 3)
    if kind == 'spread':
        return dict(alpha_param=0.25, beta_param=0., kappa_param='automatic'), (cx.const(0.25), 3 - aug, 0)
    a = cx.real('alpha', 0.001, 1) if kind != 'wide' else cx.real('alpha', 0.1, 1)
    b = cx.real('beta', 0, 5)
    if kind == 'automatic':
        return dict(alpha_param=a, beta_param=b, kappa_param='automatic'), (a, 3 - aug, b)
    k = cx.real('kappa', -aug + 0.01, 5) if kind != 'wide' else cx.real('kappa', 0, 5)
    return dict(alpha_param=a, beta_param=b, kappa_param=k), (a, k, b)


def outer(cx, w, a, b):
    """sum_k w_k a_k b_k^T, from the definition."""
    n = len(w)
    return cx.arr([[sum((w[k] * a[k, i] * b[k, j] for k in range(n)), 0 * w[0]) for j in range(b.shape[1])] for i in range(a.shape[1])])


def wsum(cx, w, a):
    return cx.arr([sum((w[k] * a[k, i] for k in range(len(w))), 0 * w[0]) for i in range(a.shape[1])])


def blockdiag(cx, *ms):
    n = sum(len(m) for m in ms)
    out = np.empty((n, n), dtype=object)
    out[...] = 0.
    at = 0
    for m in ms:
        out[at:at + len(m), at:at + len(m)] = m
        at += len(m)
    return cx.arr(out)


def copy(a):
    return np.array(a, copy=True)
