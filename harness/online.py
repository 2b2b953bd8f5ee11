"""Estimators around arbitrary filters."""
from .cells import *
from moirae.estimators.online.filters.base import BaseFilter
from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution


class AnyFilter(BaseFilter):
    """A filter whose posterior and predicted output after each step are anything at all."""
    spread = dict(lo=0.2, hi=2.)         # of the diagonal of the factors of its covariances

    def __init__(self, cx, model, hidden, controls, name):
        super().__init__(model, hidden, controls)
        self.cx, self.name = cx, name
        self.calls = []

    def step(self, new_controls, measurements, **kwargs):
        t = len(self.calls)
        nx, ny = self.model.num_hidden_dimensions, self.model.num_output_dimensions
        self.calls.append((type(new_controls), new_controls.get_mean(), type(measurements), measurements.get_mean(), kwargs))
        self.controls = new_controls.model_copy(deep=True)
        self.seen(t)
        P, _ = self.cx.psd(f'{self.name}P{t}', nx, **self.spread)
        S, _ = self.cx.psd(f'{self.name}S{t}', ny, **self.spread)
        self.hidden = MultivariateGaussian(mean=self.cx.reals(f'{self.name}m{t}', nx, -5, 5), covariance=P)
        self.output = MultivariateGaussian(mean=self.cx.reals(f'{self.name}y{t}', ny, -5, 5), covariance=S)
        return self.hidden.model_copy(deep=True), self.output.model_copy(deep=True)

    def seen(self, t):
        pass


def dist(cx, label, got, mean, cov):
    cx.eq(label + ': mean', got.get_mean(), mean)
    cx.eq(label + ': covariance', got.get_covariance(), cov)


def contents(cx, label, m, want):
    """The container holds, as one unbatched member, these values at these names."""
    for p, v in values(m):
        cx.eq(f'{label}: {p}', v, [want[p]])


def expected(snap, names, sizes, vals):
    """A snapshot with the named values replaced by consecutive entries."""
    out = {p: list(v[0]) for p, v in snap.items()}
    at = 0
    for n in names:
        out[n] = list(vals[at:at + sizes[n]])
        at += sizes[n]
    assert at == len(vals)
    return out


def blocks(cx, *ms):
    n = sum(len(m) for m in ms)
    out = np.empty((n, n), dtype=object)
    out[...] = 0.
    at = 0
    for m in ms:
        k = len(m)
        if k:
            out[at:at + k, at:at + k] = m
        at += k
    return cx.arr(out)
