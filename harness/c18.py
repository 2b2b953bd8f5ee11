from symx.harness import Case
from .common import *
from .kf import *

BOUNDS = ('1 to 2 states, 1 to 2 outputs; any value of an uninterpreted model at every sigma point; the model returns fresh arrays, views of a larger array, '
          'or read-only arrays, or (identity models) its own argument or a part of it, for the states and for the measurement; with and without keyword arguments for the model; means and controls in [-5,5], '
          'positive definite covariance and noises L L^T; three tunings (C16 covers the weights of any other); one step from an arbitrary estimate, two consecutive steps (1 state, 1 output)')
ASSUMPTIONS = ['the predicted output covariance and the posterior covariance are positive definite (C19 covers the repair of others)',
               'the model is a function of its arguments (uninterpreted)']


class Any(Shape):
    """A model that may return anything, in any kind of storage."""
    def __init__(self, cx, nx, ny, storage, ystorage='fresh', kw=False):
        super().__init__(nx, ny)
        self.cx, self.kw = cx, kw
        self.storage = {'x': storage, 'y': ystorage}
        self.calls = []
        self.kept = {}

    def f(self, x, u0, u1, extra):
        if self.storage['x'] == 'itself':
            return list(x)
        return [self.cx.uf(f'f{i}', [x, u0, u1] + extra) for i in range(self.nx)]

    def g(self, x, u, extra):
        if self.storage['y'] in ('itself', 'same'):
            return list(x[:self.ny])
        return [self.cx.uf(f'g{i}', [x, u] + extra) for i in range(self.ny)]

    def put(self, key, given, rows):
        """The values of the rows, in the kind of storage asked for."""
        storage = self.storage[key]
        if storage == 'itself':        # hands back what it was given, or a part of it
            return given if len(rows[0]) == given.shape[1] else given[:, :len(rows[0])]
        out = self.cx.arr(rows)
        if storage == 'view':          # part of a larger array that the model keeps
            big = self.kept.get(key)
            if big is None or big.shape[0] != 2 * out.shape[0]:
                big = self.kept[key] = self.cx.arr(np.zeros((2 * out.shape[0], out.shape[1] + 1)))
            big[::2, 1:] = out
            return big[::2, 1:]
        if storage == 'frozen':        # storage the filter may not write to
            out.flags.writeable = False
        return out

    def update_hidden_states(self, hidden_states, previous_controls, new_controls, **kwargs):
        self.calls.append(('update', copy(hidden_states), copy(previous_controls), copy(new_controls), dict(kwargs)))
        extra = [kwargs['gain']] if self.kw else []
        out = self.put('x', hidden_states, [self.f(x, previous_controls, new_controls, extra) for x in hidden_states])
        self.gave = [(out, copy(out))]
        return out

    def predict_measurement(self, hidden_states, controls, **kwargs):
        self.calls.append(('predict', copy(hidden_states), copy(controls), dict(kwargs)))
        extra = [kwargs['gain']] if self.kw else []
        out = self.put('y', hidden_states, [self.g(x, controls, extra) for x in hidden_states])
        self.gave.append((out, copy(out)))
        return out


def inverse(cx, m):
    if len(m) == 1:
        return cx.arr([[1 / m[0, 0]]])
    d = m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
    return cx.arr([[m[1, 1] / d, -m[0, 1] / d], [-m[1, 0] / d, m[0, 0] / d]])


def mul(cx, a, b):
    return cx.arr([[sum((a[i, k] * b[k, j] for k in range(1, a.shape[1])), a[i, 0] * b[0, j]) for j in range(b.shape[1])] for i in range(a.shape[0])])


def definite(cx, m):
    """Assume the symmetric matrix is positive definite, clearly."""
    cx.assume(m[0, 0] > 0)
    if len(m) == 2:
        cx.assume(m[0, 0] * m[1, 1] - m[0, 1] * m[0, 1] > 0)


def oracle(cx, f, nx, s, wm, wc, u0, u1, z, extra):
    """One step from the sigma points by the definition of the transform."""
    m = f.model
    n = len(s)
    X = cx.arr([[v + w for v, w in zip(m.f(s[k, :nx], u0, u1, extra), s[k, nx:2 * nx])] for k in range(n)])
    mx = wsum(cx, wm, X)
    Y = cx.arr([[v + w for v, w in zip(m.g(X[k], u1, extra), s[k, 2 * nx:])] for k in range(n)])
    my = wsum(cx, wm, Y)
    Pxx, Pyy, Pxy = outer(cx, wc, X - mx, X - mx), outer(cx, wc, Y - my, Y - my), outer(cx, wc, X - mx, Y - my)
    definite(cx, Pyy)
    L = mul(cx, Pxy, inverse(cx, Pyy))
    mean = mx + mul(cx, L, cx.arr([[z[i] - my[i]] for i in range(m.ny)]))[:, 0]
    cov = Pxx - mul(cx, L, Pxy.T)
    definite(cx, cov)
    return X, my, Pyy, mean, cov


def step(cx, nx, ny, nu, storage, ystorage='fresh', kind='default', kw=False, steps=1, diag=True, cut=12, spoil=False):
    cx.cut(cut)
    tkw, _ = tuning(cx, kind, 2 * nx + ny)
    mu = cx.reals('mu', nx, -5, 5)
    P, _ = cx.psd('P', nx, diag=diag)
    Q, _ = cx.psd('Q', nx, diag=True)
    R, _ = cx.psd('R', ny, diag=True)
    model = Any(cx, nx, ny, storage, ystorage, kw=kw)
    u0 = cx.reals('u0', nu, -5, 5)
    h0 = MultivariateGaussian(mean=copy(mu), covariance=copy(P))
    c0 = DeltaDistribution(mean=copy(u0))
    q, r = copy(Q), copy(R)
    f = UnscentedKalmanFilter(model, h0, c0, covariance_process_noise=q, covariance_sensor_noise=r, **tkw)
    if spoil:            # what the filter was made from changes afterwards
        for a in (h0.mean, h0.covariance, c0.mean, q, r):
            scribble(a)
        cx.eq('mean held', f.hidden.get_mean(), mu)
        cx.eq('covariance held', f.hidden.get_covariance(), P)
        cx.eq('controls held', f.controls.get_mean(), u0)
        cx.eq('process noise held', f.cov_w, Q)
        cx.eq('sensor noise held', f.cov_v, R)
    extra = [cx.real('gain', 0, 2)] if kw else []
    kwargs = {'gain': extra[0]} if kw else {}
    prev = u0
    for t in range(steps):
        s = copy(f.build_sigma_points())
        wm, wc = copy(f.mean_weights), copy(f.cov_weights)
        u = cx.reals(f'u{t + 1}', nu, -5, 5)
        z = cx.reals(f'z{t + 1}', ny, -5, 5)
        cu, cz = DeltaDistribution(mean=copy(u)), DeltaDistribution(mean=copy(z))
        X, my, Pyy, mean, cov = oracle(cx, f, nx, s, wm, wc, prev, u, z, extra)
        del model.calls[:]
        got, pred = f.step(cu, cz, **kwargs)
        lab = f'step {t + 1}: '
        cx.true(lab + 'model calls', [c[0] for c in model.calls] == ['update', 'predict'], str([c[0] for c in model.calls]))
        up, pr = model.calls
        cx.eq(lab + 'propagated points', up[1], s[:, :nx])
        cx.eq(lab + 'previous controls', np.reshape(up[2], -1), prev)
        cx.eq(lab + 'new controls', np.reshape(up[3], -1), u)
        cx.eq(lab + 'measured points', pr[1], X)
        cx.eq(lab + 'measured controls', np.reshape(pr[2], -1), u)
        cx.true(lab + 'keywords', set(up[4]) == set(pr[3]) == set(kwargs))
        for k, (a, b) in enumerate(model.gave):
            if model.storage['xy'[k]] in ('view', 'frozen'):       # nobody else has the others
                cx.eq(lab + f'array {k} of the model', a, b)
        cx.eq(lab + 'predicted output', pred.get_mean(), my)
        cx.eq(lab + 'predicted output covariance', pred.get_covariance(), Pyy)
        cx.eq(lab + 'posterior mean', got.get_mean(), mean)
        cx.eq(lab + 'posterior covariance', got.get_covariance(), cov)
        # arguments intact, results independent of the filter
        cx.eq(lab + 'controls argument', cu.get_mean(), u)
        cx.eq(lab + 'measurement argument', cz.get_mean(), z)
        scribble(got.mean)
        scribble(got.covariance)
        scribble(pred.mean)
        scribble(pred.covariance)
        scribble(cu.mean)
        scribble(cz.mean)
        for b in model.kept.values():
            scribble(b)
        cx.eq(lab + 'filter mean', f.hidden.get_mean(), mean)
        cx.eq(lab + 'filter covariance', f.hidden.get_covariance(), cov)
        cx.eq(lab + 'filter controls', f.controls.get_mean(), u)
        prev = u
    if spoil:
        return
    cx.eq('process noise argument', q, Q)
    cx.eq('sensor noise argument', r, R)
    cx.eq('initial mean argument', h0.get_mean(), mu)
    cx.eq('initial covariance argument', h0.get_covariance(), P)
    cx.eq('initial controls argument', c0.get_mean(), u0)


def cases(tier):
    out = []
    for storage, ystorage in (('fresh', 'fresh'), ('view', 'fresh'), ('itself', 'fresh'), ('itself', 'same'), ('frozen', 'fresh')):
        for nx, ny in ((1, 1), (2, 1), (1, 2)) + (((2, 2),) if ystorage == 'same' else ()):
            if ystorage == 'same' and ny > nx:
                continue
            out.append(Case(f'step-{nx}-{ny}-{storage}-{ystorage}', step, dict(nx=nx, ny=ny, nu=1, storage=storage, ystorage=ystorage)))
    # the measurement is not a fresh array: see KNOWN_FINDINGS.txt
    for ystorage in ('itself', 'view', 'frozen'):
        out.append(Case(f'measurement-storage-{ystorage}', step, dict(nx=1, ny=1, nu=1, storage='fresh', ystorage=ystorage)))
    for nx, ny in ((1, 1), (2, 1), (1, 2)):
        out.append(Case(f'keywords-{nx}-{ny}', step, dict(nx=nx, ny=ny, nu=2, storage='fresh', kw=True)))
    out.append(Case('correlated-2-1', step, dict(nx=2, ny=1, nu=2, storage='fresh', diag=False)))
    for nx, ny in ((1, 1), (2, 1), (1, 2)):
        for kind in ('fixed', 'spread'):
            out.append(Case(f'tuning-{nx}-{ny}-{kind}', step, dict(nx=nx, ny=ny, nu=1, storage='view', kind=kind)))
    for storage in ('fresh', 'view', 'frozen'):
        out.append(Case(f'two-steps-{storage}', step, dict(nx=1, ny=1, nu=1, storage=storage, steps=2)))
    for nx, ny in ((1, 1), (1, 2)):
        out.append(Case(f'made-from-{nx}-{ny}', step, dict(nx=nx, ny=ny, nu=2, storage='fresh', spoil=True, steps=3 - ny)))
    out.append(Case('two-steps-identity', step, dict(nx=1, ny=1, nu=1, storage='itself', ystorage='same', steps=2)))
    return out
