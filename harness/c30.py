from symx.harness import Case
from .cells import *
from .c29 import guess, decode, observations, misfit
import scipy.optimize
from scipy.optimize import OptimizeResult
from moirae.estimators.offline.loss import BaseLoss, MeanSquaredLoss
import moirae.estimators.offline.scipy as target

BOUNDS = ('1 to 4 transients, 0 to 4 estimated health parameters (scalars, lists, nested) out of 4; 3 evaluations at arbitrary points within ±1e6 (in buffers the optimiser '
          'reuses) of an arbitrary loss of any sign, also zero at the start, small and large; one and two fits, reported successful or not; the squared-error loss with 2 records')
ASSUMPTIONS = ['the optimiser is arbitrary: it evaluates the function it is given at points of its choice and returns a solution of its choice',
               'the loss is a function of the candidate (uninterpreted)']


class AnyLoss(BaseLoss):
    def __init__(self, cx, h, x, bound):
        super().__init__(UFCell(cx), h, x, None)
        self.cx, self.bound = cx, bound

    def value(self, row):
        v = self.cx.uf('loss', [list(row)])
        if self.cx.symbolic and self.bound:
            self.cx.assume(v <= self.bound)
            self.cx.assume(v >= -self.bound)
        return v

    def __call__(self, X):
        return self.cx.arr([self.value(r) for r in X])


class Optimiser:
    """Stands for scipy.optimize.minimize."""
    def __init__(self, cx, points, solution, success=True):
        self.success = success
        self.cx, self.points, self.solution = cx, points, solution
        self.values, self.kw, self.x0, self.calls = [], None, None, 0

    def __call__(self, fun, x0, **kw):
        self.calls += 1
        self.x0, self.kw = copy(x0), kw
        buf = copy(x0)
        for p in [self.x0] + self.points + [self.points[0]]:
            buf[...] = p
            self.values.append(np.asarray(fun(buf)).reshape(-1)[0])
            self.cx.eq('point given to the function', buf, p)
        scribble(buf)
        return OptimizeResult(x=copy(self.solution), fun=self.values[-1], success=self.success, message='done', nfev=len(self.values))


def using(opt):
    """Every name by which the code may reach the optimiser."""
    scipy.optimize.minimize = opt
    if hasattr(target, 'minimize'):
        target.minimize = opt


REAL = scipy.optimize.minimize


def multiple(cx, vals, losses):
    """vals are losses times a common positive number."""
    for k in range(len(vals)):
        for j in range(k):
            cx.eq(f'proportional {k} {j}', vals[k] * losses[j], vals[j] * losses[k])
        cx.le(f'sign {k}', cx.const(0), vals[k] * losses[k])
        if cx.branch(losses[k] > 0):
            cx.true(f'not flattened {k}', cx.branch(vals[k] > 0))
        elif cx.branch(losses[k] < 0):
            cx.true(f'not flattened {k}', cx.branch(vals[k] < 0))


def fit(cx, subset, kw, bound=None, fits=1, start_zero=False, nv=1, aux=False, success=True):
    names, h, x = guess(cx, subset, nv, aux)
    snaps = snapshot(h), snapshot(x)
    L = AnyLoss(cx, h, x, bound)
    dim = width(x) + sum(HEALTH[k] for k in names)
    start = cx.arr([z for v in snaps[1].values() for z in v[0]] + [z for k in names for z in snaps[0][k][0]])
    if start_zero:
        if cx.symbolic:
            cx.assume(L.value(start) == 0)
    est = target.ScipyMinimizer(L, **kw)
    h0, x0 = h.model_copy(deep=True), x.model_copy(deep=True)
    for f in range(fits):
        pts = [cx.reals(f'p{f}.{k}', dim, -1e6, 1e6) for k in range(2)]
        sol = cx.reals(f's{f}', dim, -1e6, 1e6)
        opt = Optimiser(cx, pts, sol, success)
        using(opt)
        try:
            state, asoh, res = est.estimate()
        finally:
            using(REAL)
        cx.true('one optimisation', opt.calls == 1)
        cx.eq('start', opt.x0, start)
        cx.true('options', set(opt.kw) == set(kw) and all(opt.kw[k] is kw[k] for k in kw), f'{opt.kw}')
        losses = [L.value(p) for p in [start] + pts + [pts[0]]]
        multiple(cx, opt.values, losses)
        hw, xw = decode(h0, x0, names, list(sol))
        for nm, m, w in (('state', state, xw), ('health', asoh, hw)):
            cx.true(f'{nm}: fields', [p for p, _ in values(m)] == [p for p, _ in values(w)])
            for (p, v), (_, r) in zip(values(m), values(w)):
                cx.eq(f'{nm}.{p}', v, r)
        cx.true('updatable', set(asoh.updatable_names) == set(names))
        cx.eq('solution', res.x, sol)
        cx.true('diagnostic', res.message == 'done' and res.success is success and res.nfev == 4)
        for _, v in values(state) + values(asoh):
            scribble(v)
        for nm, m, s in (('guess health', h, snaps[0]), ('guess state', x, snaps[1]), ('health of the loss', L.asoh, snaps[0]), ('state of the loss', L.state, snaps[1])):
            unchanged(cx, nm, m, s)


def squares(cx, subset='cap'):
    """With the squared-error loss."""
    names, h, x = guess(cx, subset)
    ds, df, rec = observations(cx, 2)
    L = MeanSquaredLoss(cell_model=UFCell(cx), asoh=h, transient_state=x, observations=ds)
    dim = width(x) + sum(HEALTH[k] for k in names)
    opt = Optimiser(cx, [cx.reals('p', dim, -1e6, 1e6)], cx.reals('s', dim, -1e6, 1e6))
    est = target.ScipyMinimizer(L)
    using(opt)
    try:
        est.estimate()
    finally:
        using(REAL)
    cell = UFCell(cx)
    lp, l0 = misfit(cx, cell, *decode(h, x, names, list(opt.points[0])), rec), misfit(cx, cell, h, x, rec)
    cx.eq('proportional', opt.values[1] * l0, opt.values[0] * lp)
    cx.le('sign', cx.const(0), opt.values[1])


def cases(tier):
    out = []

    def add(name, **p):
        p.setdefault('kw', {})
        out.append(Case(name, fit, p, limit=p.pop('limit', 100)))
    opts = [dict(method='Nelder-Mead'), dict(tol=1e-3, options={'maxiter': 3}), dict(bounds=[(0, 1)], method='L-BFGS-B', callback=print, jac=None)]
    for i, sub in enumerate(SUBSETS):
        add(f'parameters-{sub}', subset=sub, kw=opts[i % 3])
    add('no-options', subset='cap')
    for sub in ('cap', 'sub+res', 'none'):
        add(f'failed-{sub}', subset=sub, success=False)
    add('states', subset='res', nv=2, aux=True)
    add('no-rc', subset='none', nv=0)
    add('small', subset='cap', bound=1e-4)
    add('start-zero', subset='cap', start_zero=True)
    add('two-fits', subset='cap', fits=2, limit=300)
    out.append(Case('squares', squares))
    return out
