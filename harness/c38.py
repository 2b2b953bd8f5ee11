from symx.harness import Case
from .cells import *
from .common import member
from .c24 import build
from .c26 import Noting, interface
from .c29 import misfit
from .online import *
from moirae.simulator import Simulator
from moirae.estimators.offline.loss import MeanSquaredLoss
from moirae.estimators.online.joint import JointEstimator
from moirae.estimators.online.dual import DualEstimator
from moirae.estimators.online.utils.model import JointCellModelWrapper, CellModelWrapper, DegradationModelWrapper

BOUNDS = ('simulations of 0 to 3 and 8 steps of 1 to 4 members, batched in inputs, states, health or several of them, with temperatures; 1 to 3 '
          'transients, 4 health parameters of which 0 to 4 are estimated; arbitrary cell model, the circuit model for one step; joint and dual estimators around filters with '
          'arbitrary posteriors; datasets with and without the extra columns')
ASSUMPTIONS = ['the cell model is a function of its arguments (uninterpreted)', 'no degradation in the simulations which are fitted (a fit assumes constant health)']


def simulation(cx, steps, batch, nb, nv, aux, evolve, names=()):
    h, x, us = build(cx, nv=nv, aux=aux, batch=batch, nb=nb, temp=True, steps=steps)
    for n in names:
        h.mark_updatable(n)
    sim = Simulator(cell_model=UFCell(cx), asoh=h, transient_state=x, initial_input=us[0], keep_history=True)
    ys = [sim.measurement.model_copy(deep=True)]
    if evolve:
        ys += [y.model_copy(deep=True) for y in sim.evolve(us[1:])]
    else:
        for u in us[1:]:
            ys.append(sim.step(u)[1].model_copy(deep=True))
    return h, x, us, ys, sim


def start(cx, h, x, b, names):
    """The vector of candidate values of member b of the simulation."""
    return flat(x, b) + [e for p, v in values(h) if p in names for e in np.asarray(pick(v, b), dtype=object).reshape(-1)]


def fitted(cx, steps=2, batch=(), nb=2, nv=1, aux=False, subset='all', evolve=False, extra_columns=False):
    """The values a simulation was made with explain its data perfectly, and any others as well as the misfit says."""
    names = SUBSETS[subset]
    h, x, us, ys, sim = simulation(cx, steps, batch, nb, nv, aux, evolve, names)
    B = nb if batch else 1
    data = sim.to_batdata(extra_columns=extra_columns)
    cx.true('a dataset per member', len(data) == B, str(len(data)))
    for b, ds in enumerate(data):
        guess_h, guess_x = member(h, b), member(x, b)
        right = start(cx, h, x, b, [n for n in HEALTH if n in names])
        L = MeanSquaredLoss(cell_model=UFCell(cx), asoh=guess_h, transient_state=guess_x, observations=ds)
        cx.eq(f'member {b}: start', L.get_x0(), right)
        cx.eq(f'member {b}: loss of the true values', L(cx.arr([right])), np.zeros(1))
        other = cx.reals(f'o{b}', len(right), -5, 5)
        pair = L(cx.arr([list(other), right]))
        cx.eq(f'member {b}: loss of the true values next to others', pair[1], cx.const(0))
        cx.le(f'member {b}: no others are better', cx.const(0), pair[0])


def watched(cx, kind='joint', steps=2, batch=(), nb=2, nv=1, aux=False, subset='cap', evolve=False, extra_columns=False):
    """An estimator run on the dataset sees the inputs and outputs of the simulation, in order, each once."""
    names = SUBSETS[subset]
    h, x, us, ys, sim = simulation(cx, steps, batch, nb, nv, aux, evolve)
    B = nb if batch else 1
    data = sim.to_batdata(extra_columns=extra_columns)
    cx.true('a dataset per member', len(data) == B, str(len(data)))
    for b, ds in enumerate(data):
        hh, xx, ii = member(h, b), member(x, b), member(us[0], b)
        for n in names:
            hh.mark_updatable(n)
        nt, na = width(xx), sum(HEALTH[n] for n in names)

        def filt(m, d, tag):
            P, _ = cx.psd(f'P{tag}{b}', d, diag=True)
            return Noting(cx, m, MultivariateGaussian(mean=cx.reals(f'm{tag}{b}', d, -5, 5), covariance=P), DeltaDistribution(mean=cx.reals(f'u{tag}{b}', 3, -5, 5)),
                          f'{tag}{b}')
        if kind == 'joint':
            fs = [filt(JointCellModelWrapper(UFCell(cx), hh, xx, ii, asoh_inputs=names), nt + na, 'j')]
            est = JointEstimator(fs[0])
        else:
            fs = [filt(CellModelWrapper(UFCell(cx), hh, xx, ii), nt, 't'), filt(DegradationModelWrapper(UFCell(cx), hh, xx, ii, asoh_inputs=names), na, 'a')]
            est = DualEstimator(*fs)
        table, _ = interface.run_online_estimate(ds, est)
        cx.true(f'member {b}: a row per record', len(table) == steps + 1, str(len(table)))
        for j, f in enumerate(fs):
            cx.true(f'member {b}: filter {j}: a step per record', len(f.calls) == steps + 1, str(len(f.calls)))
            for k, c in enumerate(f.calls):
                cx.eq(f'member {b}: filter {j}: record {k}: inputs', c[1], flat(us[k], b))
                cx.eq(f'member {b}: filter {j}: record {k}: inputs before', f.prev[k], flat(us[max(k - 1, 0)], b))
                cx.eq(f'member {b}: filter {j}: record {k}: output', c[3], flat(ys[k], b))


def circuit(cx, rc, c0, mode):
    """The same for the circuit model of the package."""
    from .common import build_asoh, build_state
    from moirae.models.ecm import EquivalentCircuitModel
    a, x = build_asoh(cx, rc=rc, c0=c0, ocv_nodes=1), build_state(cx, rc=rc, c0=c0)
    a.mark_updatable('r0.base_values')
    us = [ECMInput(time=t, current=cx.real(f'i{k}', 0.1, 5), temperature=25.) for k, t in enumerate((cx.const(0), cx.real('dt', 1, 100)))]
    sim = Simulator(cell_model=EquivalentCircuitModel(current_behavior=mode), asoh=a, transient_state=x, initial_input=us[0], keep_history=True)
    sim.step(us[1])
    ds = sim.to_batdata()[0]
    L = MeanSquaredLoss(cell_model=EquivalentCircuitModel(current_behavior=mode), asoh=a, transient_state=x, observations=ds)
    cx.eq('loss of the true values', L(L.get_x0()[None, :]), np.zeros(1))


def cases(tier):
    out = []

    def add(name, fn, **p):
        out.append(Case(name, fn, p, limit=100, validate=1))
    for fn, tag in ((fitted, 'fit'), (watched, 'watch')):
        add(f'{tag}-single', fn)
        add(f'{tag}-start', fn, steps=0)
        add(f'{tag}-evolve', fn, steps=3, evolve=True, extra_columns=True)
        for b in ('h', 'x', 'u', 'hx', 'hu', 'xu', 'hxu'):
            add(f'{tag}-batch-{b}', fn, batch=tuple(b), steps=2 if len(b) == 1 else 1, subset='cap' if fn is watched else 'sub+res')
        add(f'{tag}-batch-3', fn, batch=('u',), nb=3, steps=2, subset='cap', extra_columns=True)
        add(f'{tag}-large', fn, nv=2, aux=True, subset='sub+res', steps=1)
    for subset in ('none', 'cap', 'cap+sub'):
        add(f'fit-parameters-{subset}', fitted, subset=subset)
    for b in ((), ('u',)):
        add(f'watch-dual-{len(b)}', watched, kind='dual', batch=b)
    for mode in ('constant', 'linear'):
        for rc, c0 in ((0, False), (1, True), (2, False)):
            add(f'circuit-{mode}-{rc}-{int(c0)}', circuit, rc=rc, c0=c0, mode=mode)
    for b in ('h', 'u', 'x'):
        for n in (1, 2, 3):
            add(f'fit-{n}-{b}', fitted, steps=n, batch=(b,), nb=n + 1, subset='cap')      # as many records as members
    add('fit-eight', fitted, steps=8)
    add('watch-eight', watched, steps=8, subset='cap')
    if tier == 'thorough':
        add('fit-long', fitted, steps=5, batch=('h', 'x'), nb=3, subset='all', nv=2)
        add('watch-long', watched, steps=5, batch=('u', 'x'), nb=3, subset='sub+res', nv=2)
    return out
