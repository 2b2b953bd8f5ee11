from symx.harness import Case
from .online import *
from .c21 import World
from .c23 import posterior
from moirae.estimators.online.joint import JointEstimator
from moirae.estimators.online.dual import DualEstimator
from moirae.simulator import Simulator

BOUNDS = ('joint and dual unscented estimators with 1 to 3 transients and 0 to 4 estimated parameters (scalars, lists, nested), normalised or not, covariances and '
          'noises given jointly or separately, inputs exact or uncertain, own or default tuning; simulators with and without history; arbitrary (uninterpreted) '
          'cell model; the objects given are overwritten in place, by assignment or by their own methods afterwards; comparison of the state, the sigma points and '
          'their propagation through the model, and of one full step (1 transient, at most 1 parameter per filter)')
ASSUMPTIONS = ['in the cases with a full step the predicted output covariance and the posterior covariance are positive definite (C19 covers the repair of others)',
               'the cell model is a function of its arguments (uninterpreted)']


def clone(o):
    if isinstance(o, np.ndarray):
        return copy(o)
    if isinstance(o, dict):
        return {k: clone(v) for k, v in o.items()}
    return o.model_copy(deep=True) if hasattr(o, 'model_copy') else o


def spoil(o, how):
    """What the caller may do with its own objects."""
    if isinstance(o, np.ndarray):
        scribble(o)
    elif isinstance(o, dict):
        for k in list(o):
            if isinstance(o[k], dict):
                spoil(o[k], how)
            o[k] = {} if isinstance(o[k], dict) else 0.7
    elif hasattr(o, 'model_copy'):
        for _, m, f, v in list(walk(o)):
            if how == 'inplace':
                scribble(v)
            else:
                setattr(m, f, np.full_like(v, 7.))
        if hasattr(o, 'mark_all_fixed'):
            o.mark_all_fixed() if how == 'inplace' else o.mark_all_updatable()


TUNING = dict(alpha_param=0.5, kappa_param=1., beta_param=2.)


def arguments(cx, w, kind, cov, tuning, uncertain, normalize):
    one = lambda n, d: cx.psd(n, d, diag=True)[0]
    kw = dict(initial_asoh=w.h, initial_transients=w.x, initial_inputs=w.i, covariance_sensor_noise=one('R', w.ny), normalize_asoh=normalize)
    if cov == 'joint' and kind == 'joint':
        kw.update(covariance_joint=one('P', w.nt + w.na), joint_covariance_process_noise=one('Q', w.nt + w.na))
    else:
        kw.update(covariance_transient=one('Pt', w.nt), covariance_asoh=one('Pa', w.na) if w.na else cx.arr(np.zeros((0, 0))),
                  transient_covariance_process_noise=one('Qt', w.nt))
        if w.na:
            kw['asoh_covariance_process_noise'] = one('Qa', w.na)
    if uncertain:
        kw['inputs_uncertainty'] = one('U', w.nu)
    if tuning:
        kw['filter_args'] = dict(TUNING) if kind == 'joint' else {'transient': dict(TUNING), 'asoh': dict(TUNING, alpha_param=0.9)}
    return kw


def make(w, kind, kw):
    cls = JointEstimator if kind == 'joint' else DualEstimator
    return cls.initialize_unscented_kalman_filter(cell_model=w.cell, **kw)


def filters(est):
    return [est.filter] if hasattr(est, 'filter') else [est.trans_filter, est.asoh_filter]


def alike(cx, label, a, b, points=True):
    """Both estimators are in the same state and would do the same next."""
    sa, sb = a.state, b.state
    cx.eq(label + 'mean', sa.get_mean(), sb.get_mean())
    cx.eq(label + 'covariance', sa.get_covariance(), sb.get_covariance())
    for t, x, y in zip(('transients', 'health'), a.get_estimated_state(), b.get_estimated_state()):
        cx.true(f'{label}{t}: fields', [p for p, _ in values(x)] == [p for p, _ in values(y)])
        for (p, v), (_, u) in zip(values(x), values(y)):
            cx.eq(f'{label}{t}: {p}', v, u)
    for n in ('state_names', 'output_names', 'control_names'):
        cx.true(label + n, tuple(getattr(a, n)) == tuple(getattr(b, n)))
    if not points:
        return
    for k, (f, g) in enumerate(zip(filters(a), filters(b))):
        nx, ny = f.model.num_hidden_dimensions, f.model.num_output_dimensions
        cx.eq(f'{label}filter {k}: mean weights', f.mean_weights, g.mean_weights)
        cx.eq(f'{label}filter {k}: covariance weights', f.cov_weights, g.cov_weights)
        cx.eq(f'{label}filter {k}: controls', f.controls.get_mean(), g.controls.get_mean())
        cx.eq(f'{label}filter {k}: controls covariance', f.controls.get_covariance(), g.controls.get_covariance())
        s, t = f.build_sigma_points(), g.build_sigma_points()
        cx.eq(f'{label}filter {k}: sigma points', s, t)
        u = cx.arr(np.arange(1, 1 + len(f.controls.get_mean())) * 1.)
        s = copy(t)
        predict = lambda m: m.predict_measurement(copy(s[:, :nx]), copy(u))
        for n, p in (('predicted before any propagation', predict),
                     ('propagated', lambda m: m.update_hidden_states(copy(s[:, :nx]), copy(g.controls.get_mean()), copy(u))),
                     ('predicted', predict)):
            cx.eq(f'{label}filter {k}: {n}', p(f.model), p(g.model))


def owned(cx, kind, subset, how, cov='joint', tuning=False, uncertain=False, normalize=False, **kw):
    """Overwriting what an estimator was made from changes nothing in it."""
    w = World(cx, subset, **kw)
    args = arguments(cx, w, kind, cov, tuning, uncertain, normalize)
    twin = make(w, kind, clone(args))
    mine = clone(args)
    est = make(w, kind, mine)
    for o in mine.values():
        spoil(o, how)
    alike(cx, '', est, twin)


def together(cx, kind, other, subset, normalize=False, tuning=False, **kw):
    """Two estimators made from the same objects: what one is told does not show in the other, nor in the objects."""
    w = World(cx, subset, **kw)
    args = arguments(cx, w, kind, 'separate', tuning, False, normalize)
    args2 = dict(args)
    if kind != other and 'filter_args' in args2:
        args2['filter_args'] = dict(TUNING) if other == 'joint' else {'transient': dict(TUNING)}
    twin = make(w, kind, clone(args))
    snap = [snapshot(m) for m in (w.h, w.x, w.i)]
    kept = {k: copy(v) for k, v in args.items() if isinstance(v, np.ndarray)}
    marks = sorted(w.h.updatable)
    told = {k: clone(v) for k, v in args.items() if isinstance(v, dict)}
    a, b = make(w, kind, args), make(w, other, args2)
    again = make(w, kind, args)
    for k, v in told.items():
        cx.true(f'{k} given', args[k] == v, f'{args[k]} instead of {v}')
    alike(cx, 'made again from the same: ', again, twin)
    nxt = controls(cx, 'n.')
    b.set_inputs(nxt)
    for f in filters(b):      # whatever happens in the filters of the other
        d = f.hidden.get_mean().shape[0]
        scribble(f.hidden.mean)
        scribble(f.hidden.covariance)
        scribble(f.controls.mean)
        if hasattr(f.controls, 'covariance'):
            scribble(f.controls.covariance)
        scribble(f.cov_w)
        scribble(f.cov_v)
        for m in (f.model.asoh, f.model.transients, f.model.inputs):
            spoil(m, 'inplace')
    for m in (b.asoh, b.transients):
        spoil(m, 'inplace')
    alike(cx, '', a, twin)
    for t, m, s in zip(('health', 'transients', 'inputs'), (w.h, w.x, w.i), snap):
        unchanged(cx, t, m, s)
    for k in kept:
        cx.eq(k, args[k], kept[k])
    cx.true('marks', sorted(w.h.updatable) == marks)


def stepped(cx, kind, subset, how):
    """One step of the estimator whose sources were overwritten, against one whose were not."""
    cx.cut(12)
    w = World(cx, subset, nv=0)
    args = arguments(cx, w, kind, 'separate', False, False, False)
    twin = make(w, kind, clone(args))
    u, z = controls(cx, 'n.'), cx.real('z', -5, 5)
    for f in filters(twin):
        posterior(cx, f, w, copy(u.to_numpy()[0]), None)
    mine = clone(args)
    est = make(w, kind, mine)
    third = make(w, kind, args)
    for o in mine.values():
        spoil(o, how)
    outs = []
    for e in (est, twin):
        outs.append(e.step(inputs=u.model_copy(deep=True), measurements=Out(terminal_voltage=z)))
    for t, x, y in zip(('estimate', 'prediction'), *outs):
        cx.eq(t + ' mean', x.get_mean(), y.get_mean())
        cx.eq(t + ' covariance', x.get_covariance(), y.get_covariance())
    alike(cx, 'after: ', est, twin, points=False)
    alike(cx, 'the one which made no step: ', third, make(w, kind, clone(args)))


def simulated(cx, how, keep, steps):
    h, x = health(cx, ('cap',)), trans(cx, 1)
    us = [controls(cx, f'u{k}.') for k in range(steps + 1)]
    cell = UFCell(cx)
    deg = UFDegradation(cx)
    run = lambda hh, xx, uu: Simulator(cell_model=cell, asoh=hh, transient_state=xx, initial_input=uu, degradation_model=deg, keep_history=keep)
    twin = run(*[clone(o) for o in (h, x, us[0])])
    mine = [clone(o) for o in (h, x, us[0])]
    sim, other = run(*mine), run(*mine)
    for o in mine:
        spoil(o, how)
    for k in range(steps):
        u = clone(us[k + 1])
        sim.step(u)
        spoil(u, how)
        twin.step(clone(us[k + 1]))
    same = lambda l, a, b: [cx.eq(f'{l}{p}', v, r) for (p, v), (_, r) in zip(values(a), values(b))]
    for n in ('asoh', 'transient', 'previous_input', 'measurement'):
        same(n + ': ', getattr(sim, n), getattr(twin, n))
        if keep:
            l, r = [getattr(s, ('input' if n == 'previous_input' else n) + '_history') for s in (sim, twin)]
            cx.true('length', len(l) == len(r))
            for k, (p, q) in enumerate(zip(l, r)):
                same(f'{n} history {k}: ', p, q)
    start = run(*[clone(o) for o in (h, x, us[0])])
    for n in ('asoh', 'transient', 'previous_input', 'measurement'):
        same(f'simulator which made no step: {n}: ', getattr(other, n), getattr(start, n))


def cases(tier):
    out = []
    for kind in ('joint', 'dual'):
        subs = ('none', 'cap', 'sub+res', 'all') if kind == 'joint' else ('cap', 'sub+res', 'all')
        for how in ('inplace', 'assign'):
            for subset in subs:
                for cov in ('joint', 'separate') if kind == 'joint' else ('separate',):
                    out.append(Case(f'owned-{kind}-{subset}-{how}-{cov}', owned, dict(kind=kind, subset=subset, how=how, cov=cov), validate=1))
            out.append(Case(f'owned-{kind}-normalised-{how}', owned, dict(kind=kind, subset='cap', how=how, cov='separate', normalize=True), validate=1))
            out.append(Case(f'owned-{kind}-normalised-joint-{how}', owned, dict(kind=kind, subset='sub', how=how, normalize=True), validate=1))
            out.append(Case(f'owned-{kind}-tuned-{how}', owned, dict(kind=kind, subset='cap', how=how, tuning=True), validate=1))
            out.append(Case(f'owned-{kind}-uncertain-{how}', owned, dict(kind=kind, subset='cap', how=how, uncertain=True, temp=True), validate=1))
            out.append(Case(f'owned-{kind}-large-{how}', owned, dict(kind=kind, subset='cap+sub', how=how, nv=1, aux=True, extra=1), validate=1))
            out.append(Case(f'stepped-{kind}-{how}', stepped, dict(kind=kind, subset='none' if kind == 'joint' else 'cap', how=how), limit=200, validate=1))
        for other in ('joint', 'dual'):
            for subset in ('cap', 'sub+res'):
                out.append(Case(f'together-{kind}-{other}-{subset}', together, dict(kind=kind, other=other, subset=subset), validate=1))
            out.append(Case(f'together-{kind}-{other}-normalised', together, dict(kind=kind, other=other, subset='cap', normalize=True), validate=1))
            out.append(Case(f'together-{kind}-{other}-tuned', together, dict(kind=kind, other=other, subset='cap', tuning=True), validate=1))
    for how in ('inplace', 'assign'):
        for keep in (False, True):
            for steps in (0, 1, 2) + ((4,) if tier == 'thorough' else ()):
                out.append(Case(f'simulated-{how}-{int(keep)}-{steps}', simulated, dict(how=how, keep=keep, steps=steps), validate=1))
    return out
