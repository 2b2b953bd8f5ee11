from symx.harness import Case
from .online import *
from .c21 import World, wrapped
from .c22 import wrappers, controls_of
from moirae.estimators.online.joint import JointEstimator
from moirae.estimators.online.dual import DualEstimator
from moirae.estimators.online.filters.kalman.unscented import UnscentedKalmanFilter

BOUNDS = ('joint and dual unscented estimators over wrappers with identity, scaled, shifted, affine and matrix conversions; 2 to 4 transients, 0 to 4 estimated '
          'parameters (scalars, lists, nested), 1 to 3 outputs; any process noise (joint, separate, for one part, none), any sensor noise or none, inputs exact or '
          'uncertain; tuning given for all, one or no filter, with numbers or "automatic"; up to three inputs set after another')
ASSUMPTIONS = ['the conversion operators are right (C14)', 'what a filter does with its noises and weights is C16 and C17']

TUNINGS = {'none': {}, 'alpha': dict(alpha_param=0.5), 'all': dict(alpha_param=0.25, beta_param=1., kappa_param=2.),
           'auto': dict(kappa_param='automatic', alpha_param=0.9), 'beta': dict(beta_param=0.)}
CONVS = [('identity',) * 3, ('scale', 'identity', 'shift'), ('affine', 'shift', 'scale'), ('matrix', 'affine', 'affine'), ('shift', 'scale', 'matrix')]


def weights(cx, tuning, nx, ny):
    """Mean and covariance weights of the scaled unscented transform of the augmented state."""
    L = 2 * nx + ny
    a, b, k = tuning.get('alpha_param', 1.), tuning.get('beta_param', 2.), tuning.get('kappa_param', 0.)
    if k == 'automatic':
        k = 3 - L
    s = a * a * (L + k)
    m = [(s - L) / s] + [1 / (2 * s)] * (2 * L)
    return m, [m[0] + 1 - a * a + b] + m[1:]


def works_with(cx, label, f, ops, proc, sens, tuning):
    """proc and sens in physical units; without them the documented default in the coordinates of the filter."""
    nx, ny = f.model.num_hidden_dimensions, f.model.num_output_dimensions
    for t, got, given, op, d in (('process', f.cov_w, proc, ops[0], nx), ('sensor', f.cov_v, sens, ops[2], ny)):
        cx.shape(f'{label}{t} noise', got, (d, d))
        if given is None:
            cx.eq(f'{label}{t} noise', got, 1e-8 * np.eye(d))
        else:
            cx.eq(f'{label}{t} noise', got, to_filter(cx, op, cx.arr(np.zeros(d)), given)[1])
    m, c = weights(cx, tuning, nx, ny)
    for t, got, v in (('mean', f.mean_weights, m), ('covariance', f.cov_weights, c)):     # plain numbers
        got = np.asarray(got, dtype=float)
        cx.true(f'{label}{t} weights', got.shape == (len(v),) and np.allclose(got, v, rtol=1e-9, atol=1e-12), f'{got} instead of {v}')


def joint(cx, subset, conv, noise, sensor, tuning, uncertain, **kw):
    w = World(cx, subset, **kw)
    m, ops = wrapped(cx, w, conv)
    Qt, Qa, Q = [cx.psd(n, d)[0] if d else cx.arr(np.zeros((0, 0))) for n, d in (('Qt', w.nt), ('Qa', w.na), ('Q', w.nt + w.na))]
    R, U = cx.psd('R', w.ny)[0], cx.psd('U', w.nu)[0]
    P = cx.psd('P', w.nt + w.na, diag=True)[0]
    given, want = {}, None
    if noise == 'joint':
        given, want = dict(joint_covariance_process_noise=Q), Q
    elif noise == 'both':     # the joint one wins
        given, want = dict(joint_covariance_process_noise=Q, transient_covariance_process_noise=Qt, asoh_covariance_process_noise=Qa), Q
    elif noise == 'separate':
        given, want = dict(transient_covariance_process_noise=Qt, asoh_covariance_process_noise=Qa), blocks(cx, Qt, Qa)
    if sensor:
        given['covariance_sensor_noise'] = R
    if uncertain:
        given['inputs_uncertainty'] = U
    args = dict(TUNINGS[tuning])
    if tuning != 'none':
        given['filter_args'] = args
    kept = {k: copy(v) for k, v in given.items() if isinstance(v, np.ndarray)}
    est = JointEstimator.initialize_ukf_from_wrapper(m, covariance_joint=P, **given)
    cx.true('kind of filter', isinstance(est.filter, UnscentedKalmanFilter))
    works_with(cx, '', est.filter, ops, want, R if sensor else None, TUNINGS[tuning])
    u, cu = to_filter(cx, ops[1], controls_of(cx, w.snap[2]), U if uncertain else None)
    cx.eq('initial inputs', est.filter.controls.get_mean(), u)
    if uncertain:
        cx.eq('uncertainty of the initial inputs', est.filter.controls.get_covariance(), cu)
    for k, v in kept.items():
        cx.eq(f'{k} given', given[k], v)
    cx.true('tuning given', args == TUNINGS[tuning], str(args))
    w.untouched()


def dual(cx, subset, convs, noise, sensor, tuning, uncertain, **kw):
    w = World(cx, subset, **kw)
    ms, ops = wrappers(cx, w, convs)
    Qt, Qa, R, U = [cx.psd(n, d)[0] for n, d in (('Qt', w.nt), ('Qa', w.na), ('R', w.ny), ('U', w.nu))]
    Pt, Pa = [cx.psd(n, d, diag=True)[0] for n, d in (('Pt', w.nt), ('Pa', w.na))]
    given, want = {}, [None, None]
    if noise in ('separate', 'transient'):
        given['transient_covariance_process_noise'] = want[0] = Qt
    if noise in ('separate', 'health'):
        given['asoh_covariance_process_noise'] = want[1] = Qa
    if sensor:
        given['covariance_sensor_noise'] = R
    if uncertain:
        given['inputs_uncertainty'] = U
    args = {k: dict(TUNINGS[t]) for k, t in zip(('transient', 'asoh'), tuning) if t != 'default'}
    first = {k: dict(v) for k, v in args.items()}
    if tuning != ('default', 'default'):
        given['filter_args'] = args
    kept = {k: copy(v) for k, v in given.items() if isinstance(v, np.ndarray)}
    est = DualEstimator.initialize_ukf_from_wrappers(ms[0], ms[1], covariance_transient=Pt, covariance_asoh=Pa, **given)
    for t, f, o, q, tu in zip(('transient: ', 'health: '), (est.trans_filter, est.asoh_filter), ops, want, tuning):
        cx.true(t + 'kind of filter', isinstance(f, UnscentedKalmanFilter))
        works_with(cx, t, f, o, q, R if sensor else None, TUNINGS.get(tu, {}))
        u, cu = to_filter(cx, o[1], controls_of(cx, w.snap[2]), U if uncertain else None)
        cx.eq(t + 'initial inputs', f.controls.get_mean(), u)
        if uncertain:
            cx.eq(t + 'uncertainty of the initial inputs', f.controls.get_covariance(), cu)
    for k, v in kept.items():
        cx.eq(f'{k} given', given[k], v)
    cx.true('tuning given', args == first, str(args))
    w.untouched()


def direct(cx, kind, subset, normalize, noise, sensor, tuning, uncertain, start='separate'):
    """Without wrappers of one's own; a normalised parameter is in units of its initial value (of one if that is zero)."""
    w = World(cx, subset)
    w.ordered()
    for n in w.names:
        for v in w.snap[0][n][0]:
            cx.assume_any(v >= 0.01, v <= -0.01, v == 0)
    Qt, Qa, R, U = [cx.psd(n, d)[0] for n, d in (('Qt', w.nt), ('Qa', w.na), ('R', w.ny), ('U', w.nu))]
    Pt, Pa = [cx.psd(n, d, diag=True)[0] for n, d in (('Pt', w.nt), ('Pa', w.na))]
    given, Q = {}, None
    if noise in ('separate', 'both'):
        given = dict(transient_covariance_process_noise=Qt, asoh_covariance_process_noise=Qa)
        Q = blocks(cx, Qt, Qa)
    if noise in ('joint', 'both'):
        Q = given['joint_covariance_process_noise'] = cx.psd('Q', w.nt + w.na)[0]
    if start in ('separate', 'both'):
        given.update(covariance_transient=Pt, covariance_asoh=Pa)
        P = blocks(cx, Pt, Pa)
    if start in ('joint', 'both'):
        P = given['covariance_joint'] = cx.psd('P', w.nt + w.na, diag=True)[0]
    if sensor:
        given['covariance_sensor_noise'] = R
    if uncertain:
        given['inputs_uncertainty'] = U
    tus = [{}] * 2
    if tuning != 'none':
        tu = TUNINGS[tuning]
        tus = [tu] if kind == 'joint' else [tu, {}] if uncertain else [{}, tu]
        given['filter_args'] = dict(tu) if kind == 'joint' else {'transient' if uncertain else 'asoh': dict(tu)}
    kept = {k: copy(v) for k, v in given.items() if isinstance(v, np.ndarray)}
    cls = JointEstimator if kind == 'joint' else DualEstimator
    est = cls.initialize_unscented_kalman_filter(cell_model=w.cell, initial_asoh=w.h, initial_transients=w.x, initial_inputs=w.i, normalize_asoh=normalize, **given)
    fs = [est.filter] if kind == 'joint' else [est.trans_filter, est.asoh_filter]
    ident = IdentityConversionOperator()
    ops = [(f.model.hidden_conversion.model_copy(deep=True), ident, ident) for f in fs]
    want = [None] * 2 if noise == 'none' else [Q] if kind == 'joint' else [Qt, Qa]
    x0, P0 = [w.mean()] if kind == 'joint' else [w.mean()[:w.nt], w.mean()[w.nt:]], [P] if kind == 'joint' else [Pt, Pa]
    for k, (f, o, q) in enumerate(zip(fs, ops, want)):
        works_with(cx, f'filter {k}: ', f, o, q, R if sensor else None, tus[k])
        cx.eq(f'filter {k}: initial inputs', f.controls.get_mean(), controls_of(cx, w.snap[2]))
        if uncertain:
            cx.eq(f'filter {k}: uncertainty of the initial inputs', f.controls.get_covariance(), U)
        dist(cx, f'filter {k}: estimate', f.hidden, *to_filter(cx, o[0], x0[k], P0[k]))
    for k, v in kept.items():
        cx.eq(f'{k} given', given[k], v)
    w.untouched()


def later(cx, kind, subset, conv, n, step, **kw):
    """Inputs set by the user replace those of the previous step in every filter."""
    w = World(cx, subset, **kw)
    if kind == 'joint':
        m, o = wrapped(cx, w, conv)
        ms, ops, nm = [m], [o], 'j'
    else:
        ms, ops = wrappers(cx, w, (conv, CONVS[2]))
        nm = 'xa'
    fs = []
    for m, d, c in zip(ms, (w.nt + w.na,) if kind == 'joint' else (w.nt, w.na), nm):
        P0, _ = cx.psd(f'{c}P', d, diag=True)
        fs.append(AnyFilter(cx, m, MultivariateGaussian(mean=cx.reals(f'{c}0', d, -5, 5), covariance=P0), DeltaDistribution(mean=cx.reals(f'{c}u', w.nu, -5, 5)), c))
    est = JointEstimator(fs[0]) if kind == 'joint' else DualEstimator(fs[0], fs[1])
    if step:
        est.step(controls(cx, 's.', temp=w.nu == 3), Out(terminal_voltage=cx.real('z', -5, 5)))
    hidden = [(copy(f.hidden.get_mean()), copy(f.hidden.get_covariance())) for f in fs]
    for k in range(n):
        u = controls(cx, f'n{k}.', temp=w.nu == 3)
        su = snapshot(u)
        est.set_inputs(u)
        unchanged(cx, f'set {k}: argument', u, su)
        for _, v in values(u):
            scribble(v)
        for j, (f, o) in enumerate(zip(fs, ops)):
            cx.eq(f'set {k}: filter {j}', f.controls.get_mean(), to_filter(cx, o[1], controls_of(cx, su))[0])
            cx.true(f'set {k}: filter {j} is not stepped', len(f.calls) == int(step))
            dist(cx, f'set {k}: filter {j}: estimate', f.hidden, *hidden[j])
    cx.true('controls', list(est.control_names) == ['time', 'current'] + ['temperature'] * (w.nu == 3))


def cases(tier):
    out = []
    full = tier == 'thorough'
    add = lambda name, fn, **p: out.append(Case(name, fn, p, validate=1))
    for j, conv in enumerate(CONVS):
        nm = '-'.join(conv)
        for noise in ('joint', 'both', 'separate', 'none'):
            for sub in ('none', 'cap', 'sub+res') if full else (('cap', 'none', 'cap', 'sub+res')[(j + len(noise)) % 4], 'none'):
                for sensor in (False, True):
                    tu = list(TUNINGS)[(j + len(noise) + sensor) % 5]
                    if not any(c.name == f'joint-{sub}-{nm}-{noise}-{int(sensor)}' for c in out):
                        add(f'joint-{sub}-{nm}-{noise}-{int(sensor)}', joint, subset=sub, conv=conv, noise=noise, sensor=sensor, tuning=tu, uncertain=(j + sensor) % 2 == 0,
                            extra=1 if noise == 'joint' else 0, temp=noise == 'both')
        for k, noise in enumerate(('separate', 'transient', 'health', 'none')):
            for sensor in (False, True):
                tu = [('alpha', 'all'), ('default', 'alpha'), ('auto', 'default'), ('default', 'default'), ('beta', 'none')][(j + k + 2 * sensor) % 5]
                for sub in ('cap', 'sub+res') if full else (('cap', 'sub+res')[(j + k) % 2],):
                    add(f'dual-{sub}-{nm}-{noise}-{int(sensor)}', dual, subset=sub, convs=(conv, CONVS[(j + k + 1) % 5]), noise=noise, sensor=sensor, tuning=tu,
                        uncertain=(j + k) % 2 == 0, extra=k % 2)
        for kind in ('joint', 'dual'):
            for sub in ('cap', 'sub+res') + (('none',) if kind == 'joint' else ()):
                for n, step in ((1, False), (3, False), (2, True)):
                    add(f'later-{kind}-{sub}-{nm}-{n}-{int(step)}', later, kind=kind, subset=sub, conv=conv, n=n, step=step, temp=sub == 'cap')
    for kind in ('joint', 'dual'):
        for sub in ('cap', 'sub+res', 'res'):
            for k, nz in enumerate((False, True)):
                for j, noise in enumerate(('none', 'separate', 'joint', 'both')[:4 if kind == 'joint' else 2]):
                    for sensor in (False, True):
                        for uncertain in (False, True):
                            add(f'direct-{kind}-{sub}-{int(nz)}-{noise}-{int(sensor)}-{int(uncertain)}', direct, kind=kind, subset=sub, normalize=nz, noise=noise, sensor=sensor,
                                tuning=list(TUNINGS)[(k + j + 2 * sensor) % 5], uncertain=uncertain,
                                start='separate' if kind == 'dual' else ('separate', 'joint', 'both')[(j + sensor + uncertain) % 3])
    return out
