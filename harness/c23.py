from symx.harness import Case
from .online import *
from .c21 import World
from .c18 import definite, inverse, mul
from .kf import outer, wsum
from moirae.estimators.online.joint import JointEstimator
from moirae.estimators.online.dual import DualEstimator

BOUNDS = ('1 transient and 1 estimated parameter (joint filter), 1 transient and 1 or 2 estimated parameters (dual filters); arbitrary (uninterpreted) cell model; '
          'parameter values in [-5,5] that are zero or at least 0.1 in size; any mean, covariance L L^T, noises; one step from the initial estimate')
ASSUMPTIONS = ['the predicted output covariance and the posterior covariance are positive definite (C19 covers the repair of others)',
               'the cell model is a function of its arguments (uninterpreted)', 'process and sensor noises are given (the default noise of the filter is in its own units)']


def apart(cx, w):
    for nm in w.names:
        for v in w.snap[0][nm][0]:
            cx.assume_any(v == 0, v >= 0.1, v <= -0.1)


def posterior(cx, f, w, u, z):
    """Assume the posterior of one step of a filter, from the definition, is clearly positive definite."""
    m = f.model
    s = copy(f.build_sigma_points())
    wm, wc = copy(f.mean_weights), copy(f.cov_weights)
    nx, ny = m.num_hidden_dimensions, m.num_output_dimensions
    X = m.update_hidden_states(s[:, :nx], f.controls.get_mean(), u) + s[:, nx:2 * nx]
    X = cx.arr(X)
    Y = cx.arr(m.predict_measurement(copy(X), u) + s[:, 2 * nx:])
    mx, my = wsum(cx, wm, X), wsum(cx, wm, Y)
    Pxx, Pyy, Pxy = outer(cx, wc, X - mx, X - mx), outer(cx, wc, Y - my, Y - my), outer(cx, wc, X - mx, Y - my)
    definite(cx, Pyy)
    definite(cx, Pxx - mul(cx, mul(cx, Pxy, inverse(cx, Pyy)), Pxy.T))


def given(cx, w, kind, diag):
    one = lambda n, d, dg=True: cx.psd(n, d, diag=dg)[0]
    Pt, Pa = one('Pt', w.nt, diag), one('Pa', w.na, diag)
    Qt, Qa, R = one('Qt', w.nt), one('Qa', w.na, diag), one('R', w.ny)
    kw = dict(cell_model=w.cell, initial_asoh=w.h, initial_transients=w.x, initial_inputs=w.i, covariance_sensor_noise=R)
    if kind == 'joint':
        P = one('P', w.nt + w.na, diag)
        return dict(kw, covariance_joint=P, joint_covariance_process_noise=blocks(cx, Qt, Qa))
    if kind == 'separate':
        return dict(kw, covariance_transient=Pt, covariance_asoh=Pa, transient_covariance_process_noise=Qt, asoh_covariance_process_noise=Qa)
    if kind == 'transient':      # noise for one of them only
        return dict(kw, covariance_transient=Pt, covariance_asoh=Pa, transient_covariance_process_noise=Qt)
    if kind == 'health':
        return dict(kw, covariance_transient=Pt, covariance_asoh=Pa, asoh_covariance_process_noise=Qa)
    return dict(kw, covariance_transient=Pt, covariance_asoh=Pa, transient_covariance_process_noise=Qt, asoh_covariance_process_noise=Qa)


def noises(cx, subset, kind, normalize):
    """The filter works with the noises given, each on its own part and in its own coordinates."""
    w = World(cx, subset, nv=1)
    w.ordered()
    apart(cx, w)
    kw = given(cx, w, kind, diag=False)
    cls = DualEstimator if kind == 'dual' else JointEstimator
    est = cls.initialize_unscented_kalman_filter(normalize_asoh=normalize, **kw)
    fs = [est.trans_filter, est.asoh_filter] if kind == 'dual' else [est.filter]
    Qt, Qa = kw.get('transient_covariance_process_noise'), kw.get('asoh_covariance_process_noise')
    if kind == 'joint':
        want = [kw['joint_covariance_process_noise']]
    else:
        want = [Qt, Qa] if kind == 'dual' else [blocks(cx, Qt if Qt is not None else 1e-8 * np.eye(w.nt), Qa if Qa is not None else 1e-8 * np.eye(w.na))]
    for f, q in zip(fs, want):
        d = f.model.num_hidden_dimensions
        kind = type(f.model).__name__
        cx.eq(f'{kind}: process noise', to_physical(cx, f.model.hidden_conversion, cx.arr(np.zeros(d)), f.cov_w)[1], q)
        cx.eq(f'{kind}: sensor noise', f.cov_v, kw['covariance_sensor_noise'])
        s = f.build_sigma_points()
        n = len(s)
        m = f.model.hidden_conversion.transform_samples(copy(cx.arr(np.zeros((1, d)))))
        wn = cx.arr([list((f.model.hidden_conversion.transform_samples(copy(s[k:k + 1, d:2 * d])) - m)[0]) for k in range(n)])
        cx.eq(f'{kind}: process noise of the points', outer(cx, f.cov_weights, wn, wn), q)
        cx.eq(f'{kind}: sensor noise of the points', outer(cx, f.cov_weights, s[:, 2 * d:], s[:, 2 * d:]), kw['covariance_sensor_noise'])


def compare(cx, kind, subset, diag=True, cut=12, n=1):
    cx.cut(cut)
    w = World(cx, subset, nv=0)
    w.ordered()
    apart(cx, w)
    kw = given(cx, w, kind, diag)
    cls = DualEstimator if kind == 'dual' else JointEstimator
    raw = cls.initialize_unscented_kalman_filter(**kw)
    nrm = cls.initialize_unscented_kalman_filter(normalize_asoh=True, **kw)
    for t in range(n):
        lab = f'step {t + 1}: '
        u, z = controls(cx, f'u{t}.'), Out(terminal_voltage=cx.real(f'z{t}', -5, 5))
        u1, z1 = copy(u.to_numpy()[0]), copy(z.to_numpy()[0])
        if t == 0:
            for f in [raw.trans_filter, raw.asoh_filter] if kind == 'dual' else [raw.filter]:
                posterior(cx, f, w, u1, z1)
        cx.eq(lab + 'state before: mean', nrm.state.get_mean(), raw.state.get_mean())
        cx.eq(lab + 'state before: covariance', nrm.state.get_covariance(), raw.state.get_covariance())
        a, ya = raw.step(u, z)
        b, yb = nrm.step(u, z)
        cx.eq(lab + 'prediction: mean', yb.get_mean(), ya.get_mean())
        cx.eq(lab + 'prediction: covariance', yb.get_covariance(), ya.get_covariance())
        cx.eq(lab + 'mean', b.get_mean(), a.get_mean())
        cx.eq(lab + 'covariance', b.get_covariance(), a.get_covariance())


def cases(tier):
    out = []
    for kind in ('joint', 'separate', 'transient', 'health'):
        out.append(Case(f'{kind}-1', compare, dict(kind=kind, subset='cap')))
    out.append(Case('dual-1', compare, dict(kind='dual', subset='cap')))
    out.append(Case('dual-2', compare, dict(kind='dual', subset='res'), limit=400))
    if tier == 'thorough':
        out.append(Case('joint-correlated', compare, dict(kind='joint', subset='cap', diag=False), limit=900))
        out.append(Case('dual-two-steps', compare, dict(kind='dual', subset='cap', n=2), limit=900))
        out.append(Case('dual-nested', compare, dict(kind='dual', subset='cap+sub'), limit=900))
    for kind in ('joint', 'separate', 'transient', 'health', 'dual'):
        for sub in ('cap', 'res', 'cap+sub'):
            for nz in (False, True):
                out.append(Case(f'noises-{kind}-{sub}-normalize={nz}', noises, dict(kind=kind, subset=sub, normalize=nz)))
    return out
