from symx.harness import Case
from .online import *
from moirae.estimators.online.joint import JointEstimator
from moirae.estimators.online.utils.model import JointCellModelWrapper

BOUNDS = ('2 to 4 transients, 0 to 4 estimated health parameters (scalars, lists, nested) out of 4, in any order of names; joint or separate covariances; '
          'normalised or not, parameters possibly zero; identity, scaled, shifted, affine and matrix conversions of hidden states, controls and outputs; before '
          'and after one and two steps of a filter with an arbitrary posterior; one step of the unscented filter (1 transient)')
ASSUMPTIONS = ['the conversion operators are right (C14)', 'the cell model is a function of its arguments (uninterpreted)',
               'the filter is arbitrary (C16 to C19 are about the one provided)']


def covariances(cx, nt, na, how):
    Pt, _ = cx.psd('Pt', nt, diag=how == 'diagonal')
    Pa = cx.psd('Pa', na, diag=how == 'diagonal')[0] if na else cx.arr(np.zeros((0, 0)))
    if how == 'joint':
        P, _ = cx.psd('P', nt + na)
        return P, dict(covariance_joint=P)
    if how == 'both':       # the joint one wins
        P, _ = cx.psd('P', nt + na, diag=True)
        return P, dict(covariance_joint=P, covariance_transient=Pt, covariance_asoh=Pa)
    return blocks(cx, Pt, Pa), dict(covariance_transient=Pt, covariance_asoh=Pa)


class World:
    def __init__(self, cx, subset, nv=1, aux=False, temp=False, extra=0, zero=True):
        self.cx = cx
        self.names = SUBSETS[subset]
        self.allowed = set(self.names)
        self.h, self.x, self.i = health(cx, self.names), trans(cx, nv, aux), controls(cx, temp=temp)
        self.cell = UFCell(cx, extra)
        self.snap = [snapshot(m) for m in (self.h, self.x, self.i)]
        self.nt, self.na, self.nu, self.ny = width(self.x), sum(HEALTH[n] for n in self.names), width(self.i), 1 + extra
        self.tsizes = {p: v.shape[1] for p, v in values(self.x)}

    def ordered(self):
        """The order of the fields, as the user did not give one."""
        self.names = tuple(n for n in HEALTH if n in self.names)

    def mean(self):
        return self.cx.arr([z for v in self.snap[1].values() for z in v[0]] + [z for n in self.names for z in self.snap[0][n][0]])

    def reported(self, label, est, mean, cov):
        """What the estimator exposes is this Gaussian in physical units."""
        cx = self.cx
        dist(cx, label + 'state', est.state, mean, cov)
        s = est.state
        scribble(s.mean)
        scribble(s.covariance)
        x, h = est.get_estimated_state()
        contents(cx, label + 'transients', x, expected(self.snap[1], self.tsizes, self.tsizes, list(mean[:self.nt])))
        contents(cx, label + 'health', h, expected(self.snap[0], self.names, HEALTH, list(mean[self.nt:])))
        for _, v in values(x) + values(h):
            scribble(v)
        dist(cx, label + 'state read again', est.state, mean, cov)
        cx.true(label + 'updatable', set(h.updatable_names) == self.allowed)

    def labels(self, est):
        cx = self.cx
        names = trans_names(self.x) + health_names(self.names)
        cx.true('state names', list(est.state_names) == names, f'{est.state_names}')
        cx.true('state size', est.num_state_dimensions == len(names))
        cx.true('outputs', est.num_output_dimensions == self.ny)
        cx.true('output names', list(est.output_names) == ['terminal_voltage'] + ([] if self.ny == 1 else ['extra'] if self.ny == 2 else
                                                                                    [f'extra[{k}]' for k in range(self.ny - 1)]), f'{est.output_names}')
        cx.true('control names', list(est.control_names) == ['time', 'current'] + ['temperature'] * (self.nu == 3), f'{est.control_names}')

    def untouched(self):
        for t, m, s in zip(('health', 'transients', 'inputs'), (self.h, self.x, self.i), self.snap):
            unchanged(self.cx, t, m, s)


def init(cx, subset, how, normalize, **kw):
    w = World(cx, subset, **kw)
    w.ordered()
    P, cov = covariances(cx, w.nt, w.na, how)
    kept = {k: copy(v) for k, v in cov.items()}
    # noises and inputs do not change the initial estimate
    Q, _ = cx.psd('Q', w.nt + w.na, diag=True)
    R, _ = cx.psd('R', w.ny, diag=True)
    est = JointEstimator.initialize_unscented_kalman_filter(cell_model=w.cell, initial_asoh=w.h, initial_transients=w.x, initial_inputs=w.i,
                                                            normalize_asoh=normalize, joint_covariance_process_noise=Q, covariance_sensor_noise=R, **cov)
    w.labels(est)
    w.reported('', est, w.mean(), P)
    cx.eq('controls', est.filter.controls.get_mean(), [z for v in w.snap[2].values() for z in v[0]])
    for k in kept:
        cx.eq(k, cov[k], kept[k])
    w.untouched()


def wrapped(cx, w, conv):
    kh, ku, ky = conv
    ops = [operator(cx, kh, w.nt + w.na, 'ch.'), operator(cx, ku, w.nu, 'cu.'), operator(cx, ky, w.ny, 'cy.')]
    m = JointCellModelWrapper(w.cell, w.h, w.x, w.i, asoh_inputs=w.names, converters=dict(
        hidden_conversion_operator=ops[0], control_conversion_operator=ops[1], output_conversion_operator=ops[2]))
    return m, [o.model_copy(deep=True) for o in ops]


def init_wrapped(cx, subset, how, conv, uncertain=False, **kw):
    w = World(cx, subset, **kw)
    m, ops = wrapped(cx, w, conv)
    P, cov = covariances(cx, w.nt, w.na, how)
    kept = {k: copy(v) for k, v in cov.items()}
    extra = {}
    i0 = cx.arr([z for v in w.snap[2].values() for z in v[0]])
    if uncertain:
        U, _ = cx.psd('U', w.nu)
        extra['inputs_uncertainty'] = U
    est = JointEstimator.initialize_ukf_from_wrapper(m, **cov, **extra)
    w.labels(est)
    w.reported('', est, w.mean(), P)
    got = est.filter.controls
    cx.eq('controls', ops[1].transform_samples(samples=got.get_mean()), i0)
    if uncertain:
        cx.eq('controls: covariance', to_physical(cx, ops[1], got.get_mean(), got.get_covariance())[1], U)
    for k in kept:
        cx.eq(k, cov[k], kept[k])
    w.untouched()


def steps(cx, subset, conv, n, **kw):
    w = World(cx, subset, **kw)
    m, ops = wrapped(cx, w, conv)
    nh = w.nt + w.na
    P0, _ = cx.psd('P0', nh, diag=True)
    m0 = cx.reals('m0', nh, -5, 5)
    f = AnyFilter(cx, m, MultivariateGaussian(mean=copy(m0), covariance=copy(P0)), DeltaDistribution(mean=cx.reals('u0', w.nu, -5, 5)), 'j')
    est = JointEstimator(f)
    w.labels(est)
    w.reported('before: ', est, *to_physical(cx, ops[0], m0, P0))
    for t in range(n):
        u = controls(cx, f'u{t + 1}.', temp=w.nu == 3)
        z = cx.reals(f'z{t + 1}', (1, w.ny), -5, 5)
        meas = Out(terminal_voltage=z[:, :1].copy(), **({'extra': z[:, 1:].copy()} if w.ny > 1 else {}))
        su, sz = snapshot(u), snapshot(meas)
        got, pred = est.step(u, meas)
        lab = f'step {t + 1}: '
        cx.true(lab + 'calls', len(f.calls) == t + 1, str(len(f.calls)))
        tu, cu, tz, cz, ck = f.calls[t]
        # the filter gets both in its own coordinates
        cx.eq(lab + 'controls', cu, to_filter(cx, ops[1], cx.arr([b for v in su.values() for b in v[0]]))[0])
        cx.eq(lab + 'measurement', cz, to_filter(cx, ops[2], z[0])[0])
        mean, cov = to_physical(cx, ops[0], f.hidden.get_mean(), f.hidden.get_covariance())
        dist(cx, lab + 'returned', got, mean, cov)
        dist(cx, lab + 'prediction', pred, *to_physical(cx, ops[2], f.output.get_mean(), f.output.get_covariance()))
        w.reported(lab, est, mean, cov)
        scribble(got.mean)
        scribble(got.covariance)
        w.reported(lab + 'later: ', est, mean, cov)
        unchanged(cx, lab + 'inputs argument', u, su)
        unchanged(cx, lab + 'measurement argument', meas, sz)
    w.untouched()


def unscented(cx, subset, normalize):
    w = World(cx, subset, nv=0)
    w.ordered()
    P, cov = covariances(cx, w.nt, w.na, 'diagonal')
    Q, _ = cx.psd('Q', w.nt + w.na, diag=True)
    R, _ = cx.psd('R', w.ny, diag=True)
    est = JointEstimator.initialize_unscented_kalman_filter(cell_model=w.cell, initial_asoh=w.h, initial_transients=w.x, initial_inputs=w.i,
                                                            normalize_asoh=normalize, joint_covariance_process_noise=Q, covariance_sensor_noise=R, **cov)
    u, z = controls(cx, 'u.'), Out(terminal_voltage=cx.real('z', -5, 5))
    got, pred = est.step(u, z)
    cx.shape('mean', got.get_mean(), (w.nt + w.na,))
    w.labels(est)
    w.reported('', est, got.get_mean(), got.get_covariance())


def cases(tier):
    out = []
    full = tier == 'thorough'
    for sub in ('none', 'cap', 'res', 'cap+sub', 'sub+res', 'all'):
        for how in ('separate', 'joint', 'both'):
            for nz in (False, True):
                if full or nz or sub in ('cap+sub', 'res'):
                    out.append(Case(f'init-{sub}-{how}-normalize={nz}', init, dict(subset=sub, how=how, normalize=nz)))
    out.append(Case('init-large', init, dict(subset='sub+res', how='diagonal', normalize=True, nv=2, aux=True, temp=True, extra=2)))
    convs = [('identity',) * 3, ('scale', 'identity', 'shift'), ('affine', 'shift', 'scale'), ('matrix', 'affine', 'affine'), ('shift', 'scale', 'matrix')]
    for conv in convs:
        nm = '-'.join(conv)
        for sub in ('cap', 'sub+res') + (('none', 'all') if full else ()):
            out.append(Case(f'wrapper-{sub}-{nm}', init_wrapped, dict(subset=sub, how='separate' if sub == 'sub+res' else 'joint', conv=conv, uncertain=sub == 'cap')))
        for sub in (SUBSETS if full else ('cap+sub', 'sub+res', 'none')):
            out.append(Case(f'steps-{sub}-{nm}', steps, dict(subset=sub, conv=conv, n=1, extra=1 if sub == 'cap+sub' else 0)))
    out.append(Case('two-steps', steps, dict(subset='cap', conv=('affine', 'affine', 'affine'), n=2)))
    out.append(Case('steps-large', steps, dict(subset='sub+res', conv=('affine', 'affine', 'affine'), n=1, nv=2, aux=True, temp=True, extra=2)))
    for nz in (False, True):
        out.append(Case(f'unscented-normalize={nz}', unscented, dict(subset='none', normalize=nz)))
    return out
