from symx.harness import Case
from .online import *
from .c21 import World
from moirae.estimators.online.dual import DualEstimator
from moirae.estimators.online.utils.model import CellModelWrapper, DegradationModelWrapper

BOUNDS = ('2 to 4 transients, 1 to 4 estimated health parameters (scalars, lists, nested) out of 4, in any order of names, all updatable parameters or a part of '
          'them; normalised or not, parameters possibly zero; identity, scaled, shifted, affine and matrix conversions in each filter; before and after one and '
          'two steps of two filters with arbitrary posteriors; one and two steps of two unscented filters (1 transient, 1 parameter)')
ASSUMPTIONS = ['the conversion operators are right (C14)', 'the cell model is a function of its arguments (uninterpreted)',
               'the filters are arbitrary (C16 to C19 are about the one provided)']


class Watching(AnyFilter):
    """Notes which health parameters or transients the model holds when the filter is stepped."""
    def seen(self, t):
        if not hasattr(self, 'held'):
            self.held = []
        self.held.append((snapshot(self.model.asoh), snapshot(self.model.transients)))


def controls_of(cx, snap):
    return cx.arr([b for v in snap.values() for b in v[0]])


def init(cx, subset, normalize, diag=False, **kw):
    w = World(cx, subset, **kw)
    w.ordered()
    Pt, _ = cx.psd('Pt', w.nt, diag=diag)
    Pa, _ = cx.psd('Pa', w.na, diag=diag)
    kept = copy(Pt), copy(Pa)
    Qt, Qa, R = [cx.psd(n, d, diag=True)[0] for n, d in (('Qt', w.nt), ('Qa', w.na), ('R', w.ny))]
    est = DualEstimator.initialize_unscented_kalman_filter(
        cell_model=w.cell, initial_asoh=w.h, initial_transients=w.x, initial_inputs=w.i, covariance_transient=Pt, covariance_asoh=Pa,
        transient_covariance_process_noise=Qt, asoh_covariance_process_noise=Qa, covariance_sensor_noise=R, normalize_asoh=normalize)
    w.labels(est)
    w.reported('', est, w.mean(), blocks(cx, *kept))
    for f in (est.trans_filter, est.asoh_filter):
        cx.eq('controls', f.controls.get_mean(), controls_of(cx, w.snap[2]))
    cx.eq('transient covariance', Pt, kept[0])
    cx.eq('health covariance', Pa, kept[1])
    w.untouched()


def wrappers(cx, w, convs):
    ops, ms = [], []
    for k, (cls, n, d, conv) in enumerate(((CellModelWrapper, 'x', w.nt, convs[0]), (DegradationModelWrapper, 'a', w.na, convs[1]))):
        o = [operator(cx, kind, size, f'c{n}{q}.') for kind, size, q in zip(conv, (d, w.nu, w.ny), 'huy')]
        extra = {'asoh_inputs': w.names} if k else {}
        ms.append(cls(w.cell, w.h, w.x, w.i, converters=dict(hidden_conversion_operator=o[0], control_conversion_operator=o[1],
                                                             output_conversion_operator=o[2]), **extra))
        ops.append([p.model_copy(deep=True) for p in o])
    return ms, ops


def more_updatable(w, names):
    """Also allow others than the estimated parameters to be updated."""
    for n in names:
        w.h.mark_updatable(n)
    w.allowed = set(w.names) | set(names)


def init_wrapped(cx, subset, convs, uncertain=False, also=(), **kw):
    w = World(cx, subset, **kw)
    more_updatable(w, also)
    ms, ops = wrappers(cx, w, convs)
    Pt, _ = cx.psd('Pt', w.nt)
    Pa, _ = cx.psd('Pa', w.na)
    extra = {}
    if uncertain:
        extra['inputs_uncertainty'] = cx.psd('U', w.nu)[0]
    est = DualEstimator.initialize_ukf_from_wrappers(ms[0], ms[1], covariance_transient=copy(Pt), covariance_asoh=copy(Pa), **extra)
    w.labels(est)
    w.reported('', est, w.mean(), blocks(cx, Pt, Pa))
    for f, o in zip((est.trans_filter, est.asoh_filter), ops):
        cx.eq('controls', o[1].transform_samples(samples=f.controls.get_mean()), controls_of(cx, w.snap[2]))
        if uncertain:
            cx.eq('controls: covariance', to_physical(cx, o[1], f.controls.get_mean(), f.controls.get_covariance())[1], extra['inputs_uncertainty'])
    w.untouched()


def steps(cx, subset, convs, n, also=(), **kw):
    w = World(cx, subset, **kw)
    more_updatable(w, also)
    ms, ops = wrappers(cx, w, convs)
    fs, first = [], []
    for m, d, nm in zip(ms, (w.nt, w.na), 'xa'):
        P0, _ = cx.psd(f'{nm}P', d, diag=True)
        m0 = cx.reals(f'{nm}0', d, -5, 5)
        first.append((m0, P0))
        fs.append(Watching(cx, m, MultivariateGaussian(mean=copy(m0), covariance=copy(P0)), DeltaDistribution(mean=cx.reals(f'{nm}u', w.nu, -5, 5)), nm))
    est = DualEstimator(fs[0], fs[1])
    w.labels(est)

    def physical(pairs):
        p = [to_physical(cx, o[0], m, P) for o, (m, P) in zip(ops, pairs)]
        return cx.arr(list(p[0][0]) + list(p[1][0])), blocks(cx, p[0][1], p[1][1])
    mean, cov = physical(first)
    w.reported('before: ', est, mean, cov)
    for t in range(n):
        u = controls(cx, f'u{t + 1}.', temp=w.nu == 3)
        z = cx.reals(f'z{t + 1}', (1, w.ny), -5, 5)
        meas = Out(terminal_voltage=z[:, :1].copy(), **({'extra': z[:, 1:].copy()} if w.ny > 1 else {}))
        su, sz = snapshot(u), snapshot(meas)
        prior = mean
        got, pred = est.step(u, meas)
        lab = f'step {t + 1}: '
        for f, o, nm in zip(fs, ops, ('transient', 'health')):
            cx.true(lab + f'{nm} calls', len(f.calls) == t + 1, str(len(f.calls)))
            _, cu, _, cz, _ = f.calls[t]
            cx.eq(lab + f'{nm} controls', cu, to_filter(cx, o[1], controls_of(cx, su))[0])
            cx.eq(lab + f'{nm} measurement', cz, to_filter(cx, o[2], z[0])[0])
        # each filter worked with the previous estimate of the other one
        held_h = fs[0].held[t][0]
        want = expected(w.snap[0], w.names, HEALTH, list(prior[w.nt:]))
        for p in held_h:
            cx.eq(lab + f'health given to the transient filter: {p}', held_h[p], [want[p]])
        held_x = fs[1].held[t][1]
        want = expected(w.snap[1], w.tsizes, w.tsizes, list(prior[:w.nt]))
        for p in held_x:
            cx.eq(lab + f'transients given to the health filter: {p}', held_x[p], [want[p]])
        mean, cov = physical([(f.hidden.get_mean(), f.hidden.get_covariance()) for f in fs])
        dist(cx, lab + 'returned', got, mean, cov)
        dist(cx, lab + 'prediction', pred, *to_physical(cx, ops[0][2], fs[0].output.get_mean(), fs[0].output.get_covariance()))
        w.reported(lab, est, mean, cov)
        scribble(got.mean)
        scribble(got.covariance)
        w.reported(lab + 'later: ', est, mean, cov)
        unchanged(cx, lab + 'inputs argument', u, su)
        unchanged(cx, lab + 'measurement argument', meas, sz)
    w.untouched()


def unscented(cx, normalize, n, subset='cap'):
    """Two unscented filters on one transient and one parameter: what the models are evaluated with."""
    w = World(cx, subset, nv=0)
    w.ordered()
    Pt, _ = cx.psd('Pt', 1)
    Pa, _ = cx.psd('Pa', 1)
    Qt, Qa, R = [cx.psd(k, 1)[0] for k in ('Qt', 'Qa', 'R')]
    for nm in w.names:
        for v in w.snap[0][nm][0]:
            cx.assume_any(v >= 0.1, v <= -0.1)
    est = DualEstimator.initialize_unscented_kalman_filter(
        cell_model=w.cell, initial_asoh=w.h, initial_transients=w.x, initial_inputs=w.i, covariance_transient=Pt, covariance_asoh=Pa,
        transient_covariance_process_noise=Qt, asoh_covariance_process_noise=Qa, covariance_sensor_noise=R, normalize_asoh=normalize)
    for t in range(n):
        u, z = controls(cx, f'u{t + 1}.'), Out(terminal_voltage=cx.real(f'z{t + 1}', -5, 5))
        got, pred = est.step(u, z)
        cx.shape(f'step {t + 1}: mean', got.get_mean(), (2,))
        w.reported(f'step {t + 1}: ', est, got.get_mean(), got.get_covariance())


def cases(tier):
    out = []
    full = tier == 'thorough'
    for sub in ('cap', 'res', 'cap+sub', 'sub+res', 'all'):
        for nz in (False, True):
            if full or nz or sub in ('cap+sub', 'res'):
                out.append(Case(f'init-{sub}-normalize={nz}', init, dict(subset=sub, normalize=nz)))
    out.append(Case('init-large', init, dict(subset='sub+res', normalize=True, diag=True, nv=2, aux=True, temp=True, extra=2)))
    convs = [(('identity',) * 3, ('identity',) * 3), (('scale', 'identity', 'shift'), ('affine', 'identity', 'identity')),
             (('affine', 'shift', 'scale'), ('shift', 'affine', 'affine')), (('matrix', 'affine', 'affine'), ('scale', 'scale', 'shift')),
             (('identity', 'identity', 'identity'), ('matrix', 'matrix', 'scale')), (('shift', 'matrix', 'matrix'), ('affine', 'shift', 'identity'))]
    for conv in convs:
        nm = '-'.join(c[:2] for p in conv for c in p)
        for sub in ('cap', 'sub+res') + (('res', 'all') if full else ()):
            out.append(Case(f'wrappers-{sub}-{nm}', init_wrapped, dict(subset=sub, convs=conv, uncertain=sub == 'cap')))
            out.append(Case(f'steps-{sub}-{nm}', steps, dict(subset=sub, convs=conv, n=1, extra=1 if sub == 'cap' else 0)))
    for sub, also in (('cap', ('res',)), ('sub', ('cap', 'res')), ('sub+res', ('cap',)), ('none', ('cap',))):
        if sub != 'none':
            out.append(Case(f'part-{sub}-of-{"+".join(also)}', steps, dict(subset=sub, also=also, convs=convs[2], n=1)))
            out.append(Case(f'wrappers-part-{sub}-of-{"+".join(also)}', init_wrapped, dict(subset=sub, also=also, convs=convs[2])))
    for conv in (convs[0], convs[2]):
        out.append(Case('two-steps-' + '-'.join(conv[0]), steps, dict(subset='cap+sub', convs=conv, n=2)))
    out.append(Case('steps-large', steps, dict(subset='sub+res', convs=convs[2], n=1, nv=2, aux=True, temp=True, extra=2)))
    for nz in (False, True):
        for n in (1, 2) if full else (1,):
            out.append(Case(f'unscented-normalize={nz}-{n}', unscented, dict(normalize=nz, n=n)))
    return out
