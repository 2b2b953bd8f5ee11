from symx.harness import Case
from .common import *
from moirae.models.ecm.utils import SOCInterpolatedHealth

BOUNDS = ('1 to 4, 12, 20 and 33 stored values at default or arbitrary SOC points stored in any order; queries in [-0.5,1.5], as number, vector of 2 or batch of '
          'vectors; parameter and SOC batches 1 to 3')
ASSUMPTIONS = ['stored SOC points differ by at least 0.01', 'only linear interpolation is compared against its formula; '
               'other styles are checked at their nodes for previous/next/nearest']


def nodes_of(cx, n, given):
    if not given:
        return None, None
    xs = [cx.real('x0', -0.2, 0.3)]
    for k in range(1, n):
        xs.append(xs[-1] + cx.real(f'gap{k}', 0.01, 0.5))
    return xs, cx.arr(xs)


def query(cx, shape):
    if shape == 's':
        return cx.real('q', -0.5, 1.5), 1, 1, None
    return cx.reals('q', shape, -0.5, 1.5), (1 if len(shape) == 1 else shape[0]), shape[-1], None


def interp(cx, cls, n, given, qshape, pb, perm=None):
    xs, xa = nodes_of(cx, n, given)
    y = vec(cx, 'y', n, -5, 5, pb)
    ys = np.asarray(y).reshape(max(pb, 1), n)
    if perm:        # the points are stored in this order
        xa, y = cx.arr([xs[k] for k in perm]), cx.arr(ys[:, perm]) if pb else cx.arr(ys[0, perm])
    kw = {} if xa is None else {'soc_pinpoints': xa}
    p = {'plain': SOCInterpolatedHealth, 'res': Resistance, 'cap': Capacitance, 'ocv': ReferenceOCV, 'hys': HysteresisParameters,
         'ent': EntropicOCV}[cls](base_values=y, **kw)
    q, sb, sd, _ = query(cx, qshape)
    qa = np.asarray(q).reshape(sb, sd)
    for rep in range(2):
        v = p.get_value(q if not cx.symbolic or qshape != 's' else q)
        cx.shape('value', v, (max(pb, 1), sb, sd))
        ya = np.asarray(y).reshape(max(pb, 1), n)
        for b in range(max(pb, 1)):
            for s in range(sb):
                for d in range(sd):
                    cx.eq(f'value[{b},{s},{d}]', v[b, s, d], lininterp(cx, ys[b], qa[s, d], xs))
    scribble(v)
    cx.eq('stored values after writing into the result', p.base_values, ya)


def too_many_axes(cx, cls, n, shape):
    """SOCs with more than the two axes described are refused, not spread over entries they do not belong to."""
    p = {'plain': SOCInterpolatedHealth, 'res': Resistance, 'cap': Capacitance, 'ocv': ReferenceOCV, 'ent': EntropicOCV}[cls](base_values=vec(cx, 'y', n, 0.5, 5))
    cx.raises('value', ValueError, lambda: p.get_value(cx.reals('q', shape, 0, 1)))


def at_nodes(cx, style, n):
    y = vec(cx, 'y', n, -5, 5)
    p = SOCInterpolatedHealth(base_values=y, interpolation_style=style)
    for k in range(n):
        v = p.get_value(cx.const(k) / cx.const(n - 1) if cx.symbolic else k / (n - 1))
        if style in ('quadratic', 'cubic'):     # spline weights come from scipy in floating point
            cx.le(f'value at node {k} not above', one(v) - y[k], 1e-9)
            cx.le(f'value at node {k} not below', y[k] - one(v), 1e-9)
        else:
            cx.eq(f'value at node {k}', one(v), y[k])


def resist(cx, n, qshape, pb, fb, mode, Tb=0):
    y = vec(cx, 'y', n, 0.001, 1, pb)
    q, sb, sd, _ = query(cx, qshape)
    qa = np.asarray(q).reshape(sb, sd)
    if mode == 'default':
        r = Resistance(base_values=y)
        fs = [cx.const(0.)]
        tr = 25.
    else:
        f = scal(cx, 'f', -0.05, 0.05, fb)
        r = Resistance(base_values=y, temperature_dependence_factor=f)
        fs = list(np.asarray(f).reshape(-1))
        r.reference_temperature = tr = cx.real('tr', 0, 40)
    cx.eq('factor', r.temperature_dependence_factor.reshape(-1), cx.arr(fs))
    nb = max(pb, fb, 1)
    T = scal(cx, 'T', -60, 100, Tb) if mode != 'no temperature' else None
    Ta = None if T is None else np.asarray(T).reshape(-1)
    v = r.get_value(q, T) if not Tb else r.get_value(q, cx.arr(Ta.reshape(-1, 1)))
    v2 = r.get_value(soc=q, temp=None)
    sbr = max(sb, Tb, 1)
    # without a temperature effect the temperature batch leaves no trace
    cx.true('value shape', tuple(v.shape) in ((nb, sbr, sd), (nb, sb, sd)) and (v.shape[1] == sbr or all(cx.branch(f == 0) for f in fs)),
            f'{v.shape}')
    sbr = v.shape[1]
    cx.shape('reference value', v2, (nb, sb, sd))
    ya = np.asarray(y).reshape(max(pb, 1), n)
    for b in range(nb):
        for s in range(sbr):
            for d in range(sd):
                base = lininterp(cx, ya[min(b, max(pb, 1) - 1)], qa[min(s, sb - 1), d])
                e = base
                if T is not None:
                    e = base * cx.exp(-fs[min(b, len(fs) - 1)] * (Ta[min(s, len(Ta) - 1)] - tr))
                cx.eq(f'value[{b},{s},{d}]', v[b, s, d], e)
                if s < sb:
                    cx.eq(f'reference value[{b},{s},{d}]', v2[b, s, d], base)


def rc(cx, n, temp):
    c = RCComponent(r=Resistance(base_values=vec(cx, 'r', n, 0.001, 1), temperature_dependence_factor=cx.real('f', -0.05, 0.05)),
                    c=Capacitance(base_values=vec(cx, 'c', n, 1, 1000)))
    q = cx.real('q', -0.5, 1.5)
    T = cx.real('T', -60, 100) if temp else None
    r, k = resistance(cx, c.r, q, T), lininterp(cx, c.c.base_values, q)
    a, b = c.get_value(q, T)
    cx.eq('resistance', one(a), r)
    cx.eq('capacitance', one(b), k)
    cx.eq('time constant', one(c.time_constant(q, T)), r * k)


def ocv(cx, n, pb, eb, temp, sb):
    ref = ReferenceOCV(base_values=vec(cx, 'o', n, 1, 5, pb), reference_temperature=cx.real('tr', 0, 40))
    o = OpenCircuitVoltage(ocv_ref=ref, ocv_ent=EntropicOCV(base_values=vec(cx, 'e', n, -0.1, 0.1, eb)))
    q = cx.reals('q', (sb, 1), -0.5, 1.5)
    T = cx.real('T', -60, 100) if temp else None
    for v in (o.get_value(q, T), o(q, T)):
        nb = max(pb, eb, 1) if temp else max(pb, 1)
        cx.true('shape', v.shape[0] in (nb, max(pb, eb, 1)) and v.shape[1:] == (sb, 1), f'{v.shape}')
        for b in range(v.shape[0]):
            for s in range(sb):
                e = lininterp(cx, np.asarray(ref.base_values)[min(b, max(pb, 1) - 1)], q[s, 0])
                if temp:
                    e = e + (T - one(ref.reference_temperature)) * lininterp(cx, np.asarray(o.ocv_ent.base_values)[min(b, max(eb, 1) - 1)], q[s, 0])
                cx.eq(f'ocv[{b},{s}]', v[b, s, 0], e)


def capacity(cx, b):
    q = scal(cx, 'q', 0.1, 100, b)
    m = MaxTheoreticalCapacity(base_values=q)
    qa = np.asarray(q).reshape(-1, 1)
    cx.eq('amp-hour', m.amp_hour, qa)
    cx.eq('amp-second', m.value, qa * 3600)
    v = scal(cx, 'v', 100, 1e6, b)
    m.value = cx.arr(np.asarray(v).reshape(-1, 1))
    cx.eq('amp-second after setting', m.value, np.asarray(v).reshape(-1, 1))
    cx.eq('amp-hour after setting', m.amp_hour, np.asarray(v).reshape(-1, 1) / cx.const(3600))


def resized(cx, old, new, dtype=float):
    """Setting the capacity replaces all of it, whatever was stored before."""
    m = MaxTheoreticalCapacity(base_values=np.ones((old, 1), dtype=dtype) * 3)
    v = cx.reals('v', (new, 1), 0.01, 1e6)
    m.value = cx.arr(v)
    cx.shape('amp-second', m.value, (new, 1))
    cx.eq('amp-second', m.value, v)
    cx.eq('amp-hour', m.amp_hour, v / cx.const(3600))
    cx.eq('stored', m.base_values, v / cx.const(3600))


def cases(tier):
    out = []
    th = tier == 'thorough'
    for n in (1, 2, 3, 4):
        for given in (False, True) if n > 1 else (False,):
            for qs, pb in [('s', 0), ((2,), 0), ((2, 1), 0), ((2, 2), 2), ((1, 1), 3), ((3, 1), 3)]:
                if n == 4 and not th and qs not in ('s', (2, 1)):
                    continue
                if given and qs in ((2, 2), (3, 1)) and n > 2 and not th:
                    continue
                out.append(Case(f'interp-n={n}-given={int(given)}-q={qs}-pb={pb}', interp, dict(cls='plain', n=n, given=given, qshape=qs, pb=pb)))
    for n in (12, 20, 33):
        for given in (False, True):
            out.append(Case(f'interp-many-n={n}-given={int(given)}', interp, dict(cls=('plain', 'res', 'ocv')[n % 3], n=n, given=given, qshape='s', pb=0), validate=1))
    for cls in ('plain', 'res', 'cap', 'ocv', 'ent'):
        for n in (1, 2, 3):
            for shape in ((1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 2), (1, 1, 1, 1), (2, 1, 2, 1)) if cls == 'plain' else ((1, 1, 1), (2, 1, 2)):
                out.append(Case(f'axes-{cls}-{n}-{shape}', too_many_axes, dict(cls=cls, n=n, shape=shape), validate=1))
    for n, perm in ((2, (1, 0)), (3, (2, 0, 1)), (3, (0, 2, 1)), (3, (2, 1, 0)), (4, (1, 3, 0, 2))):
        for qs, pb in (('s', 0), ((2, 1), 2)) if n < 4 else (('s', 0),):
            out.append(Case(f'interp-order={"".join(map(str, perm))}-q={qs}-pb={pb}', interp, dict(cls='plain', n=n, given=True, qshape=qs, pb=pb, perm=list(perm))))
    for old, new in ((1, 1), (1, 2), (2, 1), (2, 3)):
        for dt in (float, int):
            out.append(Case(f'capacity-set-{old}-{new}-{dt.__name__}', resized, dict(old=old, new=new, dtype=dt)))
    for cls in ('res', 'cap', 'ocv', 'hys', 'ent'):
        out.append(Case(f'interp-{cls}', interp, dict(cls=cls, n=2, given=False, qshape='s', pb=0)))
        out.append(Case(f'interp-{cls}-given', interp, dict(cls=cls, n=3, given=True, qshape=(1, 1), pb=0)))
    for style in ('nearest', 'previous', 'next', 'slinear', 'nearest-up', 'zero', 'quadratic', 'cubic'):
        out.append(Case(f'nodes-{style}', at_nodes, dict(style=style, n=4)))
    for n, qs, pb, fb, mode, Tb in [(1, 's', 0, 0, 'full', 0), (2, 's', 0, 0, 'full', 0), (2, (2, 1), 2, 0, 'full', 0), (1, (1, 1), 0, 2, 'full', 0),
                                    (2, (1, 1), 0, 2, 'full', 0), (1, (2, 1), 0, 2, 'full', 0), (1, (1, 1), 2, 2, 'full', 0), (1, 's', 0, 0, 'default', 0),
                                    (2, 's', 0, 0, 'no temperature', 0), (1, (2, 1), 0, 0, 'full', 2), (2, (1, 1), 0, 0, 'full', 2), (3, (2,), 0, 0, 'full', 0)]:
        out.append(Case(f'resistance-n={n}-q={qs}-pb={pb}-fb={fb}-{mode}-Tb={Tb}', resist, dict(n=n, qshape=qs, pb=pb, fb=fb, mode=mode, Tb=Tb)))
    for n in (1, 2):
        for t in (False, True):
            out.append(Case(f'rc-n={n}-temp={int(t)}', rc, dict(n=n, temp=t)))
    for n, pb, eb, t, sb in [(1, 0, 0, True, 1), (2, 0, 0, True, 1), (2, 0, 0, False, 1), (2, 2, 0, True, 1), (2, 0, 2, True, 1), (2, 2, 2, True, 2), (3, 0, 0, True, 2), (1, 0, 2, True, 2)]:
        out.append(Case(f'ocv-n={n}-pb={pb}-eb={eb}-temp={int(t)}-sb={sb}', ocv, dict(n=n, pb=pb, eb=eb, temp=t, sb=sb)))
    for b in (0, 2):
        out.append(Case(f'capacity-{b}', capacity, dict(b=b)))
    return out
