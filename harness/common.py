"""Builders of the code's own objects from symbolic (or float) values, through public constructors only."""
import numpy as np
from moirae.models.ecm import EquivalentCircuitModel
from moirae.models.ecm.ins_outs import ECMInput, ECMMeasurement
from moirae.models.ecm.transient import ECMTransientVector
from moirae.models.ecm.advancedSOH import ECMASOH
from moirae.models.ecm.components import (MaxTheoreticalCapacity, Resistance, Capacitance, RCComponent, ReferenceOCV,
                                          EntropicOCV, OpenCircuitVoltage, HysteresisParameters)


def vec(cx, name, n, lo, hi, batch=0):
    """n values (a list parameter); with a batch, a (batch, n) array."""
    return cx.reals(name, (batch, n) if batch else (n,), lo, hi)


def scal(cx, name, lo, hi, batch=0):
    return cx.reals(name, (batch,), lo, hi) if batch else cx.real(name, lo, hi)


def build_asoh(cx, rc=0, c0=False, nodes=1, ocv_nodes=2, h_nodes=1, temp_factor=False, ent=False, batch=(), nb=2, soc_nodes=None, pre='',
               ce_lo=0.5, ce_hi=1, c_hi=1e6, gamma=True, rc_nodes=None, Q=None):
    """A circuit whose every parameter is an input.  batch: names of the parameters that carry a batch of size nb."""
    b = lambda k: nb if k in batch else 0
    rn = nodes if rc_nodes is None else rc_nodes

    def res(name, n, lo, hi, key):
        r = Resistance(base_values=vec(cx, name, n, lo, hi, b(key)))
        if temp_factor:
            r = Resistance(base_values=vec(cx, name + 'b', n, lo, hi, b(key)),
                           temperature_dependence_factor=scal(cx, name + '_tf', -0.05, 0.05, b(key + '.tf')))
            r.reference_temperature = cx.real(name + '_tr', 0, 40)
        return r
    q = MaxTheoreticalCapacity(base_values=scal(cx, pre + 'q_t', 0.01, 500, b('q_t')) if Q is None else cx.arr([[Q]]))
    ref = ReferenceOCV(base_values=vec(cx, pre + 'ocv', ocv_nodes, 1, 5, b('ocv')))
    if ent:
        ref.reference_temperature = cx.arr([[cx.real(pre + 'ocv_tr', 0, 40)]]) if not b('ocv.tr') else cx.reals(pre + 'ocv_tr', (nb, 1), 0, 40)
        ocv = OpenCircuitVoltage(ocv_ref=ref, ocv_ent=EntropicOCV(base_values=vec(cx, pre + 'ent', ocv_nodes, -0.1, 0.1, b('ent'))))
    else:
        ocv = OpenCircuitVoltage(ocv_ref=ref)
    kw = {}
    if c0:
        kw['c0'] = Capacitance(base_values=vec(cx, pre + 'c0', nodes, 1, 1e8, b('c0')))
    rcs = tuple(RCComponent(r=res(f'{pre}rc{i}_r', rn, 1e-5, 100, f'rc{i}.r'),
                            c=Capacitance(base_values=vec(cx, f'{pre}rc{i}_c', rn, 0.1, c_hi, b(f'rc{i}.c')))) for i in range(rc))
    h = HysteresisParameters(base_values=vec(cx, pre + 'h0', h_nodes, 0, 20, b('h0')),
                             gamma=scal(cx, pre + 'gamma', 0.01, 5, b('gamma')) if gamma else 0.)
    return ECMASOH(q_t=q, ce=scal(cx, pre + 'ce', ce_lo, ce_hi, b('ce')), ocv=ocv, r0=res(pre + 'r0', nodes, 1e-5, 100, 'r0'),
                   rc_elements=rcs, h0=h, **kw)


def build_state(cx, rc=0, c0=False, batch=(), nb=2, pre='', soc=(0.05, 0.95)):
    b = lambda k: nb if k in batch else 0
    kw = {}
    if c0:
        kw['q0'] = scal(cx, pre + 'q0', -1e4, 1e4, b('q0'))
    irc = vec(cx, pre + 'irc', rc, -200, 200, b('i_rc')) if rc else ()
    return ECMTransientVector(soc=scal(cx, pre + 'soc', soc[0], soc[1], b('soc')), i_rc=irc,
                              hyst=scal(cx, pre + 'hyst', -20, 20, b('hyst')), **kw)


def inputs(cx, t, i, temp=None):
    kw = {} if temp is None else {'temperature': temp}
    return ECMInput(time=t, current=i, **kw)


def one(a):
    """The only entry of an array."""
    return np.asarray(a).reshape(-1)[0]


def lininterp(cx, ys, q, xs=None):
    """Straight lines through (xs, ys), outermost segments extended; one value applies everywhere."""
    ys = [y for y in np.asarray(ys).reshape(-1)]
    n = len(ys)
    if n == 1:
        return ys[0]
    if xs is None:
        xs = [cx.const(k) / cx.const(n - 1) for k in range(n)]
    hi = n - 1
    for k in range(1, n):
        if cx.branch(q <= xs[k]):
            hi = k
            break
    lo = hi - 1
    return ys[lo] + (ys[hi] - ys[lo]) * (q - xs[lo]) / (xs[hi] - xs[lo])


def resistance(cx, r, q, T):
    """Independent reading of a resistance at SOC q and temperature T."""
    v = lininterp(cx, r.base_values, q)
    f = one(r.temperature_dependence_factor)
    if T is None:
        return v
    return v * cx.exp(-f * (T - r.reference_temperature))


# ------------------------------------------------------------------ walking containers without their own accessors
def fields(m):
    return list(type(m).model_fields)


def walk(m, pre=''):
    """(path, owner, field, array) of every numeric array held by a container, nested or not."""
    for f in fields(m):
        v = getattr(m, f)
        if isinstance(v, np.ndarray):
            yield pre + f, m, f, v
        elif hasattr(type(v), 'model_fields'):
            yield from walk(v, f'{pre}{f}.')
        elif isinstance(v, (tuple, list)):
            for i, x in enumerate(v):
                if hasattr(type(x), 'model_fields'):
                    yield from walk(x, f'{pre}{f}.{i}.')
        elif isinstance(v, dict):
            for k, x in v.items():
                if hasattr(type(x), 'model_fields'):
                    yield from walk(x, f'{pre}{f}.{k}.')


def member(m, b):
    """A copy holding member b of every batched value."""
    c = m.model_copy(deep=True)
    for _, o, f, v in list(walk(c)):
        if f == 'soc_pinpoints':
            continue
        setattr(o, f, v[min(b, v.shape[0] - 1):][:1].copy() if v.shape[0] > 1 else v.copy())
    return c


def pick(a, b):
    return a[b] if a.shape[0] > 1 else a[0]


def snapshot(m):
    return {p: np.array(v, copy=True) for p, _, _, v in walk(m) if not p.endswith('soc_pinpoints')}


def unchanged(cx, label, m, snap):
    now = {p: v for p, _, _, v in walk(m) if not p.endswith('soc_pinpoints')}
    cx.true(f'{label}: same fields', set(now) == set(snap), f'{sorted(now)} vs {sorted(snap)}')
    for p in snap:
        cx.eq(f'{label}.{p}', now[p], snap[p])


def scribble(a):
    """Overwrite an array in place (skipping storage that refuses)."""
    try:
        a[...] = 7.
    except (ValueError, RuntimeError):
        pass
