from symx.harness import Case
from .common import *

BOUNDS = ('circuits with 0 to 2 RC branches, with and without a series capacitor; one step and the same step in 2 or 3 parts; currents in [-20,20] A, parts of '
          '1e-3..500 s or of no duration; clock offsets up to 1e6 s either way; parameters constant (in parts) or given at 2 SOC points with temperature '
          'factors (clock, voltage)')
ASSUMPTIONS = ['the parameters do not depend on SOC in the cases which divide a step (they are held at their value at the start of each step)']


def model(mode):
    return EquivalentCircuitModel(current_behavior=mode)


def alike(cx, label, a, b):
    for f in fields(a):
        x, y = getattr(a, f), getattr(b, f)
        cx.true(f'{label}{f} present', (x is None) == (y is None))
        if x is not None:
            cx.eq(label + f, x, y)


def clock(cx, mode, rc, c0, nodes, temp, zero, batch=0):
    """The same step at another time of day."""
    asoh = build_asoh(cx, rc=rc, c0=c0, nodes=nodes, rc_nodes=1 if nodes > 1 and rc > 1 else nodes, h_nodes=nodes, temp_factor=temp)
    x = build_state(cx, rc=rc, c0=c0, soc=(0, 1))
    if nodes > 1 and zero:
        cx.assume(one(x.soc) >= 0.1)
    t0, off = cx.real('t0', 0, 1e6), cx.reals('off', batch, -1e6, 1e6) if batch else cx.real('off', -1e6, 1e6)
    dt = 0 if zero else cx.real('dt', 0.001, 1e6)
    i0, i1 = cx.real('i0', -20, 20), cx.real('i1', -20, 20)
    T0, T1 = (cx.real('T0', -20, 60), cx.real('T1', -20, 60)) if temp else (None, None)
    m = model(mode)
    a = m.update_transient_state(inputs(cx, t0, i0, T0), inputs(cx, t0 + dt, i1, T1), x, asoh)
    b = m.update_transient_state(inputs(cx, t0 + off, i0, T0), inputs(cx, t0 + off + dt, i1, T1), x, asoh)
    if batch:
        for k in range(batch):
            alike(cx, f'member {k}: ', member(b, k), a)
    else:
        alike(cx, '', b, a)


def voltage(cx, rc, c0, nodes, temp):
    """The voltage depends on the present current and temperature, not on when it is read."""
    asoh = build_asoh(cx, rc=rc, c0=c0, nodes=nodes, temp_factor=temp, ent=True)
    x = build_state(cx, rc=rc, c0=c0, soc=(0, 1))
    i, T = cx.real('i', -20, 20), cx.real('T', -20, 60) if temp else None
    v = [model(m).calculate_terminal_voltage(new_inputs=inputs(cx, t, i, T), transient_state=x, asoh=asoh).terminal_voltage
         for m, t in (('constant', cx.real('t0', 0, 1e6)), ('constant', cx.real('t1', -1e6, 1e6)), ('linear', cx.real('t2', 0, 1e6)))]
    cx.eq('another time', v[1], v[0])
    cx.eq('another mode', v[2], v[0])


def divided(cx, mode, rc, c0, parts, sign, ramp=False, empty=False):
    """A steady step made in parts."""
    asoh = build_asoh(cx, rc=rc, c0=c0, temp_factor=False)
    x = build_state(cx, rc=rc, c0=c0)
    d = [cx.real(f'd{k}', 0.001, 500) for k in range(parts)]
    if empty:
        d[empty - 1] = 0
    lo, hi = {'+': (0.001, 20), '-': (-20, -0.001), '0': (0, 0)}[sign]
    i0 = cx.real('i0', lo, hi) if sign != '0' else cx.const(0)
    i1 = cx.real('i1', lo, hi) if ramp else i0
    t0 = cx.real('t0', 0, 1e6)
    total = sum(d)
    m = model(mode)
    whole = m.update_transient_state(inputs(cx, t0, i0), inputs(cx, t0 + total, i1), x, asoh)
    at, t, y = i0, 0, x
    for k in range(parts):
        t2 = t + d[k]
        nxt = i0 + (i1 - i0) * t2 / total if ramp else i0
        y = m.update_transient_state(inputs(cx, t0 + t, at), inputs(cx, t0 + t2, nxt), y, asoh)
        at, t = nxt, t2
    for f in ('soc', 'q0') + (('i_rc',) if rc else ()):
        if f == 'q0' and not c0:
            continue
        cx.eq(f, getattr(y, f), getattr(whole, f))
    # the hysteresis relaxes by the charge passed: its distance to the limit shrinks by one factor, or by one for each part
    if ramp:
        return
    cx.eq('hyst', y.hyst, whole.hyst)


def rest(cx, mode, rc, c0, nodes):
    """Without current nothing moves but the branch currents, which decay."""
    asoh = build_asoh(cx, rc=rc, c0=c0, nodes=nodes, rc_nodes=1, h_nodes=nodes)
    x = build_state(cx, rc=rc, c0=c0, soc=(0, 1))
    t0, dt = cx.real('t0', 0, 1e6), cx.real('dt', 0.001, 1e6)
    z = cx.const(0)
    y = model(mode).update_transient_state(inputs(cx, t0, z), inputs(cx, t0 + dt, z), x, asoh)
    cx.eq('soc', y.soc, x.soc)
    cx.eq('hysteresis', y.hyst, x.hyst)
    if c0:
        cx.eq('series charge', y.q0, x.q0)
    for k in range(rc):
        a, b = x.i_rc[0, k], y.i_rc[0, k]
        if cx.branch(a >= 0):
            cx.le(f'branch {k} stays', 0, b)
            cx.le(f'branch {k} decays', b, a)
        else:
            cx.le(f'branch {k} stays', b, 0)
            cx.le(f'branch {k} decays', a, b)


def cases(tier):
    out = []
    for mode in ('constant', 'linear'):
        for rc, c0, nodes, temp, zero in ((0, True, 1, False, False), (1, True, 1, False, False), (1, False, 2, True, False), (2, False, 1, True, False),
                                          (1, True, 1, True, True), (2, False, 1, False, True)):
            out.append(Case(f'clock-{mode}-{rc}-{int(c0)}-{nodes}-{int(temp)}-{int(zero)}', clock,
                            dict(mode=mode, rc=rc, c0=c0, nodes=nodes, temp=temp, zero=zero), validate=1))
        out.append(Case(f'clock-{mode}-batch', clock, dict(mode=mode, rc=1, c0=True, nodes=1, temp=False, zero=False, batch=2), validate=1))
        for sign in '+-0':
            for rc, c0, parts in ((0, True, 2), (1, False, 2), (2, True, 2)) + (((0, True, 3), (1, False, 3)) if tier == 'thorough' or sign == '+' else ()):
                out.append(Case(f'divided-{mode}-{sign}-{rc}-{int(c0)}-{parts}', divided, dict(mode=mode, rc=rc, c0=c0, parts=parts, sign=sign), validate=1))
            for e in (1, 2):
                out.append(Case(f'divided-{mode}-{sign}-empty-{e}', divided, dict(mode=mode, rc=1, c0=True, parts=2, sign=sign, empty=e), validate=1))
        for rc, nodes in ((0, 2), (1, 1), (1, 2), (2, 1)):
            out.append(Case(f'rest-{mode}-{rc}-{nodes}', rest, dict(mode=mode, rc=rc, c0=rc != 1, nodes=nodes), validate=1))
    for sign in '+-':
        for rc in (0, 1, 2):
            out.append(Case(f'divided-ramp-{sign}-{rc}', divided, dict(mode='linear', rc=rc, c0=True, parts=2, sign=sign, ramp=True), validate=1))
    for rc, c0, nodes, temp in ((0, True, 2, False), (1, False, 2, True), (2, True, 1, True)):
        out.append(Case(f'voltage-{rc}-{nodes}-{int(temp)}', voltage, dict(rc=rc, c0=c0, nodes=nodes, temp=temp), validate=1))
    return out
