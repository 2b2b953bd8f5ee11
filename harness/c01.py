from symx.harness import Case
from .common import *

BOUNDS = ('one step (or two consecutive ones) from an arbitrary state; currents in [-5000,5000] A; '
          'step 1e-4..1e7 s, or of no duration; capacity 0.01..500 Ah, or 1e-5..1e-4 Ah; efficiency 0.5..1.5; 0 to 2 RC branches; or 3 members that each have their own step, currents and state')
ASSUMPTIONS = []


def current(cx, name):
    return cx.real(name, -5000, 5000)


def charges(cx, mode, i0, i1, dt):
    """(charge passed while charging, while discharging) by the definition of the current profile."""
    if mode == 'constant':
        q = i0 * dt
        return (q, 0) if cx.branch(i0 >= 0) else (0, q)
    if cx.branch(i0 >= 0) == cx.branch(i1 >= 0) or cx.branch(i0 == 0) or cx.branch(i1 == 0):
        q = (i0 + i1) * dt / 2
        return (q, 0) if cx.branch(i0 + i1 >= 0) else (0, q)
    t = dt * i0 / (i0 - i1)
    qa, qb = i0 * t / 2, i1 * (dt - t) / 2
    return (qa, qb) if cx.branch(i0 > 0) else (qb, qa)


def step(cx, mode, c0, rc, temp):
    asoh = build_asoh(cx, rc=rc, c0=c0, ce_hi=1.5)
    st = build_state(cx, rc=rc, c0=c0)
    i0, i1 = current(cx, 'i0'), current(cx, 'i1')
    dt = cx.real('dt', 1e-4, 1e7)
    t0 = cx.real('t0', 0, 1e6)
    T = cx.real('T', -60, 100) if temp else None
    new = EquivalentCircuitModel(current_behavior=mode).update_transient_state(
        inputs(cx, t0, i0, T), inputs(cx, t0 + dt, i1, T), st, asoh)
    qp, qn = charges(cx, mode, i0, i1, dt)
    Q = one(asoh.q_t.base_values) * 3600
    ce = one(asoh.ce)
    cx.shape('soc', new.soc, (1, 1))
    cx.eq('soc', one(new.soc), one(st.soc) + (ce * qp + qn) / Q)
    if c0:
        cx.eq('q0', one(new.q0), one(st.q0) + qp + qn)
    else:
        cx.true('no q0', new.q0 is None)


def cut(cx, mode, c0):
    asoh = build_asoh(cx, rc=0, c0=c0)
    st = build_state(cx, rc=0, c0=c0)
    i0, i1 = current(cx, 'i0'), current(cx, 'i1')
    d1, d2 = cx.real('d1', 1e-4, 1e4), cx.real('d2', 1e-4, 1e4)
    # the current the model assumes at the cut
    im = i0 if mode == 'constant' else i0 + (i1 - i0) * d1 / (d1 + d2)
    m = EquivalentCircuitModel(current_behavior=mode)
    a, b, c = inputs(cx, 0., i0), inputs(cx, d1, im), inputs(cx, d1 + d2, i1)
    whole = m.update_transient_state(a, c, st, asoh)
    parts = m.update_transient_state(b, c, m.update_transient_state(a, b, st, asoh), asoh)
    cx.eq('soc', one(whole.soc), one(parts.soc))
    if c0:
        cx.eq('q0', one(whole.q0), one(parts.q0))


def instant(cx, mode, c0):
    """No charge passes in a step without duration, whatever the currents are."""
    asoh, st = build_asoh(cx, rc=1, c0=c0), build_state(cx, rc=1, c0=c0)
    t = cx.real('t', 0, 1e6)
    new = EquivalentCircuitModel(current_behavior=mode).update_transient_state(inputs(cx, t, current(cx, 'i0')), inputs(cx, t, current(cx, 'i1')), st, asoh)
    cx.eq('soc', new.soc, st.soc)
    if c0:
        cx.eq('q0', new.q0, st.q0)


def micro(cx, mode):
    """The law does not depend on the size of the cell."""
    Q = cx.real('Q', 1e-5, 1e-4)
    asoh, st = build_asoh(cx, rc=0, Q=Q), build_state(cx, rc=0)
    i0, i1 = cx.real('i0', 0, 1e-3), cx.real('i1', 0, 1e-3)
    dt = cx.real('dt', 0.001, 100)
    new = EquivalentCircuitModel(current_behavior=mode).update_transient_state(inputs(cx, 0., i0), inputs(cx, dt, i1), st, asoh)
    q = i0 * dt if mode == 'constant' else (i0 + i1) * dt / 2
    cx.eq('soc', one(new.soc), one(st.soc) + one(asoh.ce) * q / (3600 * Q))


def members(cx, mode, k, n):
    """Every member of a batch follows its own current and clock."""
    asoh, st = build_asoh(cx, c0=True, nb=n, batch=('q_t', 'ce')), build_state(cx, c0=True, nb=n, batch=('soc', 'q0'))
    sign = lambda j, end: (-5000, 5000) if j == k else [((1, 500), (1, 500)), ((1, 500), (-500, -1)), ((-500, -1), (-500, -1)), ((-500, -1), (1, 500))][(j + k) % 4][end]
    i0, i1 = [cx.arr([[cx.real(f'{nm}_{j}', *sign(j, e))] for j in range(n)]) for e, nm in enumerate(('i0', 'i1'))]
    t0, dt = cx.reals('t0', (n, 1), 0, 1e3), cx.reals('dt', (n, 1), 0.01, 1e7)
    new = EquivalentCircuitModel(current_behavior=mode).update_transient_state(inputs(cx, t0, i0), inputs(cx, t0 + dt, i1), st, asoh)
    cx.shape('soc', new.soc, (n, 1))
    qp, qn = charges(cx, mode, i0[k, 0], i1[k, 0], dt[k, 0])
    cx.eq('soc', new.soc[k, 0], st.soc[k, 0] + (asoh.ce[k, 0] * qp + qn) / (asoh.q_t.base_values[k, 0] * 3600))
    cx.eq('q0', new.q0[k, 0], st.q0[k, 0] + qp + qn)


def cases(tier):
    out = []
    for mode in ('constant', 'linear'):
        out.append(Case(f'micro-{mode}', micro, dict(mode=mode)))
        for k in range(3):
            out.append(Case(f'members-{mode}-{k}', members, dict(mode=mode, k=k, n=3)))
        out.append(Case(f'instant-{mode}', instant, dict(mode=mode, c0=True)))
        for c0 in (False, True):
            for rc in (0, 1, 2) if (tier == 'thorough' or c0) else (0,):
                out.append(Case(f'step-{mode}-c0={int(c0)}-rc={rc}', step, dict(mode=mode, c0=c0, rc=rc, temp=bool(rc))))
            out.append(Case(f'cut-{mode}-c0={int(c0)}', cut, dict(mode=mode, c0=c0)))
    return out
