from symx.harness import Case
from .common import *

BOUNDS = ('one step from an arbitrary state; 1 to 3 RC branches; R and C constant or given at 2-3 SOC points; SOC in [-0.1,1.1]; '
          'currents in [-5000,5000] A; step 1e-4..1e7 s, or of no duration; R 1e-5..100 Ohm, C 0.1..1e6 F; or 2-3 members that each have their own step, currents, state and parameters')
ASSUMPTIONS = ['temperature factors in [-0.05,0.05] 1/K, temperatures -60..100']


def step(cx, mode, rc, nodes, temp, c0=False):
    asoh = build_asoh(cx, rc=rc, c0=c0, rc_nodes=nodes, temp_factor=temp)
    st = build_state(cx, rc=rc, c0=c0, soc=(-0.1, 1.1) if nodes > 1 and rc == 1 else (0, 1))
    i0, i1 = cx.real('i0', -5000, 5000), cx.real('i1', -5000, 5000)
    dt = cx.real('dt', 1e-4, 1e7)
    T = cx.real('T', -60, 100) if temp else None
    T1 = cx.real('T1', -60, 100) if temp else None
    soc = one(st.soc)
    new = EquivalentCircuitModel(current_behavior=mode).update_transient_state(
        inputs(cx, 0., i0, T), inputs(cx, dt, i1, T1), st, asoh)
    cx.shape('i_rc', new.i_rc, (1, rc))
    for k in range(rc):
        el = asoh.rc_elements[k]
        r, c = lininterp(cx, el.r.base_values, soc), lininterp(cx, el.c.base_values, soc)
        if nodes > 1:       # extrapolated values may vanish
            cx.assume(r >= 0.0005)
            cx.assume(c >= 10)
        tau = resistance(cx, el.r, soc, T) * c
        e = cx.exp(-dt / tau)
        i = st.i_rc[0, k]
        if mode == 'constant':
            cx.eq(f'branch {k}', new.i_rc[0, k], i * e + (1 - e) * i1)
            if nodes > 1 and temp:
                continue        # the range follows from the formula with 0 < e < 1; it is asserted in the other cases
            if cx.branch(i <= i1):
                cx.le(f'branch {k} not below its old value', i, new.i_rc[0, k])
                cx.le(f'branch {k} not above the applied current', new.i_rc[0, k], i1)
            else:
                cx.le(f'branch {k} not below the applied current', i1, new.i_rc[0, k])
                cx.le(f'branch {k} not above its old value', new.i_rc[0, k], i)
        else:
            s = (i1 - i0) / dt
            cx.eq(f'branch {k}', new.i_rc[0, k], i * e + (1 - e) * (i0 - s * tau) + s * dt)


def members(cx, mode, k, n, rc, nodes):
    """Every member of a batch follows its own current, clock and parameters."""
    asoh = build_asoh(cx, rc=rc, rc_nodes=nodes, c_hi=1e3, nb=n, batch=('rc0.r', 'rc1.c') if mode == 'constant' else ('rc0.r',))
    st = build_state(cx, rc=rc, nb=n, batch=('soc', 'i_rc'))
    i0, i1 = cx.reals('i0', (n, 1), -5000, 5000), cx.reals('i1', (n, 1), -5000, 5000)
    t0, dt = cx.reals('t0', (n, 1), 0, 1e3), cx.reals('dt', (n, 1), 0.01, 1e7)
    new = EquivalentCircuitModel(current_behavior=mode).update_transient_state(inputs(cx, t0, i0), inputs(cx, t0 + dt, i1), st, asoh)
    cx.shape('i_rc', new.i_rc, (n, rc))
    for j in range(rc):
        el = asoh.rc_elements[j]
        tau = lininterp(cx, pick(el.r.base_values, k), st.soc[k, 0]) * lininterp(cx, pick(el.c.base_values, k), st.soc[k, 0])
        e = cx.exp(-dt[k, 0] / tau)
        i = st.i_rc[k, j]
        if mode == 'constant':
            cx.eq(f'branch {j}', new.i_rc[k, j], i * e + (1 - e) * i1[k, 0])
        else:
            s = (i1[k, 0] - i0[k, 0]) / dt[k, 0]
            cx.eq(f'branch {j}', new.i_rc[k, j], i * e + (1 - e) * (i0[k, 0] - s * tau) + s * dt[k, 0])


def none(cx, mode):
    asoh = build_asoh(cx, rc=0)
    st = build_state(cx, rc=0)
    new = EquivalentCircuitModel(current_behavior=mode).update_transient_state(
        inputs(cx, 0., cx.real('i0', -5000, 5000)), inputs(cx, cx.real('dt', 0.001, 100), cx.real('i1', -5000, 5000)), st, asoh)
    cx.true('no branches', new.i_rc.shape[-1] == 0, str(new.i_rc.shape))


def instant(cx, mode, rc):
    """The branch currents stay in a step without duration."""
    asoh, st = build_asoh(cx, rc=rc), build_state(cx, rc=rc)
    t = cx.real('t', 0, 1e6)
    new = EquivalentCircuitModel(current_behavior=mode).update_transient_state(
        inputs(cx, t, cx.real('i0', -5000, 5000)), inputs(cx, t, cx.real('i1', -5000, 5000)), st, asoh)
    cx.eq('branches', new.i_rc, st.i_rc)


def cases(tier):
    out = []
    for mode in ('constant', 'linear'):
        for rc in (1, 2):
            out.append(Case(f'instant-{mode}-{rc}', instant, dict(mode=mode, rc=rc)))
        for k in range(3 if mode == 'constant' else 2):
            out.append(Case(f'members-{mode}-{k}', members, dict(mode=mode, k=k, n=3 if mode == 'constant' else 2, rc=2 if mode == 'constant' else 1, nodes=2 if mode == 'constant' else 1)))
        out.append(Case(f'none-{mode}', none, dict(mode=mode)))
        for rc, nodes, temp in [(1, 1, False), (2, 1, True), (3, 1, False), (1, 3, False), (2 if mode == 'constant' else 1, 2, True)] + \
                ([(2, 2, True), (3, 1, True), (2, 3, True), (3, 2, False)] if tier == 'thorough' else []):
            out.append(Case(f'{mode}-rc={rc}-nodes={nodes}-temp={int(temp)}', step, dict(mode=mode, rc=rc, nodes=nodes, temp=temp, c0=(rc == 2))))
    return out
