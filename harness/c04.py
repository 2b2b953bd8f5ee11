from symx.harness import Case
from .common import *

BOUNDS = ('every state and current within the stated ranges; 0 to 4 RC branches, with and without series capacitor; parameters constant '
          'or given at 2-3 SOC points; SOC in [-0.2,1.2]; with and without temperature; batches of 1 to 3 in states, parameters and inputs')
ASSUMPTIONS = ['a series capacitance extrapolated outside its SOC points stays above 1 F']


def volt(cx, rc, c0, nodes, temp, tf, batch=(), nb=1):
    asoh = build_asoh(cx, rc=rc, c0=c0, nodes=nodes, ocv_nodes=max(nodes, 1), temp_factor=tf, ent=True, batch=batch, nb=nb)
    st = build_state(cx, rc=rc, c0=c0, soc=(-0.2, 1.2) if not batch else (0, 1), batch=batch, nb=nb)
    n = lambda f: nb if f in batch else 0
    i = scal(cx, 'i', -500, 500, n('current'))
    T = scal(cx, 'T', -60, 100, n('temp')) if temp else None
    Ts = None if T is None else np.asarray(T).reshape(-1)
    cs = {}
    if c0 and nodes > 1:
        for k in range(nb):
            cs[k] = lininterp(cx, pick(asoh.c0.base_values, k), pick(st.soc, k)[0])
            cx.assume(cs[k] >= 1)
    v = EquivalentCircuitModel().calculate_terminal_voltage(inputs(cx, cx.real('t', 0, 1e6), i, T), st, asoh).terminal_voltage
    cx.shape('voltage', v, (nb if batch else 1, 1))
    for k in range(nb):
        a, s = member(asoh, k), pick(st.soc, k)[0]
        tk = None if T is None else Ts[k if len(Ts) > 1 else 0]
        ik = np.asarray(i).reshape(-1)[k if n('current') else 0]
        e = lininterp(cx, a.ocv.ocv_ref.base_values, s)
        if temp:
            e = e + (tk - one(a.ocv.ocv_ref.reference_temperature)) * lininterp(cx, a.ocv.ocv_ent.base_values, s)
        e = e + ik * resistance(cx, a.r0, s, tk)
        if c0:
            e = e + pick(st.q0, k)[0] / (cs[k] if k in cs else one(a.c0.base_values))
        for j in range(rc):
            e = e + pick(st.i_rc, k)[j] * resistance(cx, a.rc_elements[j].r, s, tk)
        e = e + pick(st.hyst, k)[0]
        cx.eq(f'voltage of member {k}', v[k, 0], e)


def cases(tier):
    out = []
    combos = [(0, False, 1, False, False), (1, True, 1, False, False), (2, False, 1, True, True), (3, True, 1, True, False), (4, True, 1, True, True),
              (1, True, 2, True, True), (2, True, 3, False, False), (0, True, 3, True, True), (2, False, 2, False, True), (1, False, 3, True, False)]
    if tier == 'thorough':
        combos = [(rc, c0, n, t, f) for rc in range(5) for c0 in (False, True) for n in (1, 2, 3) for t in (False, True) for f in (False, True)]
    for rc, c0, n, t, f in combos:
        out.append(Case(f'rc={rc}-c0={int(c0)}-nodes={n}-temp={int(t)}-factor={int(f)}', volt, dict(rc=rc, c0=c0, nodes=n, temp=t, tf=f)))
    state, health = ('soc', 'q0', 'i_rc', 'hyst'), ('q_t', 'ce', 'ocv', 'ent', 'r0', 'c0', 'h0', 'rc0.r', 'rc0.c', 'rc1.r', 'rc1.c', 'rc2.r', 'rc2.c')
    for tag, batch in (('state', state), ('health', health), ('inputs', ('current', 'temp')), ('rc', ('i_rc',)), ('rcr', ('rc0.r', 'rc1.r', 'rc2.r')),
                       ('all', state + health + ('current', 'temp'))):
        for rc, nb in ((1, 2), (2, 2), (3, 3), (1, 3), (3, 2)) if tier == 'thorough' or tag in ('state', 'health', 'all') else ((1, 2), (2, 2), (3, 3)):
            if tag == 'rcr' and rc == 1:
                continue
            out.append(Case(f'batch-{tag}-rc={rc}-nb={nb}', volt, dict(rc=rc, c0=True, nodes=1, temp=True, tf=True, batch=batch, nb=nb)))
        out.append(Case(f'batch-{tag}-nodes', volt, dict(rc=1, c0=False, nodes=2, temp=True, tf=False, batch=batch, nb=2)))
    return out
