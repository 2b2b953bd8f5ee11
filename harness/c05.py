import itertools
from symx.harness import Case
from .common import *

BOUNDS = ('batches of 1 to 5 and 40; every single field, every pair of fields, all states, all health parameters, all together; 0 to 4 RC '
          'branches; both current modes; inputs batched at either end or at both, steps of no duration for some or all members; parameters constant or given at 2 SOC points; all values within the stated ranges')
ASSUMPTIONS = ['batched values of one call have the same batch size (the documented requirement)']
STATE = ['soc', 'q0', 'i_rc', 'hyst']
HEALTH = ['q_t', 'ce', 'ocv', 'ent', 'r0', 'c0', 'rc0.r', 'rc0.c', 'rc1.r', 'rc1.c', 'h0', 'gamma']
INPUT = ['current', 'temp', 'time']      # of both ends, or of one: current0, current1, temp0, time1


def run(cx, mode, batch, nb, rc, c0, nodes, temp, tf, what, still=()):
    asoh = build_asoh(cx, rc=rc, c0=c0, nodes=nodes, rc_nodes=nodes, h_nodes=nodes, ocv_nodes=max(2, nodes), temp_factor=tf, ent=True,
                      batch=batch, nb=nb)
    st = build_state(cx, rc=rc, c0=c0, batch=batch, nb=nb, soc=(0.05, 0.45) if nodes > 1 else (0, 1))
    n = lambda f, end: nb if f in batch or f'{f}{end}' in batch else 0
    i0, i1 = scal(cx, 'i0', -20, 20, n('current', 0)), scal(cx, 'i1', -20, 20, n('current', 1))
    t0 = scal(cx, 't0', 0, 1e6, n('time', 0)) if n('time', 0) else 0.
    dt = scal(cx, 'dt', 1e-4, 1e7, n('time', 1))
    if still:       # these members make no step
        if n('time', 1):
            dt = cx.arr([0. if k in still else dt[k] for k in range(nb)])
        else:
            dt = 0.
    T = scal(cx, 'T', -60, 100, n('temp', 0)) if temp else None
    T1 = scal(cx, 'T1', -60, 100, n('temp', 1)) if temp else None
    m = EquivalentCircuitModel(current_behavior=mode)
    a, b = inputs(cx, t0, i0, T), inputs(cx, t0 + dt, i1, T1)
    if what == 'step':
        new = m.update_transient_state(a, b, st, asoh)
        cx.true('fields', (new.q0 is None) == (st.q0 is None))
        for k in range(nb):
            ref = m.update_transient_state(member(a, k), member(b, k), member(st, k), member(asoh, k))
            for f in ('soc', 'q0', 'i_rc', 'hyst'):
                v, r = getattr(new, f), getattr(ref, f)
                if r is None:
                    continue
                cx.true(f'{f} batch', v.ndim == 2 and v.shape[0] in (1, nb) and v.shape[1] == r.shape[1], f'shape {v.shape}')
                if v.shape[1]:
                    cx.eq(f'{f} of member {k}', pick(v, k), r[0])
    else:
        v = m.calculate_terminal_voltage(b, st, asoh).terminal_voltage
        cx.true('voltage batch', v.ndim == 2 and v.shape[0] in (1, nb) and v.shape[1] == 1, f'shape {v.shape}')
        for k in range(nb):
            r = m.calculate_terminal_voltage(member(b, k), member(st, k), member(asoh, k)).terminal_voltage
            cx.eq(f'voltage of member {k}', pick(v, k), r[0])


def cases(tier):
    out = []

    def add(tag, batch, mode, nb=2, rc=2, c0=True, nodes=1, temp=True, tf=False, still=()):
        for what in ('step', 'volt'):
            if what == 'volt' and (mode == 'linear' or still or set(batch) & {'current0', 'temp0', 'time', 'time1'}):
                continue
            out.append(Case(f'{what}-{tag}-{mode}-nb={nb}-rc={rc}-nodes={nodes}' + ('-still=' + ','.join(map(str, still)) if still else ''), run,
                            dict(mode=mode, batch=tuple(batch), nb=nb, rc=rc, c0=c0, nodes=nodes, temp=temp, tf=tf, what=what, still=still), validate=1))
    allf = STATE + HEALTH + INPUT
    for f in allf:
        add(f, [f], 'constant')
        add(f, [f], 'linear', rc=1 if not f.startswith('rc1') else 2)
        if f not in ('current', 'gamma'):
            add(f, [f], 'constant', nodes=2, rc=1 if not f.startswith('rc1') else 2)
    for f in ('r0.tf', 'rc0_r.tf', 'soc', 'r0', 'rc0.r', 'temp'):
        f = f.replace('rc0_r', 'rc0.r')
        add(f + '~tf', [f], 'constant', rc=1, tf=True)
    add('ocv.tr', ['ocv.tr'], 'constant', rc=0)
    for tag, fs in (('states', STATE), ('health', HEALTH), ('all', STATE + HEALTH), ('everything', allf)):
        add(tag, fs, 'constant')
        add(tag, [f for f in fs if f != 'current'], 'linear', rc=1)
        add(tag, [f for f in fs if f != 'current'], 'constant', nb=3, rc=1)
        add(tag, fs, 'constant', rc=0, c0=False, temp=False)
        if tag in ('states', 'all', 'everything'):
            for nb, rc in ((3, 3), (4, 1), (1, 3), (2, 4))[(tag == 'everything') * 2:]:
                add(tag, fs, 'constant', nb=nb, rc=rc)
    for nb, rc in ((4, 2), (5, 1)):
        add('tau', ['soc', 'rc0.r', 'i_rc'], 'constant', nb=nb, rc=rc, nodes=2)
        add('tau', ['soc', 'rc0.c'], 'linear', nb=nb, rc=rc, nodes=2)
    for fs in (['soc'], ['r0', 'i_rc']):
        add('many-' + fs[0], fs, 'constant', nb=40, rc=1)
    for f in ('current0', 'current1', 'temp0', 'temp1', 'time1'):
        add(f, [f], 'constant')
        add(f, [f], 'linear', rc=1)
        add(f + '+soc', [f, 'soc'], 'linear', rc=1)
    for still in ((0,), (1,), (0, 1)):
        for mode in ('constant', 'linear'):
            add('time', ['time'], mode, rc=1, still=still)
            add('time1+soc', ['time1', 'soc', 'i_rc', 'hyst'], mode, rc=1, still=still)
            add('time+current', ['time', 'current'], mode, rc=1, still=still)
    for mode in ('constant', 'linear'):
        add('soc', ['soc', 'current'], mode, rc=1, still=(0, 1))
    pairs = list(itertools.combinations(allf, 2))
    if tier != 'thorough':
        pairs = [p for i, p in enumerate(pairs) if i % 3 == 0]
    for p in pairs:
        add('+'.join(p), p, 'constant')
        if tier == 'thorough':
            add('+'.join(p), p, 'linear', rc=1 if not any(f.startswith('rc1') for f in p) else 2)
            add('+'.join(p), p, 'constant', nodes=2, rc=2)
    return out
