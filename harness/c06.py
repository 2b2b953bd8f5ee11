from symx.harness import Case
from .common import *

BOUNDS = 'one call (then the same call again) of the step and of the voltage from arbitrary arguments; 0 to 2 RC branches; batches 1 and 2 in states, health or inputs; steps of no duration; currents of any sign; SOC in [-0.2,1.2]'
ASSUMPTIONS = []


def pure(cx, mode, rc, c0, nodes, temp, batch, tf=False, still=False, sign='+', soc=None):
    asoh = build_asoh(cx, rc=rc, c0=c0, nodes=nodes, rc_nodes=nodes, h_nodes=nodes, ocv_nodes=max(2, nodes), ent=True, batch=batch, temp_factor=tf)
    st = build_state(cx, rc=rc, c0=c0, batch=batch, soc=soc or ((0.05, 0.45) if nodes > 1 else (-0.2, 1.2)))
    n = lambda f: 2 if f in batch else 0
    i0 = scal(cx, 'i0', -20, 20, n('current'))
    i1 = scal(cx, 'i1', *{'+': (0.001, 20), '-': (-20, -0.001), '': (-5000, 5000)}[sign if mode == 'linear' else ''], n('current'))
    dt = 0. if still else scal(cx, 'dt', 1e-4, 1e7, n('time'))
    T = scal(cx, 'T', -60, 100, n('temp')) if temp else None
    a, b = inputs(cx, 0., i0, T), inputs(cx, dt, i1, T)
    m = EquivalentCircuitModel(current_behavior=mode)
    args = dict(previous=a, new=b, state=st, health=asoh)
    snaps = {k: snapshot(v) for k, v in args.items()}
    for what, call in (('step', lambda: m.update_transient_state(a, b, st, asoh)), ('voltage', lambda: m.calculate_terminal_voltage(b, st, asoh))):
        r1 = call()
        for k, v in args.items():
            unchanged(cx, f'{what}: {k}', v, snaps[k])
        first = snapshot(r1)
        r2 = call()
        unchanged(cx, f'{what}: repeated call', r2, first)
        for p, _, _, v in walk(r1):
            for k, o in args.items():
                for q, _, _, w in walk(o):
                    cx.true(f'{what}: result {p} is separate from {k}.{q}', not np.shares_memory(v, w))
        for p, _, _, v in walk(r1):
            scribble(v)
        for k, v in args.items():
            unchanged(cx, f'{what}: {k} after writing into the result', v, snaps[k])
        unchanged(cx, f'{what}: other result', r2, first)


def cases(tier):
    out = []
    for mode in ('constant', 'linear'):
        for rc, c0, nodes, temp, batch in [(0, False, 1, False, ()), (1, True, 1, True, ()), (2, True, 2, True, ()), (1, False, 2, False, ()),
                                           (1, True, 1, True, ('soc', 'i_rc', 'hyst', 'q0')), (1, True, 1, True, ('ocv', 'h0', 'r0', 'rc0.r')),
                                           (1, True, 2, True, ('soc',)), (2, True, 3, True, ())]:
            out.append(Case(f'{mode}-rc={rc}-c0={int(c0)}-nodes={nodes}-temp={int(temp)}-{"+".join(batch)}', pure,
                            dict(mode=mode, rc=rc, c0=c0, nodes=nodes, temp=temp, batch=batch)))
        for b in ('current', 'temp', 'time'):
            out.append(Case(f'{mode}-{b}', pure, dict(mode=mode, rc=1, c0=True, nodes=1, temp=True, batch=(b,))))
        for b in ((), ('soc', 'i_rc', 'hyst', 'q0'), ('current',)):
            out.append(Case(f'{mode}-still-{len(b)}', pure, dict(mode=mode, rc=2, c0=True, nodes=1, temp=True, batch=b, still=True)))
    out.append(Case('linear-negative', pure, dict(mode='linear', rc=1, c0=True, nodes=1, temp=True, batch=(), sign='-')))
    for n, lohi in (('below', (-0.2, -0.01)), ('above', (1.01, 1.2))):
        out.append(Case(f'{n}-range', pure, dict(mode='constant', rc=0, c0=False, nodes=2, temp=True, batch=(), soc=lohi)))
    out.append(Case('factor', pure, dict(mode='constant', rc=1, c0=True, nodes=1, temp=True, batch=(), tf=True)))
    return out
