from symx.harness import Case
from .common import *

BOUNDS = ('one step from an arbitrary state; currents in [-5000,5000] A; step 1e-4..1e7 s, or of no duration; '
          'maximum hysteresis constant or given at 2-3 SOC points in [0,0.5] V; rate 0..5; capacity 0.01..500 Ah; efficiency 0.5..1; or 3 members that each have their own step, currents, state, capacity and rate')
ASSUMPTIONS = ['during a reversal the limit is the one at the SOC at the start of the step, as for every other parameter']


def part(cx, h, M, gamma, ce, Q, q):
    """h after the (signed) charge q passes with a current that keeps its sign."""
    if cx.branch(q == 0):
        return h
    charging = cx.branch(q > 0)
    x = gamma * (ce if charging else 1) * (q if charging else -q) / Q
    lim = M if charging else -M
    return h + (lim - h) * (1 - cx.exp(-x))


def step(cx, mode, nodes, gamma=True, rc=0):
    asoh = build_asoh(cx, rc=rc, h_nodes=nodes, gamma=gamma)
    st = build_state(cx, rc=rc, soc=(-0.1, 1.1) if nodes > 1 else (0, 1))
    i0, i1 = cx.real('i0', -5000, 5000), cx.real('i1', -5000, 5000)
    dt = cx.real('dt', 1e-4, 1e7)
    h, soc = one(st.hyst), one(st.soc)
    g, ce, Q = one(asoh.h0.gamma), one(asoh.ce), 3600 * one(asoh.q_t.base_values)
    new = EquivalentCircuitModel(current_behavior=mode).update_transient_state(
        inputs(cx, 0., i0), inputs(cx, dt, i1), st, asoh)
    M = lininterp(cx, asoh.h0.base_values, soc)
    cx.shape('hyst', new.hyst, (1, 1))
    got = one(new.hyst)
    rev = mode == 'linear' and ((cx.branch(i0 > 0) and cx.branch(i1 < 0)) or (cx.branch(i0 < 0) and cx.branch(i1 > 0)))
    if rev:
        t = dt * i0 / (i0 - i1)
        mid = part(cx, h, M, g, ce, Q, i0 * t / 2)
        cx.eq('reversal', got, part(cx, mid, M, g, ce, Q, i1 * (dt - t) / 2))
        return
    q = i0 * dt if mode == 'constant' else (i0 + i1) * dt / 2
    cx.eq('relaxation', got, part(cx, h, M, g, ce, Q, q))
    if cx.branch(q == 0):
        cx.eq('rest', got, h)
        return
    lim = M if cx.branch(q > 0) else -M
    if cx.branch(h <= lim):
        cx.le('moves up', h, got)
        cx.le('no overshoot', got, lim)
    else:
        cx.le('moves down', got, h)
        cx.le('no overshoot', lim, got)


def split(cx, mode):
    """Two steps with the current the model assumes at the cut are one step (constant limit)."""
    asoh = build_asoh(cx, h_nodes=1)
    st = build_state(cx)
    i0, i1 = cx.real('i0', -5000, 5000), cx.real('i1', -5000, 5000)
    d1, d2 = cx.real('d1', 1e-4, 1e4), cx.real('d2', 1e-4, 1e4)
    im = i0 if mode == 'constant' else i0 + (i1 - i0) * d1 / (d1 + d2)
    m = EquivalentCircuitModel(current_behavior=mode)
    a, b, c = inputs(cx, 0., i0), inputs(cx, d1, im), inputs(cx, d1 + d2, i1)
    whole = m.update_transient_state(a, c, st, asoh)
    parts = m.update_transient_state(b, c, m.update_transient_state(a, b, st, asoh), asoh)
    g, ce, Q = one(asoh.h0.gamma), one(asoh.ce), 3600 * one(asoh.q_t.base_values)
    M, h = one(asoh.h0.base_values), one(st.hyst)
    if mode == 'constant':
        cx.eq('one step', one(whole.hyst), part(cx, h, M, g, ce, Q, i0 * (d1 + d2)))
        cx.eq('two steps', one(parts.hyst), part(cx, part(cx, h, M, g, ce, Q, i0 * d1), M, g, ce, Q, i0 * d2))
        cx.eq('cut', one(whole.hyst), one(parts.hyst))


def members(cx, mode, k, n):
    """Every member of a batch follows its own current, clock and parameters."""
    asoh = build_asoh(cx, nb=n, batch=('gamma', 'h0', 'q_t'))
    st = build_state(cx, nb=n, batch=('hyst', 'soc'))
    sign = lambda j, end: (-5000, 5000) if j == k else [((1, 500), (1, 500)), ((1, 500), (-500, -1)), ((-500, -1), (-500, -1)), ((-500, -1), (1, 500))][(j + k) % 4][end]
    i0, i1 = [cx.arr([[cx.real(f'{nm}_{j}', *sign(j, e))] for j in range(n)]) for e, nm in enumerate(('i0', 'i1'))]
    t0, dt = cx.reals('t0', (n, 1), 0, 1e3), cx.reals('dt', (n, 1), 0.01, 1e7)
    new = EquivalentCircuitModel(current_behavior=mode).update_transient_state(inputs(cx, t0, i0), inputs(cx, t0 + dt, i1), st, asoh)
    cx.shape('hyst', new.hyst, (n, 1))
    h, M = st.hyst[k, 0], asoh.h0.base_values[k, 0]
    g, ce, Q = asoh.h0.gamma[k, 0], one(asoh.ce), 3600 * asoh.q_t.base_values[k, 0]
    a, b, d = i0[k, 0], i1[k, 0], dt[k, 0]
    if mode == 'linear' and ((cx.branch(a > 0) and cx.branch(b < 0)) or (cx.branch(a < 0) and cx.branch(b > 0))):
        t = d * a / (a - b)
        cx.eq('reversal', new.hyst[k, 0], part(cx, part(cx, h, M, g, ce, Q, a * t / 2), M, g, ce, Q, b * (d - t) / 2))
        return
    cx.eq('relaxation', new.hyst[k, 0], part(cx, h, M, g, ce, Q, a * d if mode == 'constant' else (a + b) * d / 2))


def instant(cx, mode, nodes):
    """The hysteresis stays in a step without duration."""
    asoh, st = build_asoh(cx, h_nodes=nodes), build_state(cx)
    t = cx.real('t', 0, 1e6)
    new = EquivalentCircuitModel(current_behavior=mode).update_transient_state(
        inputs(cx, t, cx.real('i0', -5000, 5000)), inputs(cx, t, cx.real('i1', -5000, 5000)), st, asoh)
    cx.eq('hysteresis', new.hyst, st.hyst)


def cases(tier):
    out = []
    for mode in ('constant', 'linear'):
        for k in range(3):
            out.append(Case(f'members-{mode}-{k}', members, dict(mode=mode, k=k, n=3)))
        for nodes in (1, 2):
            out.append(Case(f'instant-{mode}-{nodes}', instant, dict(mode=mode, nodes=nodes)))
        for nodes in (1, 2, 3) if tier == 'thorough' else (1, 2):
            out.append(Case(f'{mode}-nodes={nodes}', step, dict(mode=mode, nodes=nodes)))
        out.append(Case(f'{mode}-norate', step, dict(mode=mode, nodes=1, gamma=False)))
        out.append(Case(f'{mode}-rc', step, dict(mode=mode, nodes=1, rc=1)))
    out.append(Case('cut-constant', split, dict(mode='constant')))
    return out
