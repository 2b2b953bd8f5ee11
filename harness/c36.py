from symx.harness import Case
from .common import *
from .demo import at

BOUNDS = ('0 to 4, 6 and 11 RC branches, with and without a series capacitor; every value real; capacities 1e-5 to 200 Ah, also of 2 or 3 members; given capacitances 1e-6 to 1e7 F; tabulated values of 1 to 3 nodes; one step of '
          '0.1 to 100 s for circuits of up to 2 branches')
ASSUMPTIONS = []


def kinds(a):
    return ('q_t', 'ce', 'ocv', 'r0') + (('c0',) if a.c0 is not None else ()) + tuple(f'rc{i}' for i in range(len(a.rc_elements)))


def circuit(cx, rc, c0, nodes, given):
    """A template has exactly the elements asked for, holding the values given, each in its own place."""
    v = lambda n, lo, hi: cx.reals(n, nodes, lo, hi) if nodes > 1 else cx.real(n, lo, hi)
    kw = {}
    if 'q' in given:
        kw['qt'] = cx.real('qt', 1e-5, 200)
    if 'e' in given:
        kw['CE'] = cx.real('CE', 0.5, 1)
    if 'o' in given:
        kw['OCV'] = v('OCV', 2, 5)
    if 'r' in given:
        kw['R0'] = v('R0', 0.01, 1)
    if 'h' in given:
        kw['H0'] = v('H0', 0, 1)
    if 'c' in given:
        kw['C0'] = v('C0', 1e-6, 1e7)
    if 'x' in given and rc:
        kw['RC'] = [(v(f'rb{k}', 0.01, 1), v(f'cb{k}', 100, 1000)) for k in range(rc)]
    keep = {k: np.array(x, copy=True) for k, x in kw.items() if k != 'RC'}
    pairs = [(np.array(r, copy=True), np.array(c, copy=True)) for r, c in kw.get('RC', [])]
    a = ECMASOH.provide_template(has_C0=c0, num_RC=rc, **kw)
    for x in list(kw.values()) + [y for p in kw.get('RC', []) for y in p]:
        if isinstance(x, np.ndarray):
            scribble(x)
    cx.true('RC branches', len(a.rc_elements) == rc, f'{len(a.rc_elements)}')
    cx.true('series capacitor', (a.c0 is not None) == c0)
    two = lambda x: np.array(x).reshape((1, -1))
    if 'q' in given:
        cx.eq('capacity', a.q_t.base_values, two(keep['qt']))
        cx.eq('capacity in Ah', a.q_t.amp_hour, two(keep['qt']))
        cx.eq('capacity in As', a.q_t.value, 3600 * two(keep['qt']))
    if 'e' in given:
        cx.eq('efficiency', a.ce, two(keep['CE']))
    if 'o' in given:
        cx.eq('ocv', a.ocv.ocv_ref.base_values, two(keep['OCV']))
    if 'r' in given:
        cx.eq('resistance', a.r0.base_values, two(keep['R0']))
    if 'h' in given:
        cx.eq('hysteresis', a.h0.base_values, two(keep['H0']))
    if c0:
        if 'c' in given:
            cx.eq('series capacitance', a.c0.base_values, two(keep['C0']))
        else:
            # charging it fully changes the voltage by 10 mV
            cx.eq('series capacitance', a.c0.base_values * cx.const(1) / 100, a.q_t.value)
    for k, (r, c) in enumerate(pairs):
        cx.eq(f'resistance of branch {k}', a.rc_elements[k].r.base_values, two(r))
        cx.eq(f'capacitance of branch {k}', a.rc_elements[k].c.base_values, two(c))
    if not pairs:
        for k in range(rc):
            cx.eq(f'branch {k} is like the first: r', a.rc_elements[k].r.base_values, a.rc_elements[0].r.base_values)
            cx.eq(f'branch {k} is like the first: c', a.rc_elements[k].c.base_values, a.rc_elements[0].c.base_values)
    cx.true('one member', a.batch_size == 1)
    own = [(p, v) for p, _, _, v in walk(a)]
    for n, (p, v) in enumerate(own):
        for q, w in own[:n]:
            cx.true(f'{p} is separate from {q}', not np.shares_memory(v, w))
    if rc > 1:      # a change of one branch is no change of another
        before = [(np.array(e.r.base_values, copy=True), np.array(e.c.base_values, copy=True)) for e in a.rc_elements]
        n1, n2 = cx.real('other r', 2, 3), cx.real('other c', 2000, 3000)
        last = rc - 1
        a.rc_elements[last].r.base_values = cx.arr(np.full(before[last][0].shape, n1))
        a.rc_elements[0].c.base_values = cx.arr(np.full(before[0][1].shape, n2))
        for k, (r, cc) in enumerate(before):
            cx.eq(f'resistance of branch {k} after a change of branch {last}', a.rc_elements[k].r.base_values, np.full(r.shape, n1) if k == last else r)
            cx.eq(f'capacitance of branch {k} after a change of branch 0', a.rc_elements[k].c.base_values, np.full(cc.shape, n2) if k == 0 else cc)
        a.rc_elements[last].r.base_values, a.rc_elements[0].c.base_values = before[last][0], before[0][1]
    cx.true('nothing is updatable', a.updatable_names == ())
    fits(cx, 'state', a, ECMTransientVector.from_asoh(a))
    for k in range(rc):      # what is asked for one branch only
        want = [float(i == k) for i in range(rc)]
        a.mark_updatable(f'rc_elements.{k}.r.base_values')
        cx.true(f'branch {k} can be named', f'rc_elements.{k}.r.base_values' in a.updatable_names)


def members(cx, rc, nb):
    """The missing series capacitance follows the capacity of every member."""
    q = cx.reals('qt', (nb, 1), 1e-5, 200)
    keep = np.array(q, copy=True)
    a = ECMASOH.provide_template(has_C0=True, num_RC=rc, qt=q)
    cx.eq('capacity', a.q_t.base_values, keep)
    cx.shape('series capacitance', a.c0.base_values, (nb, 1))
    cx.eq('series capacitance', a.c0.base_values * cx.const(1) / 100, 3600 * keep)
    cx.true('RC branches', len(a.rc_elements) == rc)


def defaults(cx):
    """What is left out of a circuit is absent or neutral, and circuits do not share what was left out."""
    q, v, r = cx.real('q', 1e-5, 200), cx.real('v', 2, 5), cx.real('r', 0.01, 1)
    from moirae.models.ecm.components import MaxTheoreticalCapacity, OpenCircuitVoltage, ReferenceOCV, Resistance
    mk = lambda: ECMASOH(q_t=MaxTheoreticalCapacity(base_values=q), ocv=OpenCircuitVoltage(ocv_ref=ReferenceOCV(base_values=v)), r0=Resistance(base_values=r))
    def look(label, a):
        one = lambda x, want: cx.eq(label + x, at(a, x), np.full((1, 1), want) if not hasattr(want, 't') else cx.arr([[want]]))
        one('q_t.base_values', q)
        one('ocv.ocv_ref.base_values', v)
        one('r0.base_values', r)
        one('ce', 1.)
        one('h0.base_values', 0.)
        one('h0.gamma', 0.)
        one('ocv.ocv_ent.base_values', 0.)
        one('r0.temperature_dependence_factor', 0.)
        cx.eq(label + 'reference temperature of the resistance', np.array(at(a, 'r0.reference_temperature')).reshape((1, 1)), np.full((1, 1), 25.))
        cx.eq(label + 'reference temperature of the voltage', np.array(at(a, 'ocv.ocv_ref.reference_temperature')).reshape((1, 1)), np.full((1, 1), 25.))
        cx.true(label + 'no series capacitor', a.c0 is None)
        cx.true(label + 'no branches', len(a.rc_elements) == 0)
        cx.true(label + 'nothing updatable', a.updatable_names == ())
        fits(cx, label + 'state', a, ECMTransientVector.from_asoh(a))
    a, b = mk(), mk()
    look('', a)
    s, t, i = cx.real('s', 0, 1), cx.real('t', -20, 60), cx.real('i', -5, 5)
    x = ECMTransientVector(soc=s, hyst=0.)
    u = inputs(cx, cx.const(0), i, t)
    cx.eq('voltage', EquivalentCircuitModel().calculate_terminal_voltage(new_inputs=u, transient_state=x, asoh=a).terminal_voltage, cx.arr([[v + r * i]]))
    a.mark_all_updatable()
    names = a.updatable_names
    new = cx.reals('new', len(names), 0.1, 0.9)
    keep = np.array(new, copy=True)
    a.update_parameters(new[None, :])
    cx.eq('all set', a.get_parameters(names), keep[None, :])
    for n, w in zip(names, keep):
        cx.eq('set: ' + n, np.array(at(a, n)).reshape((1, 1)), cx.arr([[w]]))
    look('circuit made before: ', b)
    look('circuit made after: ', mk())


def rest_inputs(cx):
    """Inputs and states left out are zero or absent, and not shared."""
    u = ECMInput()
    w = ECMInput(current=cx.real('i', -5, 5))
    for label, x, n in (('', u, 0), ('given current: ', w, 1)):
        cx.eq(label + 'time', x.time, np.zeros((1, 1)))
        cx.true(label + 'temperature', x.temperature is None)
        cx.true(label + 'names', list(x.all_names) == ['time', 'current'], str(x.all_names))
    cx.eq('current', u.current, np.zeros((1, 1)))
    scribble(u.time)
    cx.eq('other time', w.time, np.zeros((1, 1)))
    cx.eq('time of inputs made later', ECMInput().time, np.zeros((1, 1)))
    s, h = cx.real('s', 0, 1), cx.real('h', -1, 1)
    x = ECMTransientVector(soc=s, hyst=h)
    cx.true('state', list(x.all_names) == ['soc', 'hyst'] and x.q0 is None, str(x.all_names))
    cx.shape('branch currents', x.i_rc, (1, 0))
    cx.eq('vector', x.to_numpy(), cx.arr([[s, h]]))


def fits(cx, label, a, x):
    rc, c0 = len(a.rc_elements), a.c0 is not None
    cx.shape(f'{label}: branch currents', x.i_rc, (1, rc))
    cx.true(f'{label}: series charge', (x.q0 is not None) == c0)
    cx.true(f'{label}: length', len(x) == 2 + rc + c0, f'{len(x)}')
    names = ['soc'] + ['q0'] * c0 + (['i_rc'] if rc == 1 else [f'i_rc[{k}]' for k in range(rc)]) + ['hyst']
    cx.true(f'{label}: names', list(x.all_names) == names, str(x.all_names))


def empty(cx, rc, c0):
    """A state made for a circuit is empty and at rest; states made for it are each other's equals and independent."""
    a = build_asoh(cx, rc=rc, c0=c0)
    x, y = ECMTransientVector.from_asoh(a), ECMTransientVector.from_asoh(a)
    fits(cx, 'state', a, x)
    cx.eq('vector', x.to_numpy(), np.zeros((1, 2 + rc + c0)))
    for _, o, f, v in list(walk(x)):
        scribble(v)
    cx.eq('other state', y.to_numpy(), np.zeros((1, 2 + rc + c0)))


def state(cx, rc, c0, mode, batch):
    s, q, h = scal(cx, 's', 0, 1, batch), scal(cx, 'q', -5, 5), scal(cx, 'h', -1, 1, batch)
    i = None if mode == 'none' else cx.real('i', -5, 5) if mode == 'number' else cx.reals('i', rc, -5, 5)
    i = list(i) if mode == 'list' else i
    want = np.zeros((1, rc)) if mode == 'none' else cx.arr([[i] * rc]).reshape((1, rc)) if mode == 'number' else np.array(i).reshape((1, rc))
    x = ECMTransientVector.provide_template(has_C0=c0, num_RC=rc, soc=s, q0=q, i_rc=i, hysteresis=h)
    B = batch or 1
    cx.eq('soc', x.soc, np.array(s).reshape((B, 1)))
    cx.eq('hysteresis', x.hyst, np.array(h).reshape((B, 1)))
    cx.eq('branch currents', x.i_rc, want)
    cx.shape('branch currents', x.i_rc, (1, rc))
    cx.true('series charge', (x.q0 is not None) == c0)
    if c0:
        cx.eq('series charge', x.q0, np.array(q).reshape((1, 1)))
    cx.true('batch size', x.batch_size == B)


def mismatch(cx, rc, n):
    """Values for another number of branches are refused."""
    i = cx.reals('i', n, -5, 5)
    cx.raises('currents', ValueError, lambda: ECMTransientVector.provide_template(has_C0=False, num_RC=rc, i_rc=i))
    cx.raises('currents in a list', ValueError, lambda: ECMTransientVector.provide_template(has_C0=False, num_RC=rc, i_rc=list(i)))
    if rc:
        cx.raises('branches', ValueError, lambda: ECMASOH.provide_template(
            has_C0=False, num_RC=rc, RC=[(cx.real(f'r{k}', 0.1, 1), cx.real(f'c{k}', 10, 100)) for k in range(n)]))


def step(cx, rc, c0, mode):
    """The state after a step has the layout of the state before, and a template state gives the voltage of the circuit at rest."""
    a = build_asoh(cx, rc=rc, c0=c0, ocv_nodes=1)
    x = ECMTransientVector.from_asoh(a)
    dt = cx.real('dt', 0.1, 100)
    m = EquivalentCircuitModel(current_behavior=mode)
    u0, u1 = inputs(cx, cx.const(0), cx.real('i0', 0.1, 5)), inputs(cx, dt, cx.real('i1', 0.1, 5))
    rest = inputs(cx, cx.const(0), cx.const(0))
    v = m.calculate_terminal_voltage(new_inputs=rest, transient_state=x, asoh=a)
    cx.eq('voltage of an empty circuit at rest', v.terminal_voltage, a.ocv.ocv_ref.base_values)
    y = m.update_transient_state(previous_inputs=u0, new_inputs=u1, transient_state=x, asoh=a)
    fits(cx, 'after a step', a, y)
    z = m.update_transient_state(previous_inputs=u1, new_inputs=inputs(cx, dt + 1, cx.real('i2', 0.1, 5)), transient_state=y, asoh=a)
    fits(cx, 'after two steps', a, z)
    cx.true('type', type(y) is type(x))


def cases(tier):
    out = [Case('defaults', defaults, {}, validate=2), Case('defaults-inputs', rest_inputs, {}, validate=2)]
    for rc in (0, 1, 2, 3, 4, 6, 11):
        for c0 in (False, True):
            for given in ('', 'qeorhcx', 'qx', 'orh', 'ceh', 'qc', 'xr', 'eo'):
                for nodes in (1, 2, 3):
                    if nodes == 1 or given in ('qeorhcx', 'orh', 'xr') and (rc < 3 or tier == 'thorough'):
                        if not given or given != 'x' or rc:
                            out.append(Case(f'circuit-rc={rc}-c0={int(c0)}-{given}-nodes={nodes}', circuit, dict(rc=rc, c0=c0, nodes=nodes, given=given), validate=1))
            out.append(Case(f'empty-rc={rc}-c0={int(c0)}', empty, dict(rc=rc, c0=c0), validate=1))
            for mode in ('none', 'number', 'array', 'list'):
                for batch in (0, 2):
                    out.append(Case(f'state-rc={rc}-c0={int(c0)}-{mode}-{batch}', state, dict(rc=rc, c0=c0, mode=mode, batch=batch), validate=1))
            if rc < 3:
                for mode in ('constant', 'linear'):
                    out.append(Case(f'step-rc={rc}-c0={int(c0)}-{mode}', step, dict(rc=rc, c0=c0, mode=mode), validate=1))
        for nb in (2, 3):
            out.append(Case(f'members-rc={rc}-{nb}', members, dict(rc=rc, nb=nb), validate=1))
        for n in range(5):
            if n != rc:
                out.append(Case(f'mismatch-{rc}-{n}', mismatch, dict(rc=rc, n=n), validate=1))
    return out
