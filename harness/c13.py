from symx.harness import Case
from .common import *
from .demo import *
from .c10 import container
from .c11 import KINDS, make

BOUNDS = ('every value real within the ranges; circuits with 0 to 2 RC branches, optional parts present or absent, given or inferred SOC points, every '
          'interpolation style; states, inputs, outputs and user-defined containers; batches of 1 to 5 and 40; before and after evaluation; with update marks')
ASSUMPTIONS = ['a number written to JSON text and read back is the same number (pydantic-core and Python floats print shortest round-trip '
               'text); pydantic-core itself is compiled code: symbolic numbers cross it as distinct number tokens']


def same(cx, label, a, b):
    """Same type, same fields, same values, same marks, recursively."""
    cx.true(f'{label}: type', type(a) is type(b), f'{type(b)}')
    for f in fields(a):
        u, v = getattr(a, f), getattr(b, f)
        l = f'{label}.{f}'
        if isinstance(u, np.ndarray):
            cx.true(f'{l}: array', isinstance(v, np.ndarray), str(type(v)))
            cx.eq(l, v, u)
        elif hasattr(type(u), 'model_fields'):
            same(cx, l, u, v)
        elif isinstance(u, (tuple, list)):
            cx.true(f'{l}: sequence', type(u) is type(v) and len(u) == len(v))
            for i, (p, q) in enumerate(zip(u, v)):
                same(cx, f'{l}.{i}', p, q)
        elif isinstance(u, dict):
            cx.true(f'{l}: keys', list(u) == list(v), str(list(v)))
            for k in u:
                same(cx, f'{l}.{k}', u[k], v[k])
        else:
            if isinstance(v, (int, float)) and not isinstance(v, bool) or type(v).__name__ == 'SymReal':
                cx.eq(l, v, u)
            else:
                cx.true(l, u == v and type(u) is type(v), f'{v!r} instead of {u!r}')


def trip(cx, m, again=True):
    before = snapshot(m)
    text = m.model_dump_json()
    cx.true('text', isinstance(text, str))
    n = type(m).model_validate_json(text)
    same(cx, 'read', m, n)
    unchanged(cx, 'original', m, before)
    if again:
        same(cx, 'read twice', m, type(n).model_validate_json(n.model_dump_json()))
    return n


def plain(cx, kind, batch, nb):
    cx.exactly()
    trip(cx, make(cx, kind, batch, nb))


def health(cx, kind, batch, nb, marks):
    cx.exactly()
    if kind == 'top':
        m = build_top(cx, batch, nb)
    else:
        rc = int(kind[3:])
        m = build_asoh(cx, rc=rc, c0=rc == 2, nodes=2 if rc == 2 else 1, ent=rc > 0, temp_factor=rc > 0, batch=batch, nb=nb, h_nodes=rc + 1)
    if marks == 'all':
        m.mark_all_updatable()
    else:
        for k in marks:
            m.mark_updatable(all_paths(m)[k])
    n = trip(cx, m)
    cx.true('updatable names', m.updatable_names == n.updatable_names, str(n.updatable_names))
    cx.eq('vector', n.get_parameters(), m.get_parameters())


def evaluated(cx, nodes, batch, explicit, style):
    """A parameter that has been evaluated, with given or inferred SOC points, evaluates the same after the round trip."""
    kw = {}
    if explicit:
        x = [0.] + [float(k) / 8 + 0.25 for k in range(nodes - 2)] + [1.]
        kw['soc_pinpoints'] = np.array(x)
    if style:
        kw['interpolation_style'] = style
    r = Resistance(base_values=vec(cx, 'r', nodes, 0.01, 0.5, batch), temperature_dependence_factor=cx.real('tf', -0.05, 0.05), **kw)
    q, T = cx.real('q', 0, 1), cx.real('T', -20, 60)
    if style in (None, 'linear'):
        want = np.array(r.get_value(q, T), copy=True)
    else:
        want = None
    n = trip(cx, r)
    if want is not None:
        cx.eq('value', n.get_value(q, T), want)
        n2 = trip(cx, n)
        cx.eq('value, read twice', n2.get_value(q, T), want)
    m = trip(cx, ReferenceOCV(base_values=vec(cx, 'o', nodes, 2, 4, batch), **kw))
    if want is not None:
        cx.eq('reference OCV', m.get_value(q), ReferenceOCV(base_values=m.base_values, **kw).get_value(q))


def pinpoints(cx, nodes, batch):
    """The SOC points are kept exactly, whatever numbers they are."""
    cx.exactly()
    x = cx.reals('x', nodes, -0.2, 1.2)
    for a, b in zip(x, x[1:]):
        cx.assume(b - a >= 0.001)
    keep = np.array(x, copy=True)
    for cls in (Resistance, Capacitance, ReferenceOCV, HysteresisParameters):
        n = trip(cx, cls(base_values=vec(cx, f'{cls.__name__}.v', nodes, 0.01, 0.5, batch), soc_pinpoints=np.array(x, copy=True)))
        cx.eq(f'{cls.__name__}: SOC points', n.soc_pinpoints, keep)


def used(cx, rc):
    """A whole circuit that a model has worked with behaves the same after the round trip."""
    asoh = build_asoh(cx, rc=rc, c0=True, nodes=2, ent=True, h_nodes=2, Q=cx.real('q_t', 1, 20))
    st = build_state(cx, rc=rc, c0=True, soc=(0.05, 0.45))
    m = EquivalentCircuitModel(current_behavior='constant')
    a, b = inputs(cx, 0., cx.real('i0', 0, 5), cx.real('T', 0, 50)), inputs(cx, cx.real('dt', 1, 100), cx.real('i1', 0, 5), cx.real('T1', 0, 50))
    s1 = m.update_transient_state(a, b, st, asoh)
    v1 = m.calculate_terminal_voltage(b, s1, asoh)
    asoh2, st2, a2, b2 = (trip(cx, x, again=False) for x in (asoh, st, a, b))
    s2 = m.update_transient_state(a2, b2, st2, asoh2)
    v2 = m.calculate_terminal_voltage(b2, s2, asoh2)
    cx.eq('state', s2.to_numpy(), s1.to_numpy())
    cx.eq('voltage', v2.to_numpy(), v1.to_numpy())
    same(cx, 'state text', s1, ECMTransientVector.model_validate_json(s1.model_dump_json()))
    same(cx, 'measurement text', v1, ECMMeasurement.model_validate_json(v1.model_dump_json()))


def cases(tier):
    out = []
    for kind, (cls, fs) in KINDS.items():
        names = [f for f, n in fs if n != 0]
        for s in [list(t) for t in dict.fromkeys(map(tuple, ([], names[:1], names[1:], names)))]:
            for nb in (2, 3, 4) + (40,) * (s == names):
                if (not s and nb > 2):
                    continue
                out.append(Case(f'plain-{kind}-{"+".join(s)}-{nb}', plain, dict(kind=kind, batch=s, nb=nb), validate=1))
    for kind in ('top', 'ecm0', 'ecm1', 'ecm2'):
        for batch, nb in (((), 1), (('a', 'mid.leaf.x', 'seq.1.x', 'tab.two.y', 'q_t', 'r0', 'rc0.r', 'ocv', 'h0'), 2), (('gamma', 'tab.two.x'), 4), (('b', 'ce', 'rc1.c', 'ent', 'tab.one.x'), 3)):
            for marks in ((), (0, 3), (2, -1), 'all'):
                out.append(Case(f'health-{kind}-{nb}-{marks}', health, dict(kind=kind, batch=batch, nb=nb, marks=marks), validate=1))
    for nodes in (1, 2, 3):
        for batch in (0, 2):
            for explicit in (False, True):
                for style in (None, 'linear', 'nearest', 'previous', 'next', 'zero') + (('quadratic', 'cubic', 'slinear', 'nearest-up') if nodes == 3 else ()):
                    if explicit and nodes == 1:
                        continue
                    out.append(Case(f'evaluated-{nodes}-{batch}-{int(explicit)}-{style}', evaluated,
                                    dict(nodes=nodes, batch=batch, explicit=explicit, style=style), validate=1))
    for nodes in (2, 3, 5):
        for batch in (0, 2, nodes):
            if batch == 2 == nodes:
                continue
            out.append(Case(f'pinpoints-{nodes}-{batch}', pinpoints, dict(nodes=nodes, batch=batch), validate=1))
    for rc in (0, 1, 2):
        out.append(Case(f'used-{rc}', used, dict(rc=rc), validate=1))
    return out
