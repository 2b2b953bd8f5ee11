import itertools
from symx.harness import Case
from .common import *
from .demo import *
from .c33 import SOCPolynomialVariable, SOCTempPolynomialVariable

BOUNDS = ('every value real; scalar and list parameters given as numbers, 0-d arrays, (nested) lists, tuples, 1-D arrays, rows, columns and tables, batches of 1 '
          'to 5, of scalars also 40; health variables with nested, tuple and dictionary members, circuits, states and inputs; given to the constructor or set by name')
ASSUMPTIONS = []


def forms(cx, name, B, lo=-5):
    """(label, value given, the B values it states)."""
    v = cx.reals(name, B, lo, 5)
    k = [v[b] for b in range(B)]
    out = [('vector', v, k), ('list', list(k), k), ('tuple', tuple(k), k), ('column', copy(v)[:, None], k), ('row', copy(v)[None, :], k),
           ('nested list', [[x] for x in k], k), ('row list', [list(k)], k)]
    if B == 1:
        out += [('number', k[0], k), ('0-d array', copy(v).reshape(()), k)]
    return out


def copy(a):
    return np.array(a, copy=True)


SCALARS = {'leaf': (lambda v: Leaf(y=v), 'y'), 'top': (lambda v: Top(a=v), 'a'), 'box': (lambda v: Box(s=v), 's'), 'optional': (lambda v: Box(opt=v), 'opt'),
           'capacity': (lambda v: MaxTheoreticalCapacity(base_values=v), 'base_values'), 'state': (lambda v: ECMTransientVector(soc=v), 'soc'),
           'q0': (lambda v: ECMTransientVector(q0=v), 'q0'), 'input': (lambda v: ECMInput(current=v), 'current'),
           'output': (lambda v: ECMMeasurement(terminal_voltage=v), 'terminal_voltage'),
           'rate': (lambda v: HysteresisParameters(base_values=1., gamma=v), 'gamma'),
           'reference': (lambda v: ReferenceOCV(base_values=1., reference_temperature=v), 'reference_temperature'),
           'efficiency': (lambda v: ECMASOH(q_t=MaxTheoreticalCapacity(base_values=1.), ocv=OpenCircuitVoltage(ocv_ref=ReferenceOCV(base_values=1.)), r0=Resistance(base_values=1.), ce=v), 'ce'),
           'coefficient': (lambda v: SOCTempPolynomialVariable(t_ref=v), 't_ref'),
           'factor': (lambda v: Resistance(base_values=1., temperature_dependence_factor=v), 'temperature_dependence_factor')}
LISTS = {'leaf': (lambda v: Leaf(x=v), 'x'), 'top': (lambda v: Top(b=v), 'b'), 'box': (lambda v: Box(v=v), 'v'), 'optional': (lambda v: Box(w=v), 'w'),
         'state': (lambda v: ECMTransientVector(i_rc=v), 'i_rc'), 'r': (lambda v: Resistance(base_values=v), 'base_values'),
         'hysteresis': (lambda v: HysteresisParameters(base_values=v), 'base_values'), 'entropic': (lambda v: EntropicOCV(base_values=v), 'base_values'),
         'capacitance': (lambda v: Capacitance(base_values=v), 'base_values'), 'polynomial': (lambda v: SOCPolynomialVariable(coeffs=v), 'coeffs'),
         'temperature polynomial': (lambda v: SOCTempPolynomialVariable(t_coeffs=v), 't_coeffs'),
         'ocv': (lambda v: ReferenceOCV(base_values=v), 'base_values')}


def column(cx, k):
    return cx.arr([[x] for x in k])


def scalar(cx, kind, B):
    make, f = SCALARS[kind]
    for label, v, k in forms(cx, 'v', B, 0 if kind == 'rate' else -5):
        m = make(v)
        a = getattr(m, f)
        cx.shape(label, a, (B, 1))
        cx.eq(label, a, column(cx, k))
        cx.true(f'{label}: batch size', m.batch_size == B, str(m.batch_size))
        if isinstance(v, np.ndarray) and v.ndim:
            scribble(v)
            cx.eq(f'{label}: kept', getattr(m, f), column(cx, k))


def table(cx, kind, n, m):
    """More than one value per member is no scalar."""
    make, f = SCALARS[kind]
    v = cx.reals('v', (n, m), -5, 5)
    cx.raises('a table', ValueError, lambda: make(v))
    cx.raises('a table as lists', ValueError, lambda: make([list(r) for r in v]))


def listed(cx, kind, B, n):
    make, f = LISTS[kind]
    v = cx.reals('v', (B, n), -5, 5)
    given = [('table', copy(v)), ('lists', [list(r) for r in v])]
    if B == 1:
        given += [('vector', copy(v)[0]), ('list', list(v[0])), ('tuple', tuple(v[0]))]
        if n == 1:
            given += [('number', v[0, 0]), ('0-d array', copy(v).reshape(()))]
    for label, g in given:
        m = make(g)
        a = getattr(m, f)
        cx.shape(label, a, (B, n))
        cx.eq(label, a, v)
        cx.true(f'{label}: batch size', m.batch_size == B, str(m.batch_size))
        if isinstance(g, np.ndarray) and g.ndim:
            scribble(g)
            cx.eq(f'{label}: kept', getattr(m, f), v)


def named(cx, kind, path, B, old):
    """Setting one value by name, in any form."""
    def make():
        if kind == 'top':
            return build_top(cx, tuple(SIZES) if old else (), B if old else 2)
        return build_asoh(cx, rc=2, c0=True, ent=True, nodes=2, temp_factor=True)
    m0 = make()
    w = at(m0, path).shape[-1]
    if w == 1:
        given = forms(cx, 'v', B)
        want = column(cx, given[0][2])
    else:
        v = cx.reals('v', (B, w), -5, 5)
        want = copy(v)
        given = [('table', v, None), ('lists', [list(r) for r in v], None)] + ([('vector', copy(v)[0], None), ('list', list(v[0]), None)] if B == 1 else [])
    for label, g, _ in given:
        m = m0.model_copy(deep=True)
        m.mark_updatable(path)
        before, marks = snapshot(m), set(m.updatable_names)
        m.set_value(path, g)
        if isinstance(g, np.ndarray) and g.ndim:
            scribble(g)
        for p in before:
            cx.eq(f'{label}: {p}', at(m, p), want if p == path else before[p])
        cx.shape(label, at(m, path), (B, w))
        cx.true(f'{label}: marks', set(m.updatable_names) == marks)
        cx.true(f'{label}: batch size', m.batch_size == B, str(m.batch_size))
        cx.eq(f'{label}: vector', m.get_parameters(), want)


def health_sizes(cx, sizes):
    """Every parameter has either one value or as many as the others; sizes in the order of the fields."""
    names = list(SIZES)
    v = {n: cx.reals(n, (s, SIZES[n]), -5, 5) for n, s in zip(names, sizes)}
    leaf = lambda p: Leaf(x=v[p + '.x'], y=v[p + '.y'])
    mk = lambda: Top(b=v['b'], mid=Mid(leaf=leaf('mid.leaf'), z=v['mid.z']), a=v['a'], seq=(leaf('seq.0'), leaf('seq.1')),
                     tab={'one': leaf('tab.one'), 'two': leaf('tab.two')})
    several = {s for s in sizes if s > 1}
    if len(several) > 1:
        return cx.raises('different sizes', ValueError, mk)
    m = mk()
    B = max(sizes)
    cx.true('batch size', m.batch_size == B, str(m.batch_size))
    m.mark_all_updatable()
    cx.true('number of updatable values', m.num_updatable == sum(SIZES.values()), str(m.num_updatable))
    x = m.get_parameters(names)
    cx.shape('vector', x, (B, sum(SIZES.values())))
    pos = 0
    for n in names:
        for b in range(B):
            cx.eq(f'{n} of member {b}', x[b, pos:pos + SIZES[n]], pick(v[n], b))
        pos += SIZES[n]


def state_sizes(cx, kind, sizes):
    v = [cx.reals(f'v{i}', (s, 1), -5, 5) for i, s in enumerate(sizes)]
    if kind == 'state':
        mk = lambda: ECMTransientVector(soc=v[0], q0=v[1], i_rc=v[2], hyst=v[3])
    elif kind == 'input':
        mk = lambda: ECMInput(time=v[0], current=v[1], temperature=v[2])
    else:
        mk = lambda: Box(s=v[0], opt=v[1], v=v[2], w=v[3], t=v[4])
    m = mk()
    if len({s for s in sizes if s > 1}) > 1:
        cx.raises('different sizes', ValueError, lambda: m.batch_size)
        cx.raises('vector of different sizes', ValueError, m.to_numpy)
        return
    B = max(sizes)
    cx.true('batch size', m.batch_size == B, str(m.batch_size))
    x = m.to_numpy()
    cx.shape('vector', x, (B, len(sizes)))
    for i, a in enumerate(v):
        for b in range(B):
            cx.eq(f'value {i} of member {b}', x[b, i], pick(a, b)[0])


def rates(cx, B, bad):
    """A rate below zero is refused for every member."""
    v = [cx.real(f'v{b}', -5, -0.001) if b == bad else cx.real(f'v{b}', 0, 5) for b in range(B)]
    mk = lambda: HysteresisParameters(base_values=1., gamma=cx.arr(v))
    if bad is None:
        cx.eq('rates', mk().gamma, column(cx, v))
    else:
        cx.raises('negative rate', ValueError, mk)


def cases(tier):
    out = []
    for B in (1, 2, 3):
        for bad in (None, *range(B)):
            out.append(Case(f'rates-{B}-{bad}', rates, dict(B=B, bad=bad), validate=1))
    for kind in SCALARS:
        for B in (1, 2, 3, 4, 5, 40):
            out.append(Case(f'scalar-{kind}-{B}', scalar, dict(kind=kind, B=B), validate=1))
        for n, m in ((2, 2), (2, 3), (3, 2)):
            out.append(Case(f'table-{kind}-{n}x{m}', table, dict(kind=kind, n=n, m=m), validate=1))
    for kind in LISTS:
        for B in (1, 2, 3, 4):
            for n in (1, 2, 3, 4) + (12,) * (B == 2):
                out.append(Case(f'list-{kind}-{B}x{n}', listed, dict(kind=kind, B=B, n=n), validate=1))
    for path in SIZES:
        for B in (1, 2, 3):
            out.append(Case(f'named-top-{path}-{B}', named, dict(kind='top', path=path, B=B, old=0), validate=1))
        out.append(Case(f'named-batched-{path}', named, dict(kind='top', path=path, B=2, old=2), validate=1))
    for path in ('q_t.base_values', 'ce', 'ocv.ocv_ref.base_values', 'ocv.ocv_ent.base_values', 'r0.temperature_dependence_factor', 'c0.base_values',
                 'rc_elements.0.r.base_values', 'rc_elements.1.r.base_values', 'rc_elements.1.c.base_values', 'h0.gamma'):
        for B in (1, 2):
            out.append(Case(f'named-ecm-{path}-{B}', named, dict(kind='ecm', path=path, B=B, old=0), validate=1))
    n = len(SIZES)
    base = [1] * n
    for i in range(n):
        s = list(base)
        s[i] = 3
        out.append(Case(f'health-only-{i}', health_sizes, dict(sizes=s), validate=1))
        for j in range(i + 1, n):
            for a, b in ((2, 3), (3, 2), (2, 2)):
                if tier == 'thorough' or (i + j) % 2 == 0 or a != b and j == i + 1:
                    s = list(base)
                    s[i], s[j] = a, b
                    out.append(Case(f'health-{i}-{j}-{a}{b}', health_sizes, dict(sizes=s), validate=1))
    for s in ([2] * n, [2] * (n - 1) + [3], [3] + [1] * (n - 2) + [2], [2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2], [2, 4] + [1] * (n - 2), [4, 2] + [1] * (n - 2)):
        out.append(Case('health-' + ''.join(map(str, s)), health_sizes, dict(sizes=s), validate=1))
    for kind, k in (('state', 4), ('input', 3), ('box', 5)):
        for s in itertools.product((1, 2, 3), repeat=k):
            if tier == 'thorough' or k < 5 or sum(x > 1 for x in s) <= 2 or len(set(s)) == 1:
                out.append(Case(f'{kind}-' + ''.join(map(str, s)), state_sizes, dict(kind=kind, sizes=list(s)), validate=1))
    return out
