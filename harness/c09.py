from symx.harness import Case
from .common import *
from .demo import *

BOUNDS = ('every value real; nested, tuple and dictionary members; scalars and lists of 1 to 3 and 12; up to 11 members; up to 13 parameters in several orders, by name or as marked; '
          'circuits with 0 to 2 RC branches; histories of up to three writes with batches 1 to 4 and 40')
ASSUMPTIONS = ['the names of one write are different parameters', 'batches other than 1 in one object have the same size (the documented requirement)']


def build(cx, kind, batch=(), nb=2):
    if kind == 'top':
        return build_top(cx, batch, nb)
    if kind == 'deep':
        return build_deep(cx, batch, nb)
    if kind == 'long':      # more than ten entries and members
        return Top(b=vec(cx, 'b', 12, -5, 5), seq=tuple(Leaf(x=cx.real(f's{k}', -5, 5)) for k in range(11)),
                   tab={k: Leaf(x=cx.real(k, -5, 5)) for k in ('zeta', 'alpha', '10', '9')})
    if kind == 'ecm0':
        return build_asoh(cx, rc=0, c0=False, ent=True, batch=batch, nb=nb)
    return build_asoh(cx, rc=2, c0=True, nodes=2, h_nodes=3, ent=True, temp_factor=True, batch=batch, nb=nb)


ORDERS = {
    'deep': [['tab.one.leaf.x'], ['top.tab.in.x', 'seq.1.leaf.x', 'k', 'tab.two.z', 'tab.one.leaf.y'], ['seq.0.z', 'seq.1.leaf.y', 'tab.two.leaf.x', 'top.mid.leaf.x', 'top.b'], None],
    'top': [['a'], ['b'], ['b', 'a'], ['a', 'b'], ['mid.leaf.x', 'tab.two.x', 'mid.z'], ['seq.1.x', 'seq.0.x', 'tab.one.y', 'tab.one.x'],
            ['tab.two.y', 'tab.one.x', 'seq.1.y', 'seq.1.x', 'mid.z', 'mid.leaf.y', 'a', 'b', 'mid.leaf.x'], None],
    'ecm0': [['q_t.base_values'], ['r0.base_values', 'ce', 'ocv.ocv_ref.base_values'], ['h0.base_values', 'h0.gamma', 'ocv.ocv_ent.base_values'], None],
    'ecm2': [['rc_elements.1.r.base_values', 'rc_elements.0.c.base_values'], ['c0.base_values', 'q_t.base_values', 'rc_elements.0.r.base_values'],
             ['rc_elements.1.c.base_values', 'rc_elements.1.r.temperature_dependence_factor', 'r0.temperature_dependence_factor', 'h0.base_values', 'ce'], None],
}


def size(m, n):
    return at(m, n).shape[-1]


def roundtrip(cx, kind, names, history, batch, nb, marked=None):
    cx.exactly()
    m = build(cx, kind, batch, nb)
    if names is None and marked:
        for n in marked:
            m.mark_updatable(n)
        order = [n for n in all_paths(m) if n in marked]
    elif names is None:
        m.mark_all_updatable()
        order = [n for n in all_paths(m)]
    else:
        for n in names:
            m.mark_updatable(n)
        order = names
    for k, b in enumerate(history):
        before = snapshot(m)
        total = sum(size(m, n) for n in order)
        v = cx.reals(f'v{k}', (b, total) if b else (total,), -5, 5)
        wrote = np.array(v, copy=True)
        m.update_parameters(v, names)
        want = wrote if b else wrote[None, :]
        full = m.batch_size
        got = m.get_parameters(names)
        cx.shape(f'write {k}: read', got, (full, total))
        cx.eq(f'write {k}: read', got, np.repeat(want, full, axis=0) if want.shape[0] == 1 and full > 1 else want)
        cx.eq(f'write {k}: argument', v, wrote)
        pos = 0
        after = snapshot(m)
        for n in order:
            w = before[n].shape[-1]
            cx.eq(f'write {k}: {n}', after[n], want[:, pos:pos + w])
            pos += w
        for n in before:
            if n not in order:
                cx.eq(f'write {k}: {n} kept', after[n], before[n])


def two_halves(cx, kind):
    """Reading in another order reads the same parameters."""
    cx.exactly()
    m = build(cx, kind)
    m.mark_all_updatable()
    names = all_paths(m)
    v = cx.reals('v', (2, sum(size(m, n) for n in names)), -5, 5)
    m.update_parameters(v)
    got = m.get_parameters(names[::-1])
    parts, pos = {}, 0
    for n in names:
        w = at(m, n).shape[-1]
        parts[n] = v[:, pos:pos + w]
        pos += w
    cx.eq('reverse order', got, np.concatenate([parts[n] for n in names[::-1]], axis=1))
    for n in names:
        cx.eq(f'only {n}', m.get_parameters([n]), parts[n])
    cx.shape('nothing', m.get_parameters([]), (2, 0))


def wrong_length(cx, kind, names, delta, b, prior):
    m = build(cx, kind)
    for n in names or []:
        m.mark_updatable(n)
    if names is None:
        m.mark_all_updatable()
    order = names or all_paths(m)
    total = sum(size(m, n) for n in order)
    if prior:
        m.update_parameters(cx.reals('p', (prior, total), -5, 5), names)
    v = cx.reals('v', (b, total + delta) if b else (total + delta,), -5, 5)
    cx.raises('length', ValueError, lambda: m.update_parameters(v, names))


def fixed_name(cx, kind, names, fix, level):
    """One attribute along the path of one name is not updatable."""
    m = build(cx, kind)
    m.mark_all_updatable()
    o, attr = owners(m, fix)[level]
    o.updatable.discard(attr)
    before = snapshot(m)
    v = cx.reals('v', (sum(size(m, n) for n in names),), -5, 5)
    cx.raises('not updatable', ValueError, lambda: m.update_parameters(v, names))
    if names[0] == fix:
        unchanged(cx, 'object', m, before)


def cases(tier):
    out = []
    hist = [(0,), (1,), (2,), (3,), (4,), (2, 2), (3, 0), (0, 2, 2), (40,)] + ([(2, 2, 2), (3, 1, 2), (1, 1, 1)] if tier == 'thorough' else [])
    for kind, orders in ORDERS.items():
        for j, names in enumerate(orders):
            for h in hist:
                out.append(Case(f'write-{kind}-{j}-history={h}', roundtrip, dict(kind=kind, names=names, history=h, batch=(), nb=2), validate=1))
    for kind, marked in (('top', ['mid.leaf.x', 'mid.leaf.y']), ('top', ['seq.1.x', 'seq.0.x', 'seq.1.y']), ('top', ['tab.two.x', 'tab.one.y']), ('top', ['b']),
                         ('ecm2', ['rc_elements.0.r.base_values', 'rc_elements.1.c.base_values']), ('ecm2', ['ocv.ocv_ref.base_values', 'ocv.ocv_ent.base_values']),
                         ('ecm0', ['h0.base_values', 'h0.gamma']), ('top', ['a', 'tab.two.y'])):
        for h in ((0,), (2,), (3, 0)):
            out.append(Case(f'marked-{kind}-{"+".join(marked)}-history={h}', roundtrip,
                            dict(kind=kind, names=None, history=h, batch=(), nb=2, marked=marked), validate=1))
    for names in (None, ['b'], ['seq.10.x', 'seq.2.x', 'seq.1.x'], ['tab.10.x', 'tab.9.x', 'tab.zeta.x', 'b']):
        for h in ((0,), (2, 0)):
            out.append(Case(f'long-{names and "+".join(names)}-history={h}', roundtrip, dict(kind='long', names=names, history=h, batch=(), nb=2), validate=1))
    for j, (names, batch) in enumerate([(['a'], ('a',)), (['a', 'b'], ('mid.leaf.x',)), (['b', 'mid.z'], ('b', 'mid.z')), (['seq.1.x', 'b'], ('seq.1.x',)),
                                        (['tab.two.x'], ('tab.one.x', 'b'))]):
        for nb in (2, 3, 4):
            for h in ((0,), (1,), (nb,), (nb, nb)):
                out.append(Case(f'batched-{j}-nb={nb}-history={h}', roundtrip, dict(kind='top', names=names, history=h, batch=batch, nb=nb), validate=1))
    for kind in ORDERS:
        out.append(Case(f'order-{kind}', two_halves, dict(kind=kind), validate=1))
    for kind, names in (('top', ['a', 'b']), ('top', ['seq.1.x', 'mid.leaf.x']), ('top', None), ('ecm2', ['c0.base_values', 'rc_elements.1.r.base_values']), ('ecm0', None)):
        for delta in (-1, 1, 2):
            for b in (0, 2):
                for prior in (0, 2):
                    out.append(Case(f'length-{kind}-{names and "+".join(names)}-{delta:+d}-b={b}-prior={prior}', wrong_length,
                                    dict(kind=kind, names=names, delta=delta, b=b, prior=prior), validate=1))
    for kind, names, fix in (('top', ['a'], 'a'), ('top', ['mid.leaf.x'], 'mid.leaf.x'), ('top', ['a', 'seq.1.y'], 'seq.1.y'), ('top', ['tab.two.x'], 'tab.two.x'),
                             ('ecm2', ['rc_elements.1.c.base_values'], 'rc_elements.1.c.base_values'), ('ecm2', ['ocv.ocv_ref.base_values', 'ce'], 'ocv.ocv_ref.base_values')):
        n = {'a': 1, 'mid.leaf.x': 3, 'seq.1.y': 2, 'tab.two.x': 2, 'rc_elements.1.c.base_values': 3, 'ocv.ocv_ref.base_values': 3}[fix]
        for level in range(n):
            out.append(Case(f'fixed-{kind}-{fix}-{level}', fixed_name, dict(kind=kind, names=names, fix=fix, level=level), validate=1))
    return out
