import itertools
from symx.harness import Case
from .common import *
from .demo import *

BOUNDS = ('every value real; a health variable with nested, tuple and dictionary members (13 parameters, one with components nested within the members of collections, or 34 with lists of 12 entries and 11 members) and circuits with 0 to 2 RC branches; '
          'every subset of up to 7 update flags at a time, the others all on or all off; several marking orders and histories; batches 1 to 3')
ASSUMPTIONS = []


def build(cx, kind, batch=(), nb=2):
    if kind == 'top':
        return build_top(cx, batch, nb)
    if kind == 'deep':
        return build_deep(cx, batch, nb)
    if kind == 'long':      # more than ten entries and members
        return Top(b=vec(cx, 'b', 12, -5, 5, nb if 'b' in batch else 0), seq=tuple(Leaf(x=cx.real(f's{k}', -5, 5)) for k in range(11)),
                   tab={k: Leaf(x=cx.real(k, -5, 5)) for k in ('zeta', 'alpha', '10', '9')})
    rc = int(kind[3:])
    return build_asoh(cx, rc=rc, c0=rc > 0, nodes=2 if rc == 2 else 1, ent=True, batch=batch, nb=nb)


def follow(m, name):
    """The values a reported name denotes: (batch, 1)."""
    path, k = (name[:-1].split('[') + [None])[:2] if name.endswith(']') else (name, None)
    a = at(m, path)
    if k is None:
        return a
    return a[:, int(k):int(k) + 1]


def expanded(m, p):
    n = at(m, p).shape[1]
    return [p] if n == 1 else [f'{p}[{i}]' for i in range(n)]


def check(cx, label, m, marked):
    """marked: the parameters that are updatable along their whole path, in the object's order."""
    got = list(m.updatable_names)
    cx.true(f'{label}: updatable names', got == marked, f'{got} instead of {marked}')
    names = list(m.expand_names(m.updatable_names))
    cx.true(f'{label}: expanded names', names == [x for p in marked for x in expanded(m, p)], str(names))
    v = m.get_parameters()
    B = m.batch_size
    cx.shape(f'{label}: vector', v, (B, len(names)))
    cx.true(f'{label}: count', m.num_updatable == len(names), str(m.num_updatable))
    for i, n in enumerate(names):
        a = follow(m, n)
        cx.eq(f'{label}: {n}', v[:, i:i + 1], np.repeat(a, B, axis=0) if a.shape[0] == 1 else a)
    cx.true(f'{label}: iteration', [k for k, _ in m.iter_parameters()] == marked)
    for k, a in m.iter_parameters():
        cx.eq(f'{label}: iterated {k}', a, at(m, k))


def flags(m):
    out = []
    for p in all_paths(m):
        for o, f in owners(m, p):
            if not any(o is x and f == y for x, y in out):
                out.append((o, f))
    return out


def subset(cx, kind, free, rest, batch, nb):
    cx.exactly()
    m = build(cx, kind, batch, nb)
    fl = flags(m)
    for i, (o, f) in enumerate(fl):
        on = rest
        if i in free:
            on = cx.branch(cx.real(f'mark{i}', 0, 1) > 0.5)
        if on:
            o.updatable.add(f)
    check(cx, 'names', m, [p for p in all_paths(m) if all(f in o.updatable for o, f in owners(m, p))])
    al = list(m.all_names)
    cx.true('all names', al == all_paths(m), str(al))
    e = list(m.expand_names(al))
    w = m.get_parameters(al)
    cx.shape('all values', w, (m.batch_size, len(e)))


def history(cx, kind, order, batch, nb, evaluate):
    """Marking by name, in any order, again after everything was fixed; values are looked at in between."""
    cx.exactly()
    m = build(cx, kind, batch, nb)
    paths = all_paths(m)
    done = []
    for k in order:
        p = paths[k % len(paths)]
        m.mark_updatable(p)
        done.append(p)
        if evaluate:
            m.ocv(cx.const(1) / 2)
            m.r0.get_value(soc=cx.const(1) / 4, temp=None)
        check(cx, f'after {len(done)}', m, [q for q in paths if q in done])
    before = snapshot(m)
    m.mark_all_fixed()
    check(cx, 'fixed', m, [])
    m.mark_all_updatable(recurse=False)
    check(cx, 'top only', m, [q for q in paths if '.' not in q])
    m.mark_all_updatable()
    check(cx, 'all', m, paths)
    m.mark_all_fixed(recurse=False)
    check(cx, 'top fixed', m, [])
    m.mark_updatable(paths[-1])
    m.mark_updatable(paths[0])
    top = {p.split('.')[0] for p in (paths[0], paths[-1])}
    check(cx, 'again', m, [q for q in paths if q.split('.')[0] in top])
    unchanged(cx, 'values', m, before)


GROUPS = ['mid', 'mid.leaf', 'seq', 'seq.0', 'seq.1', 'tab', 'tab.one', 'tab.two', 'b', 'a', 'mid.z', 'mid.leaf.x', 'seq.1.x', 'tab.one.x', 'tab.two.y']


def groups(cx, kind, names, marks):
    """The name of a part stands for every parameter within it, updatable or not."""
    m = build(cx, kind)
    if marks == 'all':
        m.mark_all_updatable()
    else:
        ps = all_paths(m)
        for p in ps[marks::3] if marks is not None else []:
            m.mark_updatable(p)
    want = [x for n in names for p in all_paths(m) if p == n or p.startswith(n + '.') for x in expanded(m, p)]
    got = list(m.expand_names(names))
    cx.true('expanded', got == want, f'{got} instead of {want}')
    for n in got:
        cx.shape(n, follow(m, n), (1, 1))


def cases(tier):
    out = []
    for kind, nflags in (('top', 20), ('ecm0', 18), ('ecm1', 26), ('ecm2', 34), ('deep', 36)):
        w = 7 if tier == 'thorough' else 5
        for rest in (True, False):
            for k, s in enumerate(range(0, nflags, w)):
                out.append(Case(f'subset-{kind}-{k}-{int(rest)}', subset, dict(kind=kind, free=list(range(s, s + w)), rest=rest, batch=(), nb=2), validate=1))
            for k, s in enumerate(range(0, 4)):
                out.append(Case(f'spread-{kind}-{k}-{int(rest)}', subset,
                                dict(kind=kind, free=list(range(s, nflags, 5)), rest=rest, batch={'top': ('a', 'seq.1.x'), 'deep': ('k', 'tab.two.leaf.x')}.get(kind, ('q_t', 'r0')), nb=2 + k % 2),
                                validate=1))
    for kind in ('top', 'ecm0', 'ecm1', 'ecm2', 'deep'):
        for k, order in enumerate([(3, 0, 1), (5, 4, 3, 2, 1, 0), (12, 1, 7, 0), (8, 2, 8, 11), (-1, 0, -2, 4), (6,)]):
            for batch, nb in (((), 1), ({'top': ('b', 'tab.two.x'), 'deep': ('tab.one.leaf.x', 'seq.1.z')}.get(kind, ('ce', 'h0')), 2)):
                for ev in (False, True) if kind not in ('top', 'deep') and not batch else (False,):
                    out.append(Case(f'history-{kind}-{k}-batch={int(bool(batch))}-evaluated={int(ev)}', history,
                                    dict(kind=kind, order=order, batch=batch, nb=nb, evaluate=ev), validate=1))
    for k, order in enumerate([(0, 22, 24, 30), (25, 3, 5, 23), (31, 29, 1, 0)]):
        for batch in ((), ('b',)):
            out.append(Case(f'history-long-{k}-batch={int(bool(batch))}', history, dict(kind='long', order=order, batch=batch, nb=2, evaluate=False), validate=1))
    for k, g in enumerate([['b'], ['seq'], ['seq.10', 'seq.2', 'tab'], ['tab.10', 'seq.1', 'tab.9']]):
        out.append(Case(f'groups-long-{k}', groups, dict(kind='long', names=g, marks=None), validate=1))
    for g in GROUPS:
        for marks in (None, 0, 1, 2, 'all'):
            out.append(Case(f'group-{g}-marked={marks}', groups, dict(kind='top', names=[g], marks=marks), validate=1))
    for k, g in enumerate([['tab'], ['tab.one'], ['tab.two.leaf', 'seq.1'], ['seq'], ['top'], ['top.tab', 'k', 'seq.0.leaf'], ['top.mid', 'tab.one.leaf']]):
        for marks in (None, 0, 1, 2, 'all'):
            out.append(Case(f'groups-deep-{k}-marked={marks}', groups, dict(kind='deep', names=g, marks=marks), validate=1))
    for k, g in enumerate([['seq', 'a', 'mid'], ['tab.two', 'mid.leaf', 'b'], ['a', 'a'], []]):
        for marks in (None, 1):
            out.append(Case(f'groups-{k}-marked={marks}', groups, dict(kind='top', names=g, marks=marks), validate=1))
    for k, g in enumerate([['rc_elements'], ['rc_elements.1', 'q_t'], ['rc_elements.0.r', 'ocv'], ['ocv.ocv_ref', 'ce', 'c0'], ['h0', 'r0.base_values', 'rc_elements.1.c']]):
        for marks in (None, 0, 1, 2):
            out.append(Case(f'groups-ecm-{k}-marked={marks}', groups, dict(kind='ecm2', names=g, marks=marks), validate=1))
    return out
