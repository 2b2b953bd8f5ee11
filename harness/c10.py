from symx.harness import Case
from .common import *
from .demo import *

BOUNDS = ('every value real; health variables with nested, tuple and dictionary members; circuits with 0 to 3 RC branches; states with and '
          'without optional fields; unbatched and batches of 2, 3 and 40; later writes by vector, by name, by assignment and in place')
ASSUMPTIONS = []


def container(cx, kind, batch, pre=''):
    nb = batch or 2
    if kind == 'top':
        return build_top(cx, tuple(SIZES) if batch else (), nb)
    if kind == 'ecm':
        return build_asoh(cx, rc=2, c0=True, ent=True, nodes=2, temp_factor=True, batch=('q_t', 'rc0.r', 'r0', 'ocv') if batch else (), nb=nb)
    if kind == 'state':
        return build_state(cx, rc=2, c0=True, batch=('soc', 'q0', 'i_rc', 'hyst') if batch else (), nb=nb)
    if kind == 'state0':
        return build_state(cx, rc=0, c0=False, batch=('soc', 'hyst') if batch else (), nb=nb)
    if kind == 'input':
        return inputs(cx, scal(cx, 't', 0, 10, batch), scal(cx, 'i', -9, 9, batch), scal(cx, 'T', 0, 60, batch))
    if kind == 'output':
        return ECMMeasurement(terminal_voltage=scal(cx, 'v', 0, 5, batch))
    return Box(s=scal(cx, 's', -5, 5, batch), opt=scal(cx, 'opt', -5, 5, batch), v=vec(cx, 'v', 2, -5, 5, batch), t=scal(cx, 't', -5, 5))


def is_hv(m):
    return hasattr(m, 'update_parameters')


def order(m):
    return all_paths(m)


def new_values(cx, m, b, name='n'):
    n = sum(at(m, p).shape[-1] for p in order(m))
    return cx.reals(name, (b, n) if b else (n,), -5, 5)


def carries(cx, label, m, v):
    pos = 0
    v = v if v.ndim == 2 else v[None, :]
    for p in order(m):
        w = at(m, p).shape[-1]
        cx.eq(f'{label}.{p}', at(m, p), v[:, pos:pos + w])
        pos += w


def overwrite(m, how):
    """Everything a later user may do to a container."""
    for p, o, f, a in list(walk(m)):
        if p.endswith('soc_pinpoints'):
            continue
        if how == 'inplace':
            scribble(a)
        elif how == 'assign':
            setattr(o, f, a + 7)
        elif how == 'name' and is_hv(m):
            m.set_value(p, np.full_like(a, 7.) if a.shape[1] > 1 else 7.)
    if how == 'vector':
        z = np.full((1, sum(at(m, p).shape[-1] for p in order(m))), 7.)
        if is_hv(m):
            m.mark_all_updatable()
            m.update_parameters(z)
        else:
            m.from_numpy(z)
    if is_hv(m) and how == 'marks':
        m.mark_all_fixed()


def marks(m):
    return [(type(x).__name__, sorted(x.updatable)) for x in m._iter_over_submodels()] if is_hv(m) else None


def copy(cx, kind, batch, nb, how):
    cx.exactly()
    m = container(cx, kind, batch)
    if is_hv(m):
        m.mark_all_updatable()
    before, mk = snapshot(m), marks(m)
    v = new_values(cx, m, nb)
    wrote = np.array(v, copy=True)
    c = m.make_copy(np.array(wrote, copy=True))
    cx.true('type', type(c) is type(m))
    cx.true('absent fields', [at(c, f) is None for f in fields(c)] == [at(m, f) is None for f in fields(m)])
    carries(cx, 'copy', c, wrote)
    unchanged(cx, 'original', m, before)
    cx.true('marks kept', marks(c) == mk and marks(m) == mk)
    overwrite(c, how)
    unchanged(cx, 'original after writes to the copy', m, before)
    cx.true('marks of the original', marks(m) == mk)
    # and the other way round
    c2, c3, c4 = (m.make_copy(np.array(wrote, copy=True)) for _ in range(3))
    mk2 = marks(c2)
    overwrite(m, how)
    carries(cx, 'copy after writes to the original', c2, wrote)
    cx.true('marks of the copy', marks(c2) == mk2)
    # two copies made with the same values are as independent
    overwrite(c3, how)
    carries(cx, 'second copy', c4, wrote)


def part(cx, kind, names, nb):
    """A copy with only some parameters replaced shares nothing either."""
    cx.exactly()
    m = container(cx, kind, 0)
    for n in names:
        m.mark_updatable(n)
    before = snapshot(m)
    v = cx.reals('n', (nb, sum(at(m, p).shape[-1] for p in names)), -5, 5)
    wrote = np.array(v, copy=True)
    c = m.make_copy(v, names)
    overwrite(m, 'inplace')
    pos = 0
    for p in all_paths(c):
        if p not in names:
            cx.eq(f'{p} kept', at(c, p), before[p])
    for p in names:
        w = at(c, p).shape[-1]
        cx.eq(f'{p} written', at(c, p), wrote[:, pos:pos + w])
        pos += w


def template(cx, rc, c0, given, how, target):
    kw = dict(qt=cx.real('qt', 0.5, 20), CE=cx.real('CE', 0.5, 1), R0=cx.real('R0', 0.01, 1), H0=cx.real('H0', 0, 1),
              OCV=cx.reals('OCV', 3, 2, 5))
    if given == 'own':
        kw['RC'] = [(cx.real(f'Rk{k}', 0.01, 1), cx.real(f'Ck{k}', 100, 1000)) for k in range(rc)]
    elif given == 'same':
        p = (cx.reals('Rs', 1, 0.01, 1), cx.reals('Cs', 1, 100, 1000))
        kw['RC'] = [p for _ in range(rc)]
    if c0 == 'given':
        kw['C0'] = cx.real('C0', 10, 1000)
    a = ECMASOH.provide_template(has_C0=bool(c0), num_RC=rc, **kw)
    b = ECMASOH.provide_template(has_C0=bool(c0), num_RC=rc, **kw)
    cx.true('circuit', len(a.rc_elements) == rc and (a.c0 is not None) == bool(c0))
    cx.eq('capacity', a.q_t.base_values, kw['qt'])
    cx.eq('efficiency', a.ce, kw['CE'])
    cx.eq('resistance', a.r0.base_values, kw['R0'])
    cx.eq('hysteresis', a.h0.base_values, kw['H0'])
    cx.eq('ocv', a.ocv.ocv_ref.base_values, kw['OCV'][None, :])
    if given != 'default':
        for k in range(rc):
            cx.eq(f'RC {k} r', a.rc_elements[k].r.base_values, np.reshape(kw['RC'][k][0], (1, 1)))
            cx.eq(f'RC {k} c', a.rc_elements[k].c.base_values, np.reshape(kw['RC'][k][1], (1, 1)))
    if c0 == 'given':
        cx.eq('series capacitance', a.c0.base_values, kw['C0'])
    before, other = snapshot(a), snapshot(b)
    o, attr = owners(a, target)[-1]
    x = cx.real('x', 1, 2) if how != 'inplace' else cx.const(2)
    if how == 'assign':
        setattr(o, attr, cx.arr([[x]]))
    elif how == 'inplace':
        at(a, target)[...] = 2
    elif how == 'vector':
        a.mark_updatable(target)
        a.update_parameters(cx.arr([x]), [target])
    else:
        a.set_value(target, x)
    for n in before:
        cx.eq(n, at(a, n), cx.arr([[x]]) if n == target else before[n])
    unchanged(cx, 'another circuit of the same template', b, other)
    if how == 'vector':
        cx.true('only the named parameter is updatable', a.updatable_names == (target,), str(a.updatable_names))


def default_parts(cx):
    """Members left at their defaults are the object's own."""
    def mk(k):
        return ECMASOH(q_t=MaxTheoreticalCapacity(base_values=cx.real(f'q{k}', 1, 2)), r0=Resistance(base_values=cx.real(f'r{k}', 0.01, 1)),
                       ocv=OpenCircuitVoltage(ocv_ref=ReferenceOCV(base_values=cx.reals(f'o{k}', 2, 2, 4))))
    a, b = mk(0), mk(1)
    keep = snapshot(b)
    x = cx.real('x', 1, 2)
    a.h0.set_value('base_values', x)
    a.ocv.ocv_ent.set_value('base_values', x)
    a.h0.gamma[...] = 2
    a.ce[...] = 2
    a.r0.temperature_dependence_factor[...] = 2
    a.h0.mark_all_updatable()
    unchanged(cx, 'sibling', b, keep)
    cx.true('sibling marks', not b.h0.updatable and not b.updatable)
    c = mk(2)
    for n, w in keep.items():
        if n.split('.')[0] in ('h0', 'ce') or 'ocv_ent' in n or 'factor' in n:
            cx.eq(f'later default {n}', at(c, n), w)
    s, t = ECMTransientVector(soc=cx.real('s', 0, 1)), ECMTransientVector()
    s.hyst[...] = 2
    cx.eq('state default', t.hyst, np.zeros((1, 1)))
    p, q = Top(), Top()
    p.mid.leaf.x[...] = 2
    p.a[...] = 2
    p.mid.mark_all_updatable()
    cx.eq('nested default', q.mid.leaf.x, np.zeros((1, 1)))
    cx.eq('scalar default', q.a, np.zeros((1, 1)))
    cx.true('nested default marks', not q.mid.updatable)


def aliased_source(cx):
    """Containers do not keep hold of the arrays they were made from."""
    cx.exactly()
    v = cx.reals('v', (2, 2), -5, 5)
    keep = np.array(v, copy=True)
    l, b, s = Leaf(x=v), Box(v=v), ECMTransientVector(i_rc=v)
    scribble(v)
    for n, a in (('leaf', l.x), ('box', b.v), ('state', s.i_rc)):
        cx.eq(n, a, keep)
    w = cx.reals('w', (2, 1), -5, 5)
    kw = np.array(w, copy=True)
    l.set_value('y', w)
    scribble(w)
    cx.eq('set_value', l.y, kw)


def template_state(cx, rc, c0, mode):
    i = cx.reals('i', rc, -5, 5) if mode == 'array' else (cx.real('i', -5, 5) if mode == 'number' else None)
    kw = dict(soc=cx.real('s', 0, 1), q0=cx.real('q', -5, 5), hysteresis=cx.real('h', -1, 1))
    a = ECMTransientVector.provide_template(has_C0=c0, num_RC=rc, i_rc=i, **kw)
    cx.true('series capacitor', (a.q0 is not None) == c0)
    cx.eq('soc', a.soc, kw['soc'])
    cx.eq('hyst', a.hyst, kw['hysteresis'])
    if c0:
        cx.eq('q0', a.q0, kw['q0'])
    cx.shape('i_rc', a.i_rc, (1, rc))
    want = np.zeros((1, rc)) if i is None else (np.array(i, copy=True)[None, :] if mode == 'array' else cx.arr([[i] * rc]).reshape((1, rc)))
    cx.eq('i_rc', a.i_rc, want)
    if mode == 'array' and rc:
        scribble(i)
        cx.eq('i_rc kept', a.i_rc, want)
    f = ECMTransientVector.from_asoh(build_asoh(cx, rc=rc, c0=c0, pre='z'))
    cx.true('from a circuit', f.i_rc.shape == (1, rc) and (f.q0 is not None) == c0)


def cases(tier):
    out = []
    for kind in ('top', 'ecm', 'state', 'state0', 'input', 'output', 'box'):
        for batch, nb in ((0, 0), (0, 1), (0, 2), (2, 2), (3, 0)):
            for how in ('inplace', 'assign', 'vector', 'name', 'marks'):
                if how in ('name', 'marks') and kind not in ('top', 'ecm'):
                    continue
                out.append(Case(f'copy-{kind}-batch={batch}-values={nb}-{how}', copy, dict(kind=kind, batch=batch, nb=nb, how=how), validate=1))
    for kind in ('top', 'state', 'input'):
        for batch, nb in ((40, 0), (40, 40)):
            for how in ('inplace', 'vector'):
                out.append(Case(f'copy-{kind}-batch={batch}-values={nb}-{how}', copy, dict(kind=kind, batch=batch, nb=nb, how=how), validate=1))
    for nb in (1, 2):
        out.append(Case(f'part-top-{nb}', part, dict(kind='top', names=['seq.1.x', 'a'], nb=nb), validate=1))
        out.append(Case(f'part-ecm-{nb}', part, dict(kind='ecm', names=['rc_elements.1.r.base_values', 'c0.base_values'], nb=nb), validate=1))
    for rc in (1, 2, 3):
        targets = [f'rc_elements.{k}.{x}.base_values' for k in range(rc) for x in 'rc'] + ['r0.base_values'] + [f'rc_elements.{k}.r.temperature_dependence_factor' for k in range(rc)]
        for given in ('default', 'own', 'same'):
            for how in ('assign', 'inplace', 'vector', 'name'):
                for t in targets if tier == 'thorough' or rc < 3 else targets[:2]:
                    out.append(Case(f'template-rc={rc}-{given}-{how}-{t}', template,
                                    dict(rc=rc, c0='given' if rc == 2 else 'default' if rc == 1 else None, given=given, how=how, target=t), validate=1))
    out.append(Case('defaults', default_parts))
    out.append(Case('sources', aliased_source))
    for rc in (0, 1, 3):
        for c0 in (False, True):
            for mode in ('none', 'number', 'array'):
                out.append(Case(f'state-template-rc={rc}-c0={int(c0)}-{mode}', template_state, dict(rc=rc, c0=c0, mode=mode), validate=1))
    return out
