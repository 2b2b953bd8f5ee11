from symx.harness import Case
from .cells import *
from moirae.estimators.online.utils.model import CellModelWrapper, DegradationModelWrapper, JointCellModelWrapper
from moirae.models.utils import NoDegradation

BOUNDS = ('containers with scalar, list, optional and nested members (2 to 4 transients, 4 health parameters, 2 or 3 inputs, 1 or 3 outputs); every subset of the '
          'health parameters in two orders; 1 to 3 and 60 rows of hidden states, controls as one vector, one row or one row each; identity, scaled, shifted, affine, '
          'matrix and absolute-value coordinate changes of hidden states, controls and outputs; with and without a degradation model')
ASSUMPTIONS = ['the cell and degradation models are functions of their arguments, row by row (uninterpreted)', 'the conversion operators are right (C14)']

KINDS = ['identity', 'scale', 'shift', 'affine', 'matrix', 'absolute']


class Setup:
    def __init__(self, cx, wrapper, subset, conv, nv=1, aux=False, temp=False, extra=0, deg=True, only=None):
        self.cx = cx
        self.names = SUBSETS[subset]
        self.h = health(cx, self.names)
        self.x = trans(cx, nv, aux)
        self.i = controls(cx, temp=temp)
        self.cell = UFCell(cx, extra)
        self.deg = UFDegradation(cx, only=only) if deg else NoDegradation()
        self.nt, self.nu, self.ny = width(self.x), width(self.i), 1 + extra
        self.na = sum(HEALTH[n] for n in self.names)
        self.nh = {'cell': self.nt, 'deg': self.na, 'joint': self.nt + self.na}[wrapper]
        kh, ku, ky = conv
        self.ops = [operator(cx, kh, self.nh, 'ch.'), operator(cx, ku, self.nu, 'cu.'), operator(cx, ky, self.ny, 'cy.')]
        self.conv = dict(hidden_conversion_operator=self.ops[0], control_conversion_operator=self.ops[1], output_conversion_operator=self.ops[2])
        self.given = [snapshot(m) for m in (self.h, self.x, self.i)]
        self.kept = [o.model_copy(deep=True) for o in self.ops]

    def untouched(self, label):
        for t, m, s in zip(('health', 'transients', 'inputs'), (self.h, self.x, self.i), self.given):
            unchanged(self.cx, f'{label}: {t}', m, s)
        self.cx.true(f'{label}: updatable', set(self.h.updatable_names) == set(self.names))

    def hidden(self, rows, name='s'):
        return self.cx.reals(name, (rows, self.nh), -5, 5)

    def control(self, name, rows, form):
        shape = {'vector': (self.nu,), 'row': (1, self.nu), 'rows': (rows, self.nu)}[form]
        return self.cx.reals(name, shape, -5, 5)

    def phys(self, k, a):
        out = self.kept[k].model_copy(deep=True).transform_samples(samples=copy(a))
        return out

    def back(self, k, rows):
        return self.kept[k].model_copy(deep=True).inverse_transform_samples(transformed_samples=self.cx.arr(rows))

    def u(self, c, r):
        p = self.phys(1, c)
        p = p[None, :] if p.ndim == 1 else p
        return list(p[r if p.shape[0] > 1 else 0])

    def asoh(self, vals):
        """The flat health parameters with the estimated ones replaced, in the order of the fields."""
        new = {p: list(v[0]) for p, v in self.given[0].items()}
        at = 0
        for n in self.names:
            new[n] = list(vals[at:at + HEALTH[n]])
            at += HEALTH[n]
        return [x for p, _ in values(self.h) for x in new[p]]

    def f(self, prev, new, x, h):
        return [self.cell.f(p, j, prev + new + x + h) for p, v in values(self.x) for j in range(v.shape[1])]

    def g(self, u, x, h):
        out = [self.cell.g('v', 0, u + x + h)]
        return out + [self.cell.g('extra', j, u + x + h) for j in range(self.cell.extra)]

    def d(self, h, u, x, y):
        """The estimated parameters after degradation."""
        vals = {}
        at = 0
        for p, v in values(self.h):
            vals[p] = h[at:at + v.shape[1]]
            at += v.shape[1]
        if isinstance(self.deg, UFDegradation):
            vals = {p: ([self.deg.d(p, j, h + u + x + y) for j in range(len(v))] if self.deg.only is None or p in self.deg.only else v)
                    for p, v in vals.items()}
        return [z for n in self.names for z in vals[n]]

    def x0(self):
        return [z for v in self.given[1].values() for z in v[0]]

    def h0(self):
        return [z for v in self.given[0].values() for z in v[0]]

    def i0(self):
        return [z for v in self.given[2].values() for z in v[0]]


def compare(cx, label, got, want, n):
    cx.shape(label, got, (n, len(want[0])))
    return cx.eq(label, got, want)


def run(cx, s, w, mode, rows, form, update, predict, steps=1):
    cx.true('dimensions', (w.num_hidden_dimensions, w.num_output_dimensions) == (s.nh, s.ny), f'{w.num_hidden_dimensions}, {w.num_output_dimensions}')
    for t in range(steps):
        if mode != 'predict':
            h = s.hidden(rows, f's{t}')
            u0, u1 = s.control(f'p{t}', rows, form), s.control(f'n{t}', rows, form)
            kept = copy(h), copy(u0), copy(u1)
            got = w.update_hidden_states(hidden_states=h, previous_controls=u0, new_controls=u1)
            ph = s.phys(0, kept[0])
            want = s.back(0, [update(list(ph[r]), s.u(kept[1], r), s.u(kept[2], r)) for r in range(rows)])
            compare(cx, f'update {t}', got, want, rows)
            for n, a, b in zip(('hidden', 'previous', 'new'), (h, u0, u1), kept):
                cx.eq(f'update {t}: argument {n}', a, b)
            s.untouched(f'update {t}')
            last = kept[1]
            scribble(got)
        else:
            last = None
        h, u = s.hidden(rows, f'q{t}'), s.control(f'm{t}', rows, form)
        kept = copy(h), copy(u)
        got = w.predict_measurement(hidden_states=h, controls=u)
        ph = s.phys(0, kept[0])
        want = s.back(2, [predict(list(ph[r]), s.u(kept[1], r), None if last is None else s.u(last, r)) for r in range(rows)])
        compare(cx, f'predict {t}', got, want, rows)
        for n, a, b in zip(('hidden', 'controls'), (h, u), kept):
            cx.eq(f'predict {t}: argument {n}', a, b)
        s.untouched(f'predict {t}')
        scribble(got)
    for o, k, n in zip(s.ops, s.kept, ('hidden', 'control', 'output')):
        probe = cx.reals(f'probe.{n}', {'hidden': s.nh, 'control': s.nu, 'output': s.ny}[n], -5, 5)
        cx.eq(f'operator of the {n}', o.transform_samples(samples=copy(probe)), k.transform_samples(samples=copy(probe)))


def cell(cx, conv, rows, form, mode='both', steps=1, **kw):
    s = Setup(cx, 'cell', kw.pop('subset', 'none'), conv, **kw)
    w = CellModelWrapper(s.cell, s.h, s.x, s.i, converters=s.conv) if conv[0] != 'default' else CellModelWrapper(s.cell, s.h, s.x, s.i)
    h = s.h0()
    run(cx, s, w, mode, rows, form, lambda x, u0, u1: s.f(u0, u1, x, h), lambda x, u, _: s.g(u, x, h), steps)


def deg(cx, conv, rows, form, mode='both', steps=1, given=True, **kw):
    s = Setup(cx, 'deg', kw.pop('subset'), conv, **kw)
    if not given:
        s.names = tuple(n for n in HEALTH if n in s.names)
    extra = {'asoh_inputs': s.names} if given else {}
    if isinstance(s.deg, UFDegradation):
        extra['degradation_model'] = s.deg
    w = DegradationModelWrapper(s.cell, s.h, s.x, s.i, converters=s.conv, **extra)
    x = s.x0()

    def update(h, u0, u1):
        h = s.asoh(h)
        return s.d(h, u1, x, s.g(u1, x, h))

    def predict(h, u, last):
        h = s.asoh(h)
        return s.g(u, s.f(s.i0() if last is None else last, u, x, h), h)
    run(cx, s, w, mode, rows, form, update, predict, steps)


def joint(cx, conv, rows, form, mode='both', steps=1, given=True, **kw):
    s = Setup(cx, 'joint', kw.pop('subset'), conv, **kw)
    if not given:
        s.names = tuple(n for n in HEALTH if n in s.names)
    extra = {'asoh_inputs': s.names} if given else {}
    if isinstance(s.deg, UFDegradation):
        extra['degradation_model'] = s.deg
    w = JointCellModelWrapper(s.cell, s.h, s.x, s.i, converters=s.conv, **extra)

    def update(z, u0, u1):
        x, h = z[:s.nt], s.asoh(z[s.nt:])
        return s.f(u0, u1, x, h) + s.d(h, u0, x, s.g(u0, x, h))

    def predict(z, u, _):
        x, h = z[:s.nt], s.asoh(z[s.nt:])
        return s.g(u, x, h)
    run(cx, s, w, mode, rows, form, update, predict, steps)
    # between hidden states and containers
    z = s.hidden(rows, 'z')
    kept = copy(z)
    a, x = w.create_cell_model_inputs(z)
    ph = s.phys(0, kept)
    for r in range(rows):
        cx.eq(f'transients of row {r}', flat(x, r), list(ph[r, :s.nt]))
        cx.eq(f'health of row {r}', flat(a, r), s.asoh(list(ph[r, s.nt:])))
    if conv[0] != 'absolute' and (s.na or rows == 1):
        cx.eq('hidden state of the containers', w.create_hidden_state(a, x), kept)
    s.untouched('containers')
    cx.eq('containers: argument', z, kept)


def cases(tier):
    out = []
    full = tier == 'thorough'
    I3 = ('identity',) * 3
    convs = [I3, ('scale', 'identity', 'shift'), ('affine', 'shift', 'scale'), ('matrix', 'affine', 'affine'), ('affine', 'matrix', 'affine'),
             ('shift', 'scale', 'matrix'), ('absolute', 'affine', 'identity')]
    for conv in convs:
        nm = '-'.join(conv)
        for rows, form in ((1, 'vector'), (2, 'rows'), (3, 'vector')) if conv == I3 or full else ((2, 'vector'),):
            out.append(Case(f'cell-{nm}-{rows}-{form}', cell, dict(conv=conv, rows=rows, form=form)))
        for sub in ('cap', 'res', 'cap+sub', 'sub+res', 'all') if conv == I3 or full else ('sub+res', 'cap'):
            for rows, form in ((1, 'row'), (2, 'rows')) if conv == I3 or full else ((2, 'row'),):
                out.append(Case(f'deg-{sub}-{nm}-{rows}-{form}', deg, dict(conv=conv, rows=rows, form=form, subset=sub)))
        for sub in (('none', 'cap', 'res', 'cap+sub', 'sub+res', 'all') if conv == I3 or full else ('sub+res',)):
            for rows, form in ((1, 'row'), (2, 'rows')) if conv == I3 or full else ((2, 'vector'),):
                out.append(Case(f'joint-{sub}-{nm}-{rows}-{form}', joint, dict(conv=conv, rows=rows, form=form, subset=sub)))
    for fn, sub in ((cell, 'none'), (deg, 'sub+res'), (joint, 'cap+sub')):
        n = fn.__name__
        kw = dict(subset=sub) if fn is not cell else {}
        out.append(Case(f'{n}-large', fn, dict(conv=('affine', 'affine', 'affine'), rows=2, form='vector', nv=2, aux=True, temp=True, extra=2, **kw)))
        out.append(Case(f'{n}-no-list', fn, dict(conv=('affine', 'affine', 'affine'), rows=2, form='vector', nv=0, **kw)))
        out.append(Case(f'{n}-two-steps', fn, dict(conv=('affine', 'shift', 'affine'), rows=2, form='vector', steps=2, **kw)))
        out.append(Case(f'{n}-early-predict', fn, dict(conv=('affine', 'shift', 'affine'), rows=2, form='vector', mode='predict', **kw)))
        out.append(Case(f'{n}-many-rows', fn, dict(conv=('affine', 'shift', 'affine'), rows=60, form='vector', **kw)))
        if fn is not cell:
            out.append(Case(f'{n}-no-degradation', fn, dict(conv=('affine', 'shift', 'affine'), rows=2, form='vector', deg=False, **kw)))
            out.append(Case(f'{n}-partial-degradation', fn, dict(conv=('affine', 'shift', 'affine'), rows=2, form='vector', only=('res',), **kw)))
            out.append(Case(f'{n}-default-names', fn, dict(conv=('affine', 'shift', 'affine'), rows=2, form='vector', given=False, subset='sub+res')))
    return out
