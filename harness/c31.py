from symx.harness import Case
from .cells import *
from .c24 import build, same
from .demo import build_top, all_paths, at
from . import c20
from moirae.simulator import Simulator
from moirae.models.utils import NoDegradation

BOUNDS = ('1 to 5 and 9 simulation steps (thorough: 30), step by step and all at once, with and without history, batches of 2 in health, states or inputs; degradation '
          'models that remember how often they were called, or change the health they are given in place; the estimator wrappers with 1 to 3 rows; containers with '
          'every kind of member (lists, nested, sequences, tables) and the circuit parameters with 2 RC elements')
ASSUMPTIONS = ['cell and degradation models are functions of the values of their arguments and, for the latter, of how often they were called (uninterpreted)']


class Remembering(UFDegradation):
    """Also depends on the number of times it acted."""
    def d(self, path, j, args):
        return self.cx.uf(f'd.{path}.{j}', [args + [self.cx.const(self.calls)]])


class InPlace(Remembering):
    def update_asoh(self, previous_asoh, new_inputs, new_transients, new_measurements):
        out = super().update_asoh(previous_asoh, new_inputs, new_transients, new_measurements)
        for (_, o, f, _), (_, p, _, _) in zip(list(walk(previous_asoh)), list(walk(out))):
            setattr(o, f, getattr(p, f))
        return previous_asoh


def simulate(cx, steps, how, cls=Remembering, keep=True, only=None, **kw):
    h, x, us = build(cx, steps=steps, **kw)
    cell, ref = UFCell(cx), Remembering(cx, only=only)
    given = snapshot(h)
    deg = cls(cx, only=only)
    # by hand
    c = lambda m: m.model_copy(deep=True)
    hs, xk, prev = [c(h)], c(x), us[0]
    for k in range(1, steps + 1):
        xk = cell.update_transient_state(previous_inputs=prev, new_inputs=us[k], transient_state=xk, asoh=hs[-1])
        y = cell.calculate_terminal_voltage(new_inputs=us[k], transient_state=xk, asoh=hs[-1])
        hs.append(ref.update_asoh(hs[-1], us[k], xk, y))
        prev = us[k]
    sim = Simulator(cell_model=UFCell(cx), asoh=h, transient_state=x, initial_input=us[0], degradation_model=deg, keep_history=keep)
    cx.true('none at the start', deg.calls == 0)
    same(cx, 'start', sim.asoh, hs[0])
    if how == 'step':
        for k in range(1, steps + 1):
            sim.step(us[k])
            cx.true(f'step {k}: once', deg.calls == k, str(deg.calls))
            same(cx, f'after step {k}', sim.asoh, hs[k])
    else:
        sim.evolve(us[1:])
        cx.true('once per step', deg.calls == steps, str(deg.calls))
        same(cx, 'at the end', sim.asoh, hs[-1])
    same(cx, 'state', sim.transient, xk)
    if keep:
        cx.true('health history: length', len(sim.asoh_history) == steps + 1)
        for k, r in enumerate(hs):
            same(cx, f'health history {k}', sim.asoh_history[k], r)
    unchanged(cx, 'health given', h, given)


def constant(cx, steps, how, keep=True, explicit=False, **kw):
    """Without degradation."""
    h, x, us = build(cx, steps=steps, **kw)
    given = snapshot(h)
    extra = {'degradation_model': NoDegradation()} if explicit else {}
    sim = Simulator(cell_model=UFCell(cx), asoh=h, transient_state=x, initial_input=us[0], keep_history=keep, **extra)
    before = sim.asoh
    if how == 'step':
        for k in range(1, steps + 1):
            sim.step(us[k])
            unchanged(cx, f'after step {k}', sim.asoh, given)
    else:
        sim.evolve(us[1:])
        unchanged(cx, 'at the end', sim.asoh, given)
    cx.true('updatable', set(sim.asoh.updatable_names) == set(h.updatable_names))
    if keep:
        cx.true('health history: length', len(sim.asoh_history) == steps + 1)
        for k in range(steps + 1):
            unchanged(cx, f'health history {k}', sim.asoh_history[k], given)
        # each entry stands for itself
        for k in range(steps + 1):
            for _, v in values(sim.asoh_history[k]):
                scribble(v)
            for j in range(k + 1, steps + 1):
                unchanged(cx, f'health history {j} after {k} changed', sim.asoh_history[j], given)
        unchanged(cx, 'health after the history changed', sim.asoh, given)
    for _, v in values(before):
        scribble(v)
    if steps:
        unchanged(cx, 'health after an earlier one changed', sim.asoh, given)
    unchanged(cx, 'health given', h, given)


def copies(cx, kind, batch=(), steps=2):
    """NoDegradation itself, on every kind of container."""
    if kind == 'top':
        m = build_top(cx, batch)
        m.mark_updatable('mid.leaf.x')
        m.mark_updatable('seq.1.y')
    else:
        from .common import build_asoh
        m = build_asoh(cx, rc=2, c0=True, ent=True, batch=batch, temp_factor=True)
        m.mark_updatable('r0.base_values')
        m.mark_updatable('rc_elements.1.r.base_values')
    given = snapshot(m)
    names = m.updatable_names
    d = NoDegradation()
    u = ECMInput(time=cx.real('time', 0, 100), current=cx.real('current', -5, 5))
    outs, last = [], m
    for k in range(steps):
        last = d.update_asoh(last, u, trans(cx, pre=f'x{k}.'), Out(terminal_voltage=cx.real(f'v{k}', 0, 5))) if k % 2 == 0 else d.update_asoh(previous_asoh=last)
        outs.append(last)
        unchanged(cx, f'copy {k}', last, given)
        cx.true(f'copy {k}: type', type(last) is type(m))
        cx.true(f'copy {k}: updatable', list(last.updatable_names) == list(names), str(last.updatable_names))
    for k, o in enumerate(outs):
        for _, _, _, v in list(walk(o)):
            scribble(v)
        o.mark_all_updatable()
        for j, p in [(-1, m)] + list(enumerate(outs))[k + 1:]:
            unchanged(cx, f'{j} after {k} changed', p, given)
            cx.true(f'{j}: updatable after {k} changed', list(p.updatable_names) == list(names))


def in_place(cx, rows):
    """A model that changes what it is given does not change the wrapper."""
    s = c20.Setup(cx, 'deg', 'cap+sub', ('affine', 'shift', 'affine'))
    s.deg = InPlace(cx)
    w = c20.DegradationModelWrapper(s.cell, s.h, s.x, s.i, asoh_inputs=s.names, degradation_model=s.deg, converters=s.conv)
    for t in range(2):
        h, u0, u1 = s.hidden(rows, f's{t}'), s.control(f'p{t}', rows, 'row'), s.control(f'n{t}', rows, 'row')
        got = w.update_hidden_states(hidden_states=h, previous_controls=u0, new_controls=u1)
        x, ph = s.x0(), s.phys(0, h)
        want = []
        for r in range(rows):
            a, u = s.asoh(list(ph[r])), s.u(u1, r)
            args = a + u + x + s.g(u, x, a)
            vals = {p: [cx.uf(f'd.{p}.{j}', [args + [cx.const(t + 1)]]) for j in range(HEALTH[p])] for p in HEALTH}
            want.append([z for n in s.names for z in vals[n]])
        c20.compare(cx, f'update {t}', got, s.back(0, want), rows)
        s.untouched(f'update {t}')


def cases(tier):
    out = []

    def add(name, fn, **p):
        out.append(Case(name, fn, p, limit=100))
    for how in ('step', 'evolve'):
        for steps in (1, 2, 3):
            add(f'simulate-{steps}-{how}', simulate, steps=steps, how=how)
        add(f'simulate-in-place-{how}', simulate, steps=3, how=how, cls=InPlace)
        add(f'simulate-no-history-{how}', simulate, steps=2, how=how, keep=False)
        add(f'partial-{how}', simulate, steps=2, how=how, only=('res',))
        for e in (False, True):
            add(f'constant-{how}-{"given" if e else "default"}', constant, steps=3, how=how, explicit=e)
        add(f'constant-no-history-{how}', constant, steps=2, how=how, keep=False)
    for b in ('h', 'x', 'u', 'hxu'):
        add(f'simulate-batch-{b}', simulate, steps=2, how='step', batch=tuple(b), temp=b == 'u')
    add('constant-batch', constant, steps=2, how='step', batch=('h',), nb=3)
    add('copies-top', copies, kind='top')
    add('copies-top-batch', copies, kind='top', batch=('mid.leaf.x', 'tab.one.y', 'a'), steps=3)
    add('copies-circuit', copies, kind='circuit')
    add('copies-circuit-batch', copies, kind='circuit', batch=('r0', 'q_t'))
    conv = ('affine', 'shift', 'affine')
    for rows in (1, 2, 3):
        add(f'wrapper-{rows}', c20.deg, conv=conv, rows=rows, form='vector', subset='cap+sub', steps=2)
        add(f'wrapper-constant-{rows}', c20.deg, conv=conv, rows=rows, form='row', subset='sub+res', deg=False, steps=2)
        add(f'wrapper-in-place-{rows}', in_place, rows=rows)
    add('wrapper-partial', c20.deg, conv=conv, rows=2, form='rows', subset='all', only=('res',))
    add('joint', c20.joint, conv=conv, rows=2, form='vector', subset='cap+sub', steps=2)
    for sub in ('sub+res', 'all'):
        add(f'wrapper-{sub}', c20.deg, conv=conv, rows=2, form='rows', subset=sub, steps=2)
        add(f'joint-{sub}', c20.joint, conv=conv, rows=2, form='rows', subset=sub, steps=2)
        add(f'joint-constant-{sub}', c20.joint, conv=conv, rows=1, form='row', subset=sub, deg=False, steps=1)
    add('joint-partial', c20.joint, conv=conv, rows=2, form='rows', subset='sub+res', only=('res',))
    add('joint-constant', c20.joint, conv=conv, rows=2, form='row', subset='cap+sub', deg=False, steps=2)
    add('simulate-5', simulate, steps=5, how='step', nv=3, aux=True, temp=True)
    add('simulate-5-batch', simulate, steps=5, how='evolve', batch=('h', 'x'), cls=InPlace)
    add('simulate-9', simulate, steps=9, how='step')
    add('simulate-9-evolve', simulate, steps=9, how='evolve', keep=False)
    add('constant-9', constant, steps=9, how='step', explicit=True)
    if tier == 'thorough':
        add('simulate-30', simulate, steps=30, how='evolve')
    return out
