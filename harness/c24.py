from symx.harness import Case
from .cells import *
from moirae.simulator import Simulator
from moirae.models.utils import NoDegradation

BOUNDS = ('1 to 5, 8 and 12 steps (thorough: 30); 1 to 4 transients, 4 health parameters (scalars, lists, nested), 0 to 2 extra outputs; batches of 1 to 4 in inputs, states '
          'or health; with and without history; step by step, all at once and mixed; arbitrary cell and degradation model, also ones which change or return '
          'their arguments; the circuit model of the package with 1 RC element for one step')
ASSUMPTIONS = ['cell and degradation models are functions of the values of their arguments (uninterpreted)']
HIST = 'input', 'transient', 'asoh', 'measurement'


class InPlace(UFDegradation):
    """Degrades the object it is given and returns it."""
    def update_asoh(self, previous_asoh, new_inputs, new_transients, new_measurements):
        out = super().update_asoh(previous_asoh, new_inputs, new_transients, new_measurements)
        for (_, o, f, _), (_, p, _, _) in zip(list(walk(previous_asoh)), list(walk(out))):
            setattr(o, f, getattr(p, f))
        return previous_asoh


class Own(UFDegradation):
    """Returns the same object of its own every time, overwritten."""
    def update_asoh(self, *a, **kw):
        out = super().update_asoh(*a, **kw)
        old = getattr(self, '_own', None)
        if old is None:
            self._own = out
        else:
            for (_, o, f, _), (_, p, _, _) in zip(list(walk(old)), list(walk(out))):
                if o is not None:
                    setattr(o, f, getattr(p, f))
        return self._own


class Buffered(UFCell):
    """Returns the same two objects every time, overwritten."""
    def keep(self, name, new):
        old = getattr(self, name, None)
        if old is None:
            setattr(self, name, new)
            return new
        for (_, o, f, _), (_, p, _, _) in zip(list(walk(old)), list(walk(new))):
            setattr(o, f, getattr(p, f))
        return old

    def update_transient_state(self, **kw):
        return self.keep('_t', super().update_transient_state(**kw))

    def calculate_terminal_voltage(self, **kw):
        return self.keep('_m', super().calculate_terminal_voltage(**kw))


def same(cx, label, m, ref):
    """m holds the values of the container ref."""
    cx.true(f'{label}: fields', [p for p, _ in values(m)] == [p for p, _ in values(ref)])
    for (p, v), (_, r) in zip(values(m), values(ref)):
        cx.eq(f'{label}.{p}', v, r)


def build(cx, nv=1, aux=False, batch=(), nb=2, temp=False, steps=2):
    b = lambda k: nb if k in batch else 0
    h = health(cx, nb=b('h'))
    x = trans(cx, nv, aux, nb=b('x'))
    us = []
    for k in range(steps + 1):
        kw = {'temperature': scal(cx, f'u{k}.temp', -20, 60, b('u'))} if temp else {}
        us.append(ECMInput(time=scal(cx, f'u{k}.time', 0, 100, b('u')), current=scal(cx, f'u{k}.current', -5, 5, b('u')), **kw))
    return h, x, us


def models(cx, cls=UFCell, extra=0, degrade=True):
    return cls(cx, extra=extra), (degrade(cx) if degrade else None)


def reference(cx, h, x, us, extra=0, degrade=True):
    """States, healths and outputs of iterating the models, on copies."""
    cell, deg = UFCell(cx, extra=extra), UFDegradation(cx)
    c = lambda m: m.model_copy(deep=True)
    h, x, us = c(h), c(x), [c(u) for u in us]
    out = [(us[0], x, h, cell.calculate_terminal_voltage(new_inputs=us[0], transient_state=x, asoh=h))]
    for k in range(1, len(us)):
        x = cell.update_transient_state(previous_inputs=us[k - 1], new_inputs=us[k], transient_state=x, asoh=h)
        y = cell.calculate_terminal_voltage(new_inputs=us[k], transient_state=x, asoh=h)
        if degrade:
            h = deg.update_asoh(h, us[k], x, y)
        out.append((us[k], x, h, y))
    return out


def current(cx, label, sim, ref):
    same(cx, f'{label}: previous input', sim.previous_input, ref[0])
    same(cx, f'{label}: state', sim.transient, ref[1])
    same(cx, f'{label}: health', sim.asoh, ref[2])
    same(cx, f'{label}: output', sim.measurement, ref[3])


def history(cx, sim, ref):
    for j, n in enumerate(HIST):
        l = getattr(sim, n + '_history')
        cx.true(f'{n} history: one entry per step', len(l) == len(ref), f'{len(l)}')
        for k, r in enumerate(ref):
            same(cx, f'{n} history {k}', l[k], r[j])


def run(cx, steps=2, keep=True, mode='step', cls=UFCell, deg=UFDegradation, extra=0, **kw):
    h, x, us = build(cx, steps=steps, **kw)
    ref = reference(cx, h, x, us, extra, bool(deg))
    snaps = [snapshot(m) for m in [h, x] + us]
    cell, d = models(cx, cls, extra, deg)
    extra_kw = {'degradation_model': d} if d is not None else {}
    sim = Simulator(cell_model=cell, asoh=h, transient_state=x, initial_input=us[0], keep_history=keep, **extra_kw)
    current(cx, 'start', sim, ref[0])
    if mode == 'step':
        for k in range(1, steps + 1):
            ret = sim.step(us[k])
            same(cx, f'step {k} returns state', ret[0], ref[k][1])
            same(cx, f'step {k} returns output', ret[1], ref[k][3])
            current(cx, f'after step {k}', sim, ref[k])
    else:
        if mode == 'mixed':
            sim.step(us[1])
        first = 2 if mode == 'mixed' else 1
        outs = sim.evolve(us[first:])
        cx.true('evolve: an output per input', len(outs) == steps + 1 - first)
        if cls is UFCell:
            for k, o in enumerate(outs):
                same(cx, f'evolve: output {k}', o, ref[first + k][3])
        current(cx, 'after evolve', sim, ref[-1])
    if keep:
        history(cx, sim, ref)
    for n, m, s in zip(['health', 'state'] + [f'input {k}' for k in range(steps + 1)], [h, x] + us, snaps):
        unchanged(cx, f'argument {n}', m, s)


def spoil(m):
    for _, _, _, v in list(walk(m)):
        scribble(v)


def isolation(cx, steps=2, keep=True, returned=True, deg=UFDegradation, **kw):
    """Objects passed in (and those returned) are overwritten as soon as they have been used."""
    h, x, us = build(cx, steps=steps, **kw)
    ref = reference(cx, h, x, us, 0, bool(deg))
    cell, d = models(cx, UFCell, 0, deg)
    extra_kw = {'degradation_model': d} if d is not None else {}
    sim = Simulator(cell_model=cell, asoh=h, transient_state=x, initial_input=us[0], keep_history=keep, **extra_kw)
    for m in (h, x, us[0]):
        spoil(m)
    current(cx, 'start', sim, ref[0])
    for k in range(1, steps + 1):
        ret = sim.step(us[k])
        spoil(us[k])
        if returned:
            for m in ret:
                spoil(m)
        current(cx, f'after step {k}', sim, ref[k])
    if keep:
        history(cx, sim, ref)


def circuit(cx):
    """The circuit model itself, against its own results when called by hand."""
    from .common import build_asoh, build_state
    from moirae.models.ecm import EquivalentCircuitModel
    a = build_asoh(cx, rc=1)
    a.mark_updatable('r0.base_values')
    x = build_state(cx, rc=1)
    us = [ECMInput(time=cx.const(0), current=cx.real('c0', 0.1, 5)), ECMInput(time=cx.real('t1', 0.1, 50), current=cx.real('c1', 0.1, 5))]
    m = EquivalentCircuitModel()
    sim = Simulator(cell_model=m, asoh=a, transient_state=x, initial_input=us[0], keep_history=True)
    y0 = m.calculate_terminal_voltage(new_inputs=us[0], transient_state=x, asoh=a)
    x1 = m.update_transient_state(previous_inputs=us[0], new_inputs=us[1], transient_state=x, asoh=a)
    y1 = m.calculate_terminal_voltage(new_inputs=us[1], transient_state=x1, asoh=a)
    same(cx, 'first output', sim.measurement, y0)
    ret = sim.step(us[1])
    same(cx, 'state', ret[0], x1)
    same(cx, 'output', ret[1], y1)
    same(cx, 'health', sim.asoh, a)


def cases(tier):
    out = []

    def add(name, fn, **p):
        out.append(Case(name, fn, p, limit=60))
    for mode in ('step', 'evolve', 'mixed'):
        for keep in (True, False):
            add(f'{mode}-{"kept" if keep else "not"}', run, steps=3 if mode == 'evolve' else 2, keep=keep, mode=mode, nv=1)
    add('one-step', run, steps=1, nv=2, aux=True, extra=2, temp=True)
    add('three-steps', run, steps=3, nv=2, temp=True)
    add('no-rc', run, steps=2, nv=0, extra=1)
    for b in ('h', 'x', 'u', 'hx', 'hxu'):
        add(f'batch-{b}', run, steps=2, batch=tuple(b), nb=3 if b == 'h' else 2, nv=1)
    add('no-degradation', run, steps=3, deg=None)
    add('no-degradation-batch', run, steps=2, deg=None, batch=('h',), mode='evolve')
    add('degradation-in-place', run, steps=2, deg=InPlace)
    add('degradation-in-place-kept', run, steps=3, deg=InPlace, mode='evolve')
    for keep in (True, False):
        for mode in ('step', 'evolve', 'mixed'):
            add(f'degradation-own-object-{mode}-{int(keep)}', run, steps=3, deg=Own, keep=keep, mode=mode)
            for b in ('h', 'x', 'u', 'hxu'):
                if not keep:
                    add(f'batch-{b}-{mode}-not', run, steps=2, batch=tuple(b), nb=2, keep=False, mode=mode)
        add(f'isolation-own-object-{int(keep)}', isolation, steps=3, deg=Own, keep=keep)
        for ret in (True, False):
            add(f'isolation-{"kept" if keep else "not"}-{"returned" if ret else "passed"}', isolation, steps=2, keep=keep, returned=ret)
    add('isolation-no-degradation', isolation, steps=2, deg=None)
    add('isolation-in-place', isolation, steps=2, deg=InPlace, batch=('h',))
    add('buffered', run, steps=2, cls=Buffered)
    add('buffered-evolve', run, steps=3, cls=Buffered, mode='evolve', deg=InPlace)
    add('circuit', circuit)
    add('five-steps', run, steps=5, nv=3, aux=True, temp=True, extra=2)
    add('five-evolve', run, steps=5, mode='evolve', batch=('h', 'x'), nb=3)
    add('five-isolation', isolation, steps=5, batch=('x',), nb=3)
    add('twelve-steps', run, steps=12)
    add('twelve-evolve', run, steps=12, mode='evolve', keep=False)
    add('eight-mixed', run, steps=8, mode='mixed', batch=('u',), nb=4)
    for n in (1, 2, 3, 4):      # as many steps as members
        add(f'square-{n}', run, steps=n, batch=(('x', 'h', 'u', 'hx')[n - 1],) if n < 4 else ('h', 'x'), nb=max(n, 2), nv=n)
    if tier == 'thorough':
        add('thirty-steps', run, steps=30, batch=('h',), nb=4)
        add('thirty-isolation', isolation, steps=30)
    return out
