from symx.harness import Case
from .cells import *
from .c24 import build, reference
from moirae.simulator import Simulator

BOUNDS = ('0 to 3 and 12 steps (thorough: 5 with batches of 3); batches of 1 to 4 and 20 in inputs, states, health or several of them (also only from some step on); 1 to 4 transients, 0 to 2 '
          'extra outputs; with and without temperature; arbitrary cell and degradation model')
ASSUMPTIONS = ['cell and degradation models are functions of the values of their arguments (uninterpreted)',
               'pandas and the battery data toolkit are part of the code that is run, not modelled']


def names_of(m):
    out = []
    for p, v in values(m):
        if v.shape[1] == 1:
            out.append(p)
        else:
            out += [f'{p}[{i}]' for i in range(v.shape[1])]
    return out


def simulate(cx, steps, nb, batch, extra, late, mode, **kw):
    h, x, us = build(cx, steps=steps, nb=nb, batch=batch, **kw)
    if late:      # the inputs carry a batch from this step on
        for k in range(late, steps + 1):
            us[k] = ECMInput(time=us[k].time, current=cx.reals(f'w{k}.current', (nb,), -5, 5), **({'temperature': us[k].temperature} if kw.get('temp') else {}))
    ref = reference(cx, h, x, us, extra)
    sim = Simulator(cell_model=UFCell(cx, extra=extra), degradation_model=UFDegradation(cx), asoh=h, transient_state=x, initial_input=us[0], keep_history=True)
    if mode == 'evolve':
        sim.evolve(us[1:])
    else:
        for u in us[1:]:
            sim.step(u)
    return sim, ref


def rows_of(ref, b):
    """What the table has to say about a member: per step, name and value."""
    out = []
    for u, x, _, y in ref:
        out.append([(n, v) for m in (u, x, y) for n, v in zip(names_of(m), flat(m, b))])
    return out


def check_rows(cx, label, df, want, rename={}):
    cx.true(f'{label}: one row per step', len(df) == len(want), f'{len(df)}')
    names = [rename.get(n, n) for n, _ in want[0]]
    cx.true(f'{label}: columns', [c for c in df.columns if c != 'batch'] == names, str(list(df.columns)))
    for k, row in enumerate(want):
        for j, (n, v) in enumerate(row):
            cx.eq(f'{label}: step {k}: {n}', df[names[j]].iloc[k], v)


def table(cx, steps=2, nb=2, batch=(), extra=0, late=0, mode='step', **kw):
    sim, ref = simulate(cx, steps, nb, batch, extra, late, mode, **kw)
    B = nb if batch or late else 1
    df = sim.to_dataframe()
    cx.true('a row for every member and step', len(df) == B * (steps + 1))
    cx.true('members', sorted(set(df['batch'])) == list(range(B)), str(sorted(set(df['batch']))))
    for b in range(B):
        check_rows(cx, f'member {b}', df[df['batch'] == b], rows_of(ref, b))
    ren = {'time': 'test_time', 'terminal_voltage': 'voltage'}
    for extra_columns in (False, True):
        ds = sim.to_batdata(extra_columns=extra_columns)
        cx.true('a dataset per member', len(ds) == B)
        for b, d in enumerate(ds):
            raw = d.raw_data
            cx.true('no member column', 'batch' not in raw.columns)
            check_rows(cx, f'dataset {b}', raw, rows_of(ref, b), ren)
    again = sim.to_dataframe()
    cx.true('same table again', list(again.columns) == list(df.columns) and len(again) == len(df))
    for b in range(B):
        check_rows(cx, f'again: member {b}', again[again['batch'] == b], rows_of(ref, b))


def refused(cx):
    h, x, us = build(cx, steps=1)
    sim = Simulator(cell_model=UFCell(cx), asoh=h, transient_state=x, initial_input=us[0], keep_history=False)
    sim.step(us[1])
    cx.raises('without history', ValueError, sim.to_dataframe)
    cx.raises('without history', ValueError, sim.to_batdata)


def cases(tier):
    out = []

    def add(name, **p):
        out.append(Case(name, table, p, limit=100))
    add('single', steps=2)
    add('single-start', steps=0)
    add('single-names', steps=1, nv=3, aux=True, temp=True, extra=2)
    add('single-no-rc', steps=1, nv=0, extra=1)
    for b in ('h', 'x', 'u', 'hx', 'hu', 'xu', 'hxu'):
        add(f'batch-{b}', steps=2, nb=2, batch=tuple(b), mode='evolve' if len(b) > 1 else 'step')
    add('batch-start', steps=0, batch=('h',))
    add('batch-3', steps=1, nb=3, batch=('h',), nv=2)
    add('batch-3-steps', steps=3, nb=3, batch=('x',), extra=1)
    add('batch-2-steps-3', steps=3, nb=2, batch=('u',), temp=True)
    for n in (0, 1, 2, 3):      # as many records as members, fewer, more
        for nb in (2, 3, 4):
            add(f'size-{n}-{nb}', steps=n, nb=nb, batch=(('h', 'x', 'u')[(n + nb) % 3],), nv=2, mode='evolve' if n % 2 else 'step')
    add('late', steps=2, nb=2, late=1)
    add('later', steps=3, nb=2, late=2, temp=True)
    add('twelve', steps=12, nb=2, batch=('h',), temp=True)
    add('many', steps=1, nb=20, batch=('x',))
    out.append(Case('refused', refused))
    if tier == 'thorough':
        add('large', steps=5, nb=3, batch=('h',), nv=3, aux=True, extra=2, temp=True)
        add('large-late', steps=5, nb=3, late=3, nv=2, extra=1)
    return out
