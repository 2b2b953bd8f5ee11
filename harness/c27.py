from symx.harness import Case
from .cells import *
import math
import pandas as pd
from moirae.interface import row_to_inputs

BOUNDS = ('times -1e5..1e9 s, currents and voltages up to 1e4, temperatures -400..2000; temperature present, absent, NaN or infinite; the documented default, a given one by name and by '
          'position; records as series and mappings, columns in any of 4 orders, with and without other columns; two records in a row')
ASSUMPTIONS = ['pandas is part of the code that is run']

COLUMNS = {'plain': ['test_time', 'current', 'voltage', 'temperature'], 'reversed': ['temperature', 'voltage', 'current', 'test_time'],
           'mixed': ['voltage', 'test_time', 'cycle_number', 'temperature', 'current', 'step_index'],
           'many': ['cycle_number', 'time', 'current', 'state', 'test_time', 'terminal_voltage', 'voltage', 'temperature', 'internal_resistance']}


def record(cx, kind, temp, k, as_type):
    vals = {}
    for j, c in enumerate(COLUMNS[kind]):
        if c == 'temperature':
            if temp == 'absent':
                continue
            vals[c] = cx.real(f'r{k}.temperature', -400, 2000) if temp == 'present' else float(temp)
        elif c == 'cycle_number':
            vals[c] = 3
        elif c == 'state':
            vals[c] = 'charging'
        else:
            vals[c] = cx.real(f'r{k}.{c}', -1e4, 1e4) if c != 'test_time' else cx.real(f'r{k}.{c}', -1e5, 1e9)
    return (pd.Series(vals, dtype=object if cx.symbolic or 'state' in vals else None) if as_type == 'series' else vals), dict(vals)


def check(cx, label, row, vals, temp, default, how):
    if how == 'none':
        u, y = row_to_inputs(row)
    elif how == 'name':
        u, y = row_to_inputs(row, default_temperature=default)
    else:
        u, y = row_to_inputs(row, default)
    want = {'time': vals['test_time'], 'current': vals['current'], 'temperature': vals['temperature'] if temp == 'present' else default}
    got = dict(values(u))
    cx.true(label + 'inputs', list(u.all_names) == ['time', 'current', 'temperature'] and set(got) == set(want), f'{list(got)}')
    for n, v in want.items():
        cx.eq(f'{label}{n}', got[n], [[v]])
    got = dict(values(y))
    cx.true(label + 'outputs', list(got) == ['terminal_voltage'], f'{list(got)}')
    cx.eq(label + 'voltage', got['terminal_voltage'], [[vals['voltage']]])
    cx.eq(label + 'all inputs', u.to_numpy(), [[want['time'], want['current'], want['temperature']]])
    cx.eq(label + 'all outputs', y.to_numpy(), [[vals['voltage']]])
    now = dict(row.items())
    cx.true(label + 'record: columns', list(now) == list(vals))
    for n, v in vals.items():
        if isinstance(v, (str, int)):
            cx.true(f'{label}record: {n}', now[n] == v)
        elif isinstance(v, float) and not math.isfinite(v):
            cx.true(f'{label}record: {n}', isinstance(now[n], float) and (now[n] == v or (now[n] != now[n] and v != v)))
        else:
            cx.eq(f'{label}record: {n}', now[n], v)
    return u, y


def convert(cx, kind, temp, how, as_type, second=None):
    cx.exactly()
    default = cx.const(25) if how == 'none' else cx.real('default', -400, 2000)
    row, vals = record(cx, kind, temp, 0, as_type)
    u, y = check(cx, '', row, vals, temp, default, how)
    if second:      # neither depends on what was read before, nor is it changed by what is read later
        s = snapshot(u), snapshot(y)
        row2, vals2 = record(cx, kind, second, 1, as_type)
        u2, y2 = check(cx, 'next: ', row2, vals2, second, default, how)
        unchanged(cx, 'first inputs', u, s[0])
        unchanged(cx, 'first outputs', y, s[1])
        for _, v in values(u2) + values(y2):
            scribble(v)
        unchanged(cx, 'first inputs later', u, s[0])
        unchanged(cx, 'first outputs later', y, s[1])


def table(cx, temps):
    """Records of a table, as its iteration yields them."""
    cx.exactly()
    n = len(temps)
    cols = {c: [cx.real(f'{c}{k}', -1e4, 1e4) for k in range(n)] for c in ('test_time', 'current', 'voltage')}
    cols['temperature'] = [cx.real(f'temp{k}', -400, 2000) if t == 'present' else float(t) for k, t in enumerate(temps)]
    df = pd.DataFrame({c: np.array(v, dtype=object if cx.symbolic else float) for c, v in cols.items()})
    df['cycle_number'] = 1
    for k, (_, row) in enumerate(df.iterrows()):
        u, y = row_to_inputs(row)
        T = cols['temperature'][k] if temps[k] == 'present' else 25
        cx.eq(f'record {k}: inputs', u.to_numpy(), [[cols['test_time'][k], cols['current'][k], T]])
        cx.eq(f'record {k}: outputs', y.to_numpy(), [[cols['voltage'][k]]])


def cases(tier):
    out = []
    for temp in ('present', 'absent', 'nan', 'inf', '-inf'):
        for how in ('none', 'name', 'position'):
            for kind in (COLUMNS if tier == 'thorough' or how == 'none' else ('mixed',)):
                for t in ('series', 'mapping'):
                    out.append(Case(f'{temp}-{how}-{kind}-{t}', convert, dict(kind=kind, temp=temp, how=how, as_type=t)))
    for a, b in (('present', 'absent'), ('absent', 'present'), ('nan', 'present'), ('present', 'nan'), ('present', 'present'), ('inf', 'absent')):
        out.append(Case(f'then-{a}-{b}', convert, dict(kind='mixed', temp=a, how='name', as_type='series', second=b)))
    out.append(Case('table', table, dict(temps=('present', 'nan', 'present', 'inf'))))
    return out
