from symx.harness import Case
from .cells import *
from .c26 import INDEX
import pandas as pd
from battdat.data import CellDataset
from moirae.estimators.offline.loss import MeanSquaredLoss, BaseLoss

BOUNDS = ('1 to 5, 10 and 70 records (thorough: 30) with any of 5 row indices, with and without temperatures and other columns; 1 to 4 transients, 0 to 4 estimated health '
          'parameters (scalars, lists, nested) out of 4; 1 to 4 and 70 candidates at once; two evaluations in a row; arbitrary cell model; the circuit model with 2 records')
ASSUMPTIONS = ['the cell model is a function of its arguments (uninterpreted)', 'reading of records is right (C27)']


def observations(cx, n, index='range', temps=None, extra=False):
    cols = {'cycle_number': [1] * n} if extra else {}
    for c in ('current', 'voltage', 'test_time'):
        cols[c] = cx.reals('d.' + c, n, 0 if c == 'test_time' else -5, 1000 if c == 'test_time' else 5)
    if temps:
        cols['temperature'] = cx.arr([cx.real(f'd.temp{k}', -20, 60) if temps[k] else 0. for k in range(n)])
        for k, t in enumerate(temps):
            if not t:
                cols['temperature'][k] = float('nan')
    df = pd.DataFrame(cols, index=INDEX[index](n))
    rec = [(cols['test_time'][k], cols['current'][k], cols['temperature'][k] if temps and temps[k] else cx.const(25), cols['voltage'][k]) for k in range(n)]
    return CellDataset(raw_data=df), df, rec


def guess(cx, subset, nv=1, aux=False):
    names = tuple(n for n in HEALTH if n in SUBSETS[subset])
    h, x = health(cx, names), trans(cx, nv, aux)
    return names, h, x


def decode(h, x, names, vec):
    """The containers a candidate vector stands for, field by field."""
    h, x = h.model_copy(deep=True), x.model_copy(deep=True)
    at = 0
    for m, want in ((x, None), (h, names)):
        for p, o, f, v in list(walk(m)):
            if want is None or p in want:
                w = v.shape[1]
                setattr(o, f, np.array([list(vec[at:at + w])], dtype=object if any(not isinstance(e, float) for e in vec) else float))
                at += w
    assert at == len(vec)
    return h, x


def misfit(cx, cell, h, x, rec):
    total = cx.const(0)
    prev = None
    for t, i, T, v in rec:
        u = ECMInput(time=t, current=i, temperature=T)
        if prev is not None:
            x = cell.update_transient_state(previous_inputs=prev, new_inputs=u, transient_state=x, asoh=h)
        y = cell.calculate_terminal_voltage(new_inputs=u, transient_state=x, asoh=h)
        d = np.asarray(y.terminal_voltage).reshape(-1)[0] - v
        total = total + d * d
        prev = u
    return total / len(rec)


def same_data(cx, label, df, kept):
    cx.true(label + ': shape', list(df.columns) == list(kept.columns) and list(df.index) == list(kept.index))
    for c in ('voltage', 'current', 'test_time'):
        cx.eq(f'{label}: {c}', np.array(df[c], dtype=object), np.array(kept[c], dtype=object))


def loss(cx, n, B, subset, index='range', temps=None, extra=False, twice=False, nv=1, aux=False):
    names, h, x = guess(cx, subset, nv, aux)
    ds, df, rec = observations(cx, n, index, temps, extra)
    kept = df.copy(deep=True)
    snaps = snapshot(h), snapshot(x)
    L = MeanSquaredLoss(cell_model=UFCell(cx), asoh=h, transient_state=x, observations=ds)
    dim = width(x) + sum(HEALTH[k] for k in names)
    h0, x0 = h.model_copy(deep=True), x.model_copy(deep=True)
    ref = UFCell(cx)
    start = [z for v in snaps[1].values() for z in v[0]] + [z for k in names for z in snaps[0][k][0]]
    cx.eq('start vector', L.get_x0(), start)
    for k in range(2 if twice else 1):
        X = cx.reals(f'c{k}', (B, dim), -5, 5)
        given = copy(X)
        y = L(X)
        cx.shape(f'loss {k}', y, (B,))
        for b in range(B):
            cx.eq(f'loss {k} of candidate {b}', y[b], misfit(cx, ref, *decode(h0, x0, names, list(given[b])), rec))
        cx.eq(f'candidates {k}', X, given)
    cx.eq('loss at the start', L(L.get_x0()[None, :])[0], misfit(cx, ref, h0, x0, rec))
    again = L.get_x0()
    cx.eq('start vector later', again, start)
    scribble(again)
    cx.eq('start vector read again', L.get_x0(), start)
    for nm, m, s in (('health', h, snaps[0]), ('state', x, snaps[1]), ('health of the loss', L.asoh, snaps[0]), ('state of the loss', L.state, snaps[1])):
        unchanged(cx, nm, m, s)
    same_data(cx, 'data', df, kept)
    same_data(cx, 'data of the loss', L.observations.raw_data, kept)
    # the guess is not the loss's own
    for _, v in values(h) + values(x):
        scribble(v)
    cx.eq('start vector after the guess changed', L.get_x0(), start)


def circuit(cx):
    from .common import build_asoh, build_state
    from moirae.models.ecm import EquivalentCircuitModel
    a = build_asoh(cx, rc=0)
    a.mark_updatable('r0.base_values')
    x = build_state(cx)
    ds, df, rec = observations(cx, 1)
    L = MeanSquaredLoss(cell_model=EquivalentCircuitModel(), asoh=a, transient_state=x, observations=ds)
    X = cx.reals('c', (2, 3), 0.05, 0.5)
    y = L(X)
    for b in range(2):
        soc, hyst, r0 = X[b]
        t, i, T, v = rec[0]
        ocv = a.ocv.ocv_ref.base_values
        q = ocv[0][0] + (ocv[0][1] - ocv[0][0]) * soc
        e = q + i * r0 + hyst - v
        cx.eq(f'candidate {b}', y[b], e * e)


def cases(tier):
    out = []

    def add(name, **p):
        out.append(Case(name, loss, p, limit=100))
    for sub in SUBSETS:
        add(f'parameters-{sub}', n=2, B=2, subset=sub)
    for B in (1, 2, 3):
        for n in (1, 2, 3):
            add(f'{n}-records-{B}-candidates', n=n, B=B, subset='cap')
    for ix in INDEX:
        add(f'index-{ix}', n=3, B=1, subset='cap', index=ix, extra=ix == 'words')
    add('temperatures', n=3, B=2, subset='none', temps=(1, 0, 1))
    add('twice', n=2, B=2, subset='cap+sub', twice=True)
    add('states', n=2, B=2, subset='sub+res', nv=2, aux=True)
    add('no-rc', n=2, B=1, subset='none', nv=0)
    out.append(Case('circuit', circuit))
    for B in (1, 2, 3, 4):
        add(f'4-records-{B}-candidates', n=4, B=B, subset='cap+sub')
    add('four-candidates', n=2, B=4, subset='sub+res')
    add('large', n=5, B=3, subset='all', nv=2, aux=True, temps=(1, 1, 0, 1, 0))
    add('ten-records', n=10, B=2, subset='cap')
    add('seventy-records', n=70, B=1, subset='none')
    add('seventy-candidates', n=1, B=70, subset='cap')
    if tier == 'thorough':
        add('thirty-records', n=30, B=2, subset='cap')
    return out
