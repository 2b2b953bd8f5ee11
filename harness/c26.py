from symx.harness import Case
from .online import *
from .c21 import World, wrapped
from .c22 import wrappers
import atexit
import shutil
import tempfile
from pathlib import Path
import pandas as pd
import battdat.streaming
from battdat.data import BatteryDataset, CellDataset

BOUNDS = ('datasets of 1 to 5, 8 and 12 records (thorough: 30), as an object with any of 5 row indices or as a file, with and without temperatures and other columns; joint and '
          'dual estimators (2 to 3 transients, 0 to 3 health parameters) with converted coordinates around filters with arbitrary posteriors; table and file output '
          'on and off; two datasets in a row')
ASSUMPTIONS = ['the filters are arbitrary (C16 to C19 are about the one provided)', 'conversion of records and coordinates is right (C27, C14)',
               'what is written to files is recorded from the calls of the writer (C28 is about the writer)',
               'PyTables stores and returns floats exactly (each stands for one symbolic value in the file)']

TOKENS = {}
_records = battdat.streaming.iterate_records_from_file


def _decoded(*a, **k):
    for row in _records(*a, **k):
        yield {c: TOKENS.get(float(v), v) if isinstance(v, (float, np.floating)) else v for c, v in row.items()}


battdat.streaming.iterate_records_from_file = _decoded      # before the interface is imported
import moirae.interface as interface  # noqa: E402
from moirae.interface.hdf5 import HDF5Writer  # noqa: E402
from moirae.estimators.online.joint import JointEstimator  # noqa: E402
from moirae.estimators.online.dual import DualEstimator  # noqa: E402
interface.iterate_records_from_file = _decoded


class Noting(AnyFilter):
    spread = dict(lo=1e-3, hi=30., off=10.)

    def step(self, new_controls, measurements, **kwargs):
        self.prev = getattr(self, 'prev', []) + [copy(self.controls.get_mean())]
        return super().step(new_controls, measurements, **kwargs)


class Recorder(HDF5Writer):
    """Notes what it is told."""
    log: list = []
    open: bool = False

    def __enter__(self):
        self.log = []
        self.open = True
        return self

    def __exit__(self, *a):
        self.open = False
        self.log.append(('closed',))

    def prepare(self, estimator, expected_steps=None, expected_cycles=None):
        self.log.append(('prepare', self.open, estimator, expected_steps, expected_cycles))

    def append_step(self, time, cycle, state, output):
        self.log.append(('step', self.open, time, cycle, copy(state.get_mean()), copy(state.get_covariance()), copy(output.get_mean()),
                         copy(output.get_covariance())))


def joint(cx, conv, subset, **kw):
    w = World(cx, subset, temp=True, **kw)
    m, ops = wrapped(cx, w, conv)
    P, _ = cx.psd('P0', w.nt + w.na, diag=True)
    f = Noting(cx, m, MultivariateGaussian(mean=cx.reals('m0', w.nt + w.na, -5, 5), covariance=P), DeltaDistribution(mean=cx.reals('u0', w.nu, -5, 5)), 'j')
    return w, JointEstimator(f), [(f, ops)]


def dual(cx, conv, subset, **kw):
    w = World(cx, subset, temp=True, **kw)
    ms, ops = wrappers(cx, w, (conv, conv))
    fs = []
    for n, m, d in (('t', ms[0], w.nt), ('a', ms[1], w.na)):
        P, _ = cx.psd(f'P{n}', d, diag=True)
        fs.append(Noting(cx, m, MultivariateGaussian(mean=cx.reals(f'm{n}', d, -5, 5), covariance=P), DeltaDistribution(mean=cx.reals(f'u{n}', w.nu, -5, 5)), n))
    return w, DualEstimator(*fs), list(zip(fs, ops))


ESTIMATORS = {'joint': joint, 'dual': dual}
INDEX = {'range': lambda n: list(range(n)), 'shifted': lambda n: list(range(5, 5 + n)), 'reversed': lambda n: list(range(n))[::-1],
         'repeated': lambda n: [0] * n, 'words': lambda n: ['b', 'a', 'd', 'c', 'f', 'e'][:n]}


def dataset(cx, n, temps, index, pre, extra=False, cycles=True):
    cols = {}
    if extra:
        cols['voltage_std'] = [0.5] * n
        cols['state'] = ['charging'] * n
    for c in ('voltage', 'test_time', 'current'):
        cols[c] = cx.reals(f'{pre}{c}', n, 0 if c == 'test_time' else -5, 1000 if c == 'test_time' else 5)
    if temps is not None:
        cols['temperature'] = cx.arr([cx.real(f'{pre}temp{k}', -20, 60) for k in range(n)])
        for k, t in enumerate(temps):
            if not t:
                cols['temperature'][k] = float('nan')
    if cycles:
        cols['cycle_number'] = [k // 2 + 1 for k in range(n)]
    df = pd.DataFrame(cols, index=INDEX[index](n))
    rec = [[cols['test_time'][k], cols['current'][k], cols['temperature'][k] if temps and temps[k] else cx.const(25), cols['voltage'][k]] for k in range(n)]
    return df, rec


def in_file(cx, df, scratch):
    """The dataset as a file, in which a number of its own stands for each symbolic value."""
    df = df.reset_index(drop=True).copy()
    for c in df.columns:
        if df[c].dtype != object or c == 'state':
            continue
        out = []
        for v in df[c]:
            if cx.symbolic and not isinstance(v, (int, float)):
                t = 1000.5 + len(TOKENS)
                TOKENS[t] = v
                v = t
            out.append(float(v))
        df[c] = np.array(out, dtype=float)
    path = Path(scratch) / 'data.h5'
    CellDataset(raw_data=df).to_hdf(path)
    return path


def estimate(cx, kind='joint', conv=('affine', 'shift', 'scale'), subset='cap', n=3, temps=None, index='range', out=True, h5=False, source='object', extra=False,
             again=False, cycles=True, outs=1, **kw):
    w, est, fs = ESTIMATORS[kind](cx, conv, subset, extra=outs - 1, **kw)
    onames = ['terminal_voltage'] + (['extra'] if outs == 2 else [f'extra[{k}]' for k in range(outs - 1)])
    returned = []
    step = est.step

    def noting(*a, **k):
        r = step(*a, **k)
        returned.append([copy(x) for d in r for x in (d.get_mean(), d.get_covariance())])
        return r
    est.step = noting
    names = trans_names(w.x) + health_names(w.names)
    for run in range(2 if again else 1):
        del returned[:]
        done = [len(f.calls) for f, _ in fs]
        df, rec = dataset(cx, n, temps, index, f'd{run}.', extra, cycles)
        kept = df.copy(deep=True)
        writer = Recorder(hdf5_output='unused') if h5 else None
        scratch = tempfile.mkdtemp(prefix='c26_')
        atexit.register(shutil.rmtree, scratch, True)
        try:
            TOKENS.clear()
            src = CellDataset(raw_data=df) if source == 'object' else in_file(cx, df, scratch)
            table, est2 = interface.run_online_estimate(src if source != 'text' else str(src), est, output_states=out, hdf5_output=writer)
        finally:
            shutil.rmtree(scratch, True)
        lab = f'dataset {run}: '
        cx.true(lab + 'estimator', est2 is est)
        cx.true(lab + 'every record once', len(returned) == n, f'{len(returned)} of {n}')
        for (f, ops), d in zip(fs, done):
            cx.true(lab + 'steps of the filter', len(f.calls) == d + n, f'{len(f.calls) - d} of {n}')
            for k in range(n):
                _, cu, _, cz, _ = f.calls[d + k]
                prev = f.prev[d + k]
                cx.eq(f'{lab}record {k}: inputs', cu, to_filter(cx, ops[1], cx.arr(rec[k][:3]))[0])
                cx.eq(f'{lab}record {k}: previous inputs', prev, to_filter(cx, ops[1], cx.arr(rec[max(k - 1, 0)][:3]))[0])
                cx.eq(f'{lab}record {k}: measurement', cz, to_filter(cx, ops[2], cx.arr(rec[k][3:]))[0])
        if out:
            want = names + [s + '_std' for s in names] + onames + [s + '_std' for s in onames]
            cx.true(lab + 'columns', list(table.columns) == want, f'{list(table.columns)}')
            cx.true(lab + 'a row per record', len(table) == n, f'{len(table)}')
            for k, (m, P, y, S) in enumerate(returned):
                for cols, mean, cov in ((names, m, P), (onames, y, S)):
                    for j, c in enumerate(cols):
                        cx.eq(f'{lab}row {k}: {c}', table[c].iloc[k], mean[j])
                        s = table[c + '_std'].iloc[k]
                        cx.eq(f'{lab}row {k}: variance of {c}', s * s, cov[j, j])
                        cx.le(f'{lab}row {k}: sign of the std of {c}', cx.const(0), s)
        else:
            cx.true(lab + 'no table', table is None)
        if h5:
            log = writer.log
            cx.true(lab + 'prepared while open', log[0][:3] == ('prepare', True, est) and log[0][3] == n, str(log[0][1:]))
            cx.true(lab + 'closed at the end', log[-1] == ('closed',) and not writer.open)
            cx.true(lab + 'every record written once', [e[0] for e in log[1:-1]] == ['step'] * n, str([e[0] for e in log]))
            for k, e in enumerate(log[1:-1]):
                cx.true(f'{lab}record {k} written: open', e[1])
                cx.eq(f'{lab}record {k} written: time', e[2], rec[k][0])
                cx.true(f'{lab}record {k} written: cycle', e[3] == k // 2 + 1)
                for t, a, b in zip(('mean', 'covariance', 'output mean', 'output covariance'), e[4:], returned[k]):
                    cx.eq(f'{lab}record {k} written: {t}', a, b)
            if source == 'object' and log[0][4] is not None:
                cx.true(lab + 'cycles expected', log[0][4] >= (n - 1) // 2 + 2)
        if source == 'object':
            cx.true(lab + 'dataset: columns', list(df.columns) == list(kept.columns) and list(df.index) == list(kept.index))
            for c in kept.columns:
                if c in ('voltage', 'current', 'test_time'):
                    cx.eq(f'{lab}dataset: {c}', np.array(df[c], dtype=object), np.array(kept[c], dtype=object))


def empty(cx):
    w, est, fs = joint(cx, ('identity',) * 3, 'cap')
    cx.raises('no time series', ValueError, lambda: interface.run_online_estimate(CellDataset(raw_data=None), est))
    cx.raises('not a dataset', ValueError, lambda: interface.run_online_estimate(3, est))


def cases(tier):
    out = []

    def add(name, **p):
        out.append(Case(name, estimate, p, limit=100))
    for kind in ESTIMATORS:
        add(f'{kind}', kind=kind)
        add(f'{kind}-plain', kind=kind, conv=('identity',) * 3, temps=(1, 0, 1), h5=True)
        add(f'{kind}-file', kind=kind, source='file', temps=(1, 1, 0), h5=True, conv=('shift',) * 3)
        add(f'{kind}-again', kind=kind, again=True, n=2, conv=('scale',) * 3)
    for ix in INDEX:
        add(f'index-{ix}', index=ix, n=4 if ix == 'reversed' else 3, conv=('shift',) * 3, extra=ix == 'words')
    for outs in (2, 3):      # the records hold the first of several outputs
        for kind in ESTIMATORS:
            add(f'{kind}-outputs-{outs}', kind=kind, outs=outs, n=2, conv=('affine', 'affine', 'identity'), h5=outs == 2)
    add('one', n=1)
    add('one-file', n=1, source='text', h5=True)
    add('no-table', n=3, out=False, h5=True)
    add('no-cycles', n=2, cycles=False)
    add('no-health', subset='none', n=2)
    add('more-parameters', subset='sub+res', n=2, conv=('affine', 'affine', 'affine'), nv=2)
    add('matrix', subset='cap', n=2, conv=('matrix', 'matrix', 'scale'))
    out.append(Case('refused', empty))
    add('twelve', n=12, subset='sub+res', temps=(1,) * 12)
    add('eight-file', n=8, source='file', h5=True)
    for kind in ESTIMATORS:
        add(f'{kind}-five', kind=kind, n=5, temps=(1, 0, 1, 1, 0), h5=True)
    if tier == 'thorough':
        add('thirty', n=30, h5=True)
        for kind in ESTIMATORS:
            add(f'{kind}-long', kind=kind, n=6, temps=(1, 0, 1, 1, 0, 1), h5=True)
            add(f'{kind}-long-file', kind=kind, n=6, source='file', h5=True, conv=('shift',) * 3)
    return out
