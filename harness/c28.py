from symx.harness import Case
from .online import *
from .c21 import World, wrapped
from . import h5sym
import itertools
import shutil
import tempfile
from contextlib import suppress
from pathlib import Path
import h5py
from moirae.estimators.online.joint import JointEstimator
from moirae.interface.hdf5 import HDF5Writer, read_state_estimates

BOUNDS = ('every nondecreasing cycle numbering of 1 to 4 steps over 4 consecutive cycles, starting at cycle 0, 1 and 1000, and ones with gaps up to 5000; up to 3 steps '
          'with full contents, 300 steps of one number; each write setting for steps and cycles; resizable or fixed; expected sizes exact, unknown, or too small; '
          'files as they are on the disk once the writing is over, also by an error after the third step, open files and groups within them; times -1000..1000 s and about 1.7e9 s; means within ±1e5, variances 1e-12..; states of 2 to 4 dimensions, 1 to 3 outputs')
ASSUMPTIONS = ['h5py and HDF5 run as they are: within the file a number of its own stands for each symbolic value',
               'the filter of the estimator is arbitrary']
SETTINGS = 'full', 'mean_cov', 'mean_var', 'mean', 'none'


def estimator(cx, subset='cap', extra=0, **kw):
    w = World(cx, subset, extra=extra, **kw)
    m, ops = wrapped(cx, w, ('identity',) * 3)
    n = w.nt + w.na
    P, _ = cx.psd('P0', n, diag=True)
    f = AnyFilter(cx, m, MultivariateGaussian(mean=cx.reals('m0', n, -5, 5), covariance=P), DeltaDistribution(mean=cx.reals('u0', w.nu, -5, 5)), 'j')
    return w, JointEstimator(f), n


class Pretend:
    """Just enough of an estimator with one state."""


def gaussian(cx, pre, n, diag=False):
    P, _ = cx.psd(pre + 'P', n, 1e-6, diag=diag)
    return MultivariateGaussian(mean=cx.reals(pre + 'm', n, -1e5, 1e5), covariance=P)


class Interrupted(Exception):
    pass


class Store:
    """Where to write, and how to read it back."""
    def __init__(self, cx, where):
        if cx.symbolic:
            h5sym.install()
            h5sym.reset()
        self.where = where
        self.dir = tempfile.mkdtemp(prefix='c28_')
        self.path = Path(self.dir) / 'est.h5'
        self.file = None
        self.key = 'state_estimates'
        self.out = self.path
        if where == 'text':
            self.out = str(self.path)
        elif where == 'memory':
            self.file = self.out = h5py.File('mem', 'w', driver='core', backing_store=False)
        elif where == 'group':
            self.file = h5py.File('mem', 'w', driver='core', backing_store=False)
            self.out = self.file.create_group('deep/inside')
            self.key = 'mine'

    def source(self):
        return self.out[self.key] if self.file is not None else self.out

    def attrs(self):
        if self.file is not None:
            return dict(self.source().attrs)
        with h5py.File(self.path) as f:
            return dict(f[self.key].attrs)

    def done(self, cx, label):
        """What is read is the file as it is on the disk once the writing is over; an open file that was given stays open."""
        if self.file is not None:
            cx.true(label + 'the file given stays open', bool(self.file))
            return
        there = Path(self.dir) / 'after.h5'
        shutil.copyfile(self.path, there)
        self.out, self.path = str(there) if isinstance(self.out, str) else there, there
        try:
            h5py.File(there, 'r').close()
            whole = True
        except OSError:
            whole = False
        cx.true(label + 'the file is complete', whole)

    def close(self):
        if self.file is not None:
            self.file.close()
        shutil.rmtree(self.dir, True)


def compare(cx, label, got, want, what):
    cx.true(label + 'how many', len(got) == len(want), f'{len(got)} instead of {len(want)}')
    for k, ((t, s, o), (t2, *ds)) in enumerate(zip(got, want)):
        cx.eq(f'{label}{k}: time', t, t2)
        for name, d, (mean, cov) in zip(('state', 'output'), (s, o), ds):
            cx.eq(f'{label}{k}: {name} mean', d.get_mean(), mean)
            if what in ('full', 'mean_cov'):
                cx.eq(f'{label}{k}: {name} covariance', d.get_covariance(), cov)
            elif what == 'mean_var':
                c = d.get_covariance()
                cx.shape(f'{label}{k}: {name} covariance', c, cov.shape)
                cx.eq(f'{label}{k}: {name} variances', np.diag(c), np.diag(cov))


def write_read(cx, w, est, n, ny, cycles, where='memory', per_timestep='mean', per_cycle='full', resizable=True, expect=None, label='', dists=None, cut=False):
    """Write the given dists, one step for each of the cycle numbers, and read both streams."""
    st = Store(cx, where)
    try:
        extra = {'storage_key': st.key} if st.key != 'state_estimates' else {}
        steps = []
        with suppress(Interrupted), HDF5Writer(hdf5_output=st.out, per_timestep=per_timestep, per_cycle=per_cycle, resizable=resizable, **extra) as wr:
            if expect is None:
                wr.prepare(est)
            else:
                wr.prepare(est, expected_steps=expect[0], expected_cycles=expect[1])
            for k, c in enumerate(cycles):
                t, s, o = dists[k]
                steps.append((t, (copy(s.mean), copy(s.covariance)), (copy(o.mean), copy(o.covariance))))
                s, o = s.model_copy(deep=True), o.model_copy(deep=True)
                wr.append_step(t, c, s, o)
                cx.eq(f'{label}step {k}: state afterwards', s.get_mean(), steps[-1][1][0])
                for d in (s, o):
                    scribble(d.mean)
                    scribble(d.covariance)
            if cut:
                raise Interrupted
        st.done(cx, label)
        first = [steps[k] for k in range(len(cycles)) if k == 0 or cycles[k] != cycles[k - 1]]
        for stream, what, want in ((True, per_timestep, steps), (False, per_cycle, first)):
            nm = label + ('steps: ' if stream else 'cycles: ')
            if what == 'none':
                cx.raises(nm + 'nothing written', ValueError, lambda: list(read_state_estimates(st.source(), per_timestep=stream)))
                continue
            compare(cx, nm, list(read_state_estimates(st.source(), per_timestep=stream)), want, what)
        a = st.attrs()
        cx.true(label + 'state names', [str(x) for x in a['state_names']] == trans_names(w.x) + health_names(w.names), str(a['state_names']))
        outs = ['terminal_voltage'] + ([] if ny == 1 else ['extra'] if ny == 2 else [f'extra[{k}]' for k in range(ny - 1)])
        cx.true(label + 'output names', [str(x) for x in a['output_names']] == outs, str(a['output_names']))
    finally:
        st.close()


def steps_of(cx, n, ny, k, diag=False, t=(0, 1000)):
    return [(cx.real(f't{i}', *t), gaussian(cx, f's{i}.', n, diag), gaussian(cx, f'o{i}.', ny)) for i in range(k)]


def contents_case(cx, per_timestep, per_cycle, cycles=(0, 0, 1), where='memory', resizable=True, expect=None, t=(0, 1000), cut=False, **kw):
    cx.exactly()
    w, est, n = estimator(cx, **kw)
    write_read(cx, w, est, n, w.ny, cycles, where, per_timestep, per_cycle, resizable, expect, dists=steps_of(cx, n, w.ny, len(cycles), t=t), cut=cut)


def numberings(cx, k, start, per_cycle='mean', resizable=True, gaps=None, expect=None):
    """Every nondecreasing numbering of k steps over consecutive cycles (or the given ones)."""
    w, est, n = estimator(cx, subset='none')
    d = steps_of(cx, n, w.ny, k, diag=True)
    for cyc in (gaps or itertools.combinations_with_replacement(range(start, start + 4), k)):
        e = expect
        if not resizable:
            e = (k, max(cyc) + 1)
        write_read(cx, w, est, n, w.ny, list(cyc), per_cycle=per_cycle, resizable=resizable, expect=e, label=f'cycles {list(cyc)}: ', dists=d)


def long(cx, k, expect=None, every=2):
    """More steps and cycles than any initial size."""
    w, est, n = estimator(cx, subset='none', nv=0)
    one = gaussian(cx, 'o', 1)
    P = cx.arr([[cx.const(1)]])
    d = [(cx.real(f't{i}', 0, 1000), MultivariateGaussian(mean=cx.arr([cx.real(f'm{i}', -5, 5)]), covariance=copy(P)), one) for i in range(k)]
    write_read(cx, w, est, n, 1, [i // every for i in range(k)], expect=expect, dists=d)


def float_cycles(cx):
    """Cycle numbers and times as tables give them."""
    w, est, n = estimator(cx, subset='none')
    d = steps_of(cx, n, w.ny, 3, diag=True)
    write_read(cx, w, est, n, w.ny, [np.float64(1.), np.float64(1.), np.int32(2)], dists=d)


def run_and_read(cx, cycles, temps=None):
    """A whole estimation, with the writer the interface makes for a path."""
    from .c26 import joint, interface
    import pandas as pd
    from battdat.data import CellDataset
    w, est, fs = joint(cx, ('shift',) * 3, 'cap', nv=0)
    n = len(cycles)
    df = pd.DataFrame({c: cx.reals(c, n, 0, 5) for c in ('test_time', 'voltage', 'current')})
    df['cycle_number'] = list(cycles)
    st = Store(cx, 'file')
    try:
        ret, step = [], est.step

        def noting(*a):
            r = step(*a)
            ret.append([(copy(d.get_mean()), copy(d.get_covariance())) for d in r])
            return r
        est.step = noting
        interface.run_online_estimate(CellDataset(raw_data=df), est, output_states=False, hdf5_output=st.out)
        want = [(df['test_time'].iloc[k], *ret[k]) for k in range(n)]
        st.done(cx, '')
        compare(cx, 'steps: ', list(read_state_estimates(st.path)), want, 'mean')
        compare(cx, 'cycles: ', list(read_state_estimates(st.path, per_timestep=False)),
                [want[k] for k in range(n) if not k or cycles[k] != cycles[k - 1]], 'full')
    finally:
        st.close()


def cases(tier):
    out = []

    def add(name, fn, **p):
        out.append(Case(name, fn, p, limit=100))
    for a in SETTINGS:
        for b in SETTINGS:
            if tier == 'thorough' or a == b or 'full' in (a, b) or (a, b) in (('mean', 'mean_var'), ('mean_cov', 'mean')):
                add(f'{a}-{b}', contents_case, per_timestep=a, per_cycle=b, where='file' if a == 'full' else 'memory')
    for where in ('file', 'text', 'memory', 'group'):
        for expect in (None, (9, 4)):
            add(f'stopped-{where}-{expect and expect[0]}', contents_case, per_timestep='full', per_cycle='mean_cov', where=where, cut=True, expect=expect, resizable=expect is None)
    add('large', contents_case, per_timestep='mean_cov', per_cycle='full', subset='sub+res', extra=2, cycles=(0, 1), where='text')
    add('before-zero', contents_case, per_timestep='mean', per_cycle='full', t=(-1000, -1), cycles=(0, 1, 1))
    add('at-zero', contents_case, per_timestep='mean_var', per_cycle='mean', t=(0, 0), cycles=(3, 4, 4))
    add('unix-times', contents_case, per_timestep='mean', per_cycle='mean_cov', t=(1.6e9, 1.7e9), cycles=(0, 1, 2), where='file')
    add('group', contents_case, per_timestep='mean_var', per_cycle='mean_cov', where='group', extra=1)
    add('fixed', contents_case, per_timestep='mean_cov', per_cycle='mean_var', resizable=False, expect=(3, 2))
    add('fixed-spare', contents_case, per_timestep='full', per_cycle='full', resizable=False, expect=(5, 4), where='file')
    add('expected', contents_case, per_timestep='mean', per_cycle='full', expect=(3, 2))
    add('expected-too-few', contents_case, per_timestep='mean', per_cycle='full', expect=(2, 1))
    add('expected-steps-only', contents_case, per_timestep='mean', per_cycle='full', expect=(3, None), cycles=(4, 5, 5))
    add('one-expected', contents_case, per_timestep='mean_cov', per_cycle='mean', expect=(1, 1), cycles=(0, 0, 1))
    for start in (0, 1, 1000):
        for k in (1, 2, 3, 4):
            if k < 4 or start == 1 or tier == 'thorough':
                add(f'numbering-{k}-from-{start}', numberings, k=k, start=start)
    add('numbering-fixed', numberings, k=3, start=1, resizable=False)
    add('gaps', numberings, k=3, start=0, gaps=[(0, 1, 300), (2, 2, 129), (0, 128, 256), (127, 128, 5000), (0, 0, 1025), (7, 700, 701)])
    add('gaps-expected', numberings, k=3, start=0, gaps=[(0, 1, 300), (3, 9, 10)], expect=(3, 2), per_cycle='full')
    add('float-cycles', float_cycles)
    add('long', long, k=300)
    add('long-expected', long, k=150, expect=(10, 3), every=1)
    add('run', run_and_read, cycles=(0, 0, 1))
    add('run-from-1', run_and_read, cycles=(1, 1, 2))
    add('run-gaps', run_and_read, cycles=(2, 5, 5))
    if tier == 'thorough':
        add('long-thousand', long, k=1200, every=1)
    return out
