from symx.harness import Case
from .cells import *
import warnings
import pandas as pd
import scipy.interpolate
from battdat.data import CellDataset
from battdat.postprocess.integral import CapacityPerCycle
from moirae.extractors import ecm as _ecm
from moirae.extractors.ecm import MaxCapacityExtractor, OCVExtractor
from moirae.models.ecm.components import MaxTheoreticalCapacity, OpenCircuitVoltage

BOUNDS = ('1 to 4, 7 and 8 cycles with all capacities, 14 to 130 cycles with one or two of them any capacity; 2 to 4 records with all capacities passed, voltages and currents, in every order that these can have (all distinct, or some at the '
          'same state of charge), for permuted row labels, with and without other columns; the assumed capacity a number or a parameter; 2 to 5 and 11 points, evenly '
          'spaced or not; the spline fitter uninterpreted (a function of what it is fitted to and evaluated at)')
ASSUMPTIONS = ['scipy.interpolate.LSQUnivariateSpline is replaced by a recorder whose values are uninterpreted', 'pandas is part of the code that is run',
               'battdat.postprocess.integral.CapacityPerCycle (another package) is replaced by one that yields arbitrary capacities']


class Spline:
    """What the fitter was asked for, and a value about which nothing is known at each point."""
    made = []
    cx = None

    def __init__(self, x, y, t, w=None, bbox=None, k=3, ext=0, check_finite=False):
        def a(v):
            v = np.asarray(v)
            return np.array(v if v.dtype == object else v.astype(float)).reshape(-1)
        self.x, self.y, self.t, self.w = a(x), a(y), a(t), None if w is None else a(w)
        self.k, self.ext, self.asked = k, ext, []
        Spline.made.append(self)

    def __call__(self, x, nu=0, ext=None):
        x = np.asarray(x)
        self.asked.append((np.array(x), nu))
        n = len(Spline.made)
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape):
            out[i] = Spline.cx.uf(f'spline{n}', [x[i]])
        return Spline.cx.arr(out)


class patched:
    def __init__(self, cx, capacities=None):
        self.cx, self.capacities = cx, capacities

    def __enter__(self):
        Spline.made, Spline.cx = [], self.cx
        self.old = scipy.interpolate.LSQUnivariateSpline, _ecm.LSQUnivariateSpline if hasattr(_ecm, 'LSQUnivariateSpline') else None
        scipy.interpolate.LSQUnivariateSpline = Spline
        if self.old[1] is not None:
            _ecm.LSQUnivariateSpline = Spline
        self.oldc = CapacityPerCycle.compute_features, CapacityPerCycle.add_summaries
        if self.capacities is not None:
            caps, cx = self.capacities, self.cx

            def compute(obj, data):
                return frame(cx, {'cycle_number': list(range(len(caps))), 'capacity_charge': caps, 'capacity_discharge': [0.] * len(caps)})

            def add(obj, data):
                c = compute(obj, data)
                data.tables['cycle_stats'] = c
                return list(c.columns)
            CapacityPerCycle.compute_features, CapacityPerCycle.add_summaries = compute, add
        return self

    def __exit__(self, *a):
        scipy.interpolate.LSQUnivariateSpline = self.old[0]
        if self.old[1] is not None:
            _ecm.LSQUnivariateSpline = self.old[1]
        CapacityPerCycle.compute_features, CapacityPerCycle.add_summaries = self.oldc


def frame(cx, cols, index=None):
    d = {}
    for n, v in cols.items():
        if all(isinstance(e, (int, np.integer)) for e in v):
            d[n] = np.array(v, dtype=int)
        else:
            d[n] = np.array(v, dtype=object if cx.symbolic and any(not isinstance(e, float) for e in v) else float)
    return pd.DataFrame(d, index=index)


def content(data):
    return {n: (list(t.columns), list(t.index), [list(t[c].values) for c in t.columns]) for n, t in data.tables.items() if t is not None}


def same_content(cx, label, data, before):
    now = content(data)
    cx.true(label + ': tables', list(now) == list(before), f'{list(now)} instead of {list(before)}')
    for n in before:
        cx.true(f'{label}: {n} columns', now[n][0] == before[n][0], f'{now[n][0]} instead of {before[n][0]}')
        cx.true(f'{label}: {n} rows', now[n][1] == before[n][1], f'{now[n][1]} instead of {before[n][1]}')
        for c, a, b in zip(before[n][0], now[n][2], before[n][2]):
            nan = [isinstance(y, float) and y != y for y in b]
            cx.true(f'{label}: {n} {c} missing', [isinstance(y, float) and y != y for y in a] == nan)
            cx.eq(f'{label}: {n} {c}', np.array([x for x, m in zip(a, nan) if not m], dtype=object), np.array([x for x, m in zip(b, nan) if not m], dtype=object))


def greatest(cx, label, got, values):
    got = one(got)
    for k, v in enumerate(values):
        cx.le(f'{label}: at least that of cycle {k}', v, got)
    any_ = None
    for v in values:
        c = got == v if cx.symbolic else bool(abs(got - v) <= 1e-9 * (1 + abs(v)))
        any_ = c if any_ is None else orr(cx, any_, c)
    cx.true(f'{label}: that of a cycle', any_)


def orr(cx, a, b):
    if not cx.symbolic:
        return a or b
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return cx.s.SymBool(('or', a, b))


def one(a):
    return np.asarray(a).reshape(-1)[0]


def capacity(cx, n, given, order=None, missing=None, free=None):
    """The largest charge capacity, as listed or as computed."""
    caps = [cx.real(f'q{k}', *((0, 100) if free is None or k in free else (1 + k % 5 + 0.01 * k, 1.005 + k % 5 + 0.01 * k))) for k in range(n)]
    listed = list(caps)
    if missing is not None:
        listed[missing] = float('nan')
    tables = {'raw_data': frame(cx, {'test_time': [0., 1., 2.], 'current': [1., 1., 1.], 'voltage': [3., 3., 3.], 'cycle_number': [0, 0, 0]})}
    if given == 'yes':
        cols = {'cycle_number': list(range(n)), 'capacity_discharge': [cx.real(f'd{k}', 0, 200) for k in range(n)], 'capacity_charge': listed,
                'energy_charge': [cx.real(f'e{k}', 0, 200) for k in range(n)]}
        tables['cycle_stats'] = frame(cx, cols, index=order)
    elif given == 'other columns':
        tables['cycle_stats'] = frame(cx, {'cycle_number': list(range(n)), 'capacity_discharge': [cx.real(f'd{k}', 0, 200) for k in range(n)]})
    data = CellDataset(tables=tables)
    before = content(data)
    with patched(cx, listed), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = MaxCapacityExtractor().extract(data)
        cx.true('a capacity', isinstance(got, MaxTheoreticalCapacity))
        v = dict(values(got))
        cx.true('fields', list(v) == ['base_values'], f'{list(v)}')
        cx.shape('capacity', got.base_values, (1, 1))
        greatest(cx, 'capacity', got.base_values, [c for k, c in enumerate(caps) if k != missing])
        same_content(cx, 'dataset', data, before)


POINTS = {'int': 4, 'even': [0., 0.5, 1.], 'uneven': [0., 0.2, 0.7, 1.], 'two': [0., 1.], 'inside': [0.1, 0.3, 0.4, 0.85, 0.9], 'default': None}


def ocv(cx, n, points='uneven', index=None, extra=False, cap='number', style='cubic', signs=None, twice=False):
    """Records at different states of charge, in any order."""
    Q = cx.real('Q', 0.5, 20)
    s = [cx.real(f'ah{k}', -1, 20) for k in range(n)]
    for i in range(n):
        for j in range(i):
            cx.away(s[i] - s[j], 0.01)
    v = [cx.real(f'v{k}', 1, 5) for k in range(n)]
    I = []
    for k in range(n):
        sg = (signs or '?' * n)[k]
        I.append(cx.real(f'i{k}', -1000 if sg in '?-' else 0.01 if sg == '+' else -1e-7, 1000 if sg in '?+' else -0.01 if sg == '-' else 1e-7))
    cols = {'test_time': [float(k) for k in range(n)], 'current': I, 'voltage': v, 'cycle_capacity': s, 'cycle_energy': [0.5 * k for k in range(n)],
            'cycle_number': [0] * n}
    if extra:
        cols = {'state': [7] * n, 'cycle_capacity': s, 'soc_measured': [0.5] * n, 'voltage': v, 'temperature': [25.] * n, 'current': I, 'test_time': cols['test_time']}
        if extra == 'soc':
            cols['soc'] = [cx.real(f'listed{k}', 0, 1) for k in range(n)]
    data = CellDataset(tables={'raw_data': frame(cx, cols, index=index)})
    before = content(data)
    kw = {}
    pts = POINTS[points] if points != 'symbolic' else [0., cx.real('p1', 0.1, 0.4), cx.real('p2', 0.5, 0.9), 1.]
    if pts is not None:
        kw['soc_points'] = pts if isinstance(pts, int) else cx.arr(pts) if points == 'symbolic' else np.array(pts)
    if style != 'cubic':
        kw['interpolation_style'] = style
    at = np.linspace(0, 1, 11 if pts is None else pts) if pts is None or isinstance(pts, int) else np.array(pts, dtype=object if cx.symbolic else float)
    with patched(cx):
        q = MaxTheoreticalCapacity(base_values=Q) if cap == 'parameter' else Q
        if cx.symbolic and cap == 'number':     # a symbolic value is not converted by float(): set what the constructor would have stored
            ex = OCVExtractor(1., **kw)
            ex.capacity = Q
        else:
            ex = OCVExtractor(q, **kw)
        for rep in range(2 if twice else 1):
            lb = 'again: ' if rep else ''
            got = ex.extract(data) if rep == 0 or twice != 'interpolate' else ex.interpolate_ocv(data.tables['raw_data'])
            cx.true(lb + 'one fit', len(Spline.made) == rep + 1, f'{len(Spline.made)} fits')
            sp = Spline.made[rep]
            cx.true(lb + 'records', len(sp.x) == len(sp.y) == n and (sp.w is None or len(sp.w) == n), f'{len(sp.x)} points of {n} records')
            cx.true(lb + 'weights', sp.w is not None)
            cx.true(lb + 'cubic', sp.k == 3)
            for k in range(n - 1):
                cx.le(f'{lb}point {k} before the next', sp.x[k], sp.x[k + 1])
            # the records in the order of their state of charge (the order is decided on the path)
            rank = sorted(range(n), key=lambda k: sum(bool(s[j] < s[k]) for j in range(n)))
            mag = []
            for pos, k in enumerate(rank):
                cx.eq(f'{lb}record {k}: state of charge', sp.x[pos], s[k] / Q)
                cx.eq(f'{lb}record {k}: voltage', sp.y[pos], v[k])
                m = cx.abs(I[k])
                mag.append(m if cx.branch(m >= 1e-6) else cx.const(1e-6))
            for pos in range(n):
                cx.le(f'{lb}record {rank[pos]}: weight positive', 1e-11, sp.w[pos])
                if pos:
                    cx.eq(f'{lb}records {rank[0]} and {rank[pos]}: weights', sp.w[pos] * mag[pos], sp.w[0] * mag[0])
            cx.eq(lb + 'knots', sp.t, at[1:-1])
            cx.true(lb + 'evaluated', len(sp.asked) >= 1 and all(nu == 0 for _, nu in sp.asked))
            want = cx.arr([cx.uf(f'spline{rep + 1}', [p]) for p in at])
            if not isinstance(got, OpenCircuitVoltage):
                cx.eq(lb + 'values', np.asarray(got).reshape(-1), want)
            else:
                cx.eq(lb + 'values', got.ocv_ref.base_values, want[None, :])
                cx.eq(lb + 'points', np.asarray(got.ocv_ref.soc_pinpoints).reshape(-1), at)
                cx.true(lb + 'style', got.ocv_ref.interpolation_style == style)
                cx.true(lb + 'nothing else', got.ocv_ent is None or not np.any(np.asarray(got.ocv_ent.base_values, dtype=float)))
            same_content(cx, lb + 'dataset', data, before)
            cx.eq(lb + 'points of the extractor', np.asarray(ex.soc_points).reshape(-1), at)


def ties(cx, n, same):
    """Records at one and the same state of charge all count."""
    Q = cx.real('Q', 0.5, 20)
    s = [cx.real(f'ah{k}', -1, 20) for k in range(n)]
    for k in range(n):
        if k in same:
            s[k] = s[same[0]]
        for j in range(k):
            if not (j in same and k in same):
                cx.away(s[k] - s[j], 0.01)
    v, I = [cx.real(f'v{k}', 1, 5) for k in range(n)], [cx.real(f'i{k}', 0.01, 1000) for k in range(n)]
    data = CellDataset(tables={'raw_data': frame(cx, {'test_time': [float(k) for k in range(n)], 'current': I, 'voltage': v, 'cycle_capacity': s,
                                                      'cycle_energy': [0.5] * n, 'cycle_number': [0] * n})})
    with patched(cx):
        got = OCVExtractor(MaxTheoreticalCapacity(base_values=Q), soc_points=3).extract(data)
        sp = Spline.made[0]
        cx.true('records', len(Spline.made) == 1 and len(sp.x) == len(sp.y) == len(sp.w) == n, f'{len(sp.x)} points of {n} records')
        t = lambda a: sum(list(a)[1:], list(a)[0])
        for k in range(n - 1):
            cx.le(f'point {k} before the next', sp.x[k], sp.x[k + 1])
        cx.eq('states of charge', t(sp.x) * Q, t(s))
        cx.eq('voltages', t(sp.y), t(v))
        cx.eq('squares of the voltages', t(sp.y * sp.y), t([a * a for a in v]))
        cx.eq('voltages at their states of charge', t(sp.x * sp.y) * Q, t([a * b for a, b in zip(s, v)]))
        cx.eq('values', got.ocv_ref.base_values, cx.arr([[cx.uf('spline1', [p]) for p in (0., 0.5, 1.)]]))


def sampled(cx, n, given, cap='number', req='symbolic', free=None):
    """Rejected exactly if the largest capacity is too small a part of the assumed one."""
    Q = cx.real('Q', 0.5, 20)
    low = lambda k: 0.002 * (k % 5) + 4e-5 * (k % 120)
    caps = [cx.real(f'q{k}', *((0, 30) if free is None or k in free else (low(k), low(k) + 3e-5))) for k in range(n)]     # 0.02 is never enough
    r = cx.real('r', 0.05, 1) if req == 'symbolic' else 0.95
    tables = {'raw_data': frame(cx, {'test_time': [0., 1., 2.], 'current': [1., 1., 1.], 'voltage': [3., 3., 3.], 'cycle_number': [0, 0, 0]})}
    if given == 'yes':
        tables['cycle_stats'] = frame(cx, {'cycle_number': list(range(n)), 'capacity_discharge': [50.] * n, 'capacity_charge': caps})
    elif given == 'other columns':
        tables['cycle_stats'] = frame(cx, {'cycle_number': list(range(n)), 'capacity_discharge': [50.] * n})
    data = CellDataset(tables=tables)
    before = content(data)
    kw = {} if req == 'default' else {'soc_requirement': r}
    if cx.symbolic and cap == 'number':
        ex = OCVExtractor(1., **kw)
        ex.capacity = Q
    else:
        ex = OCVExtractor(MaxTheoreticalCapacity(base_values=Q) if cap == 'parameter' else Q, **kw)
    enough = False
    for k in range(n):
        cx.away(caps[k] - r * Q, 1e-4)
        enough = enough or cx.branch(caps[k] > r * Q)
    with patched(cx, caps):
        if enough:
            ex.check_data(data)
            cx.true('accepted', True)
        else:
            cx.raises('rejected', ValueError, lambda: ex.check_data(data))
    if given == 'yes':
        same_content(cx, 'dataset', data, before)


def missing(cx):
    Q = cx.real('Q', 0.5, 20)
    ex = OCVExtractor(MaxTheoreticalCapacity(base_values=Q))
    data = CellDataset(tables={'cycle_stats': frame(cx, {'cycle_number': [0], 'capacity_charge': [cx.real('q', 20, 30)]})})
    cx.raises('no records', ValueError, lambda: ex.check_data(data))


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for n in (1, 2, 3, 4) + ((5,) if deep else ()):
        for given in ('yes', 'no', 'other columns'):
            out.append(Case(f'capacity-{n}-{given.replace(" ", "-")}', capacity, dict(n=n, given=given)))
    for n in (7, 8):
        out.append(Case(f'capacity-{n}', capacity, dict(n=n, given='yes')))
    for n, free in ((14, (0, 13)), (24, (1,)), (60, (2,)), (130, (120,))):
        out.append(Case(f'capacity-{n}-{free[0]}', capacity, dict(n=n, given='yes', free=free)))
    out.append(Case('capacity-labels', capacity, dict(n=3, given='yes', order=[2, 0, 1])))
    for m in (0, 2):
        out.append(Case(f'capacity-missing{m}', capacity, dict(n=3, given='yes', missing=m)))
    for n in (2, 3):
        out.append(Case(f'ocv-{n}', ocv, dict(n=n)))
        out.append(Case(f'ocv-{n}-parameter', ocv, dict(n=n, cap='parameter', signs='+' * n)))
    out.append(Case('ocv-4', ocv, dict(n=4, signs='+++-')))
    for n, same in ((2, (0, 1)), (3, (0, 2)), (3, (0, 1, 2)), (4, (1, 2))):
        out.append(Case(f'ties-{n}-{same}', ties, dict(n=n, same=same)))
    if deep:
        out.append(Case('ocv-4-any', ocv, dict(n=4), limit=600))
        out.append(Case('ocv-5', ocv, dict(n=5, signs='+-+--'), limit=600))
    for p in POINTS:
        out.append(Case(f'ocv-points-{p}', ocv, dict(n=3, points=p, signs='+-+')))
    out.append(Case('ocv-points-symbolic', ocv, dict(n=2, points='symbolic', signs='+-')))
    out.append(Case('ocv-labels', ocv, dict(n=3, index=[2, 0, 1], signs='+-0')))
    out.append(Case('ocv-labels-repeated', ocv, dict(n=3, index=[1, 1, 0], signs='+-0')))
    out.append(Case('ocv-columns', ocv, dict(n=3, extra=True, signs='0-+')))
    out.append(Case('ocv-columns-soc', ocv, dict(n=3, extra='soc', signs='++-')))
    out.append(Case('ocv-style', ocv, dict(n=2, style='linear', signs='+-')))
    out.append(Case('ocv-twice', ocv, dict(n=2, twice=True, signs='+-')))
    out.append(Case('ocv-interpolate', ocv, dict(n=2, twice='interpolate', signs='+-')))
    for n in (1, 2, 3):
        out.append(Case(f'sampled-{n}', sampled, dict(n=n, given='yes')))
    for n, free in ((7, (5, 6)), (7, (0, 3)), (9, (7, 8)), (16, (0,)), (40, (1,)), (70, (65,))):
        out.append(Case(f'sampled-{n}-{free[0]}', sampled, dict(n=n, given='yes', free=free)))
    for g in ('no', 'other columns'):
        out.append(Case(f'sampled-2-{g.replace(" ", "-")}', sampled, dict(n=2, given=g)))
    out.append(Case('sampled-parameter', sampled, dict(n=2, given='yes', cap='parameter')))
    out.append(Case('sampled-default', sampled, dict(n=2, given='yes', req='default')))
    out.append(Case('missing', missing))
    return out
