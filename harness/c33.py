import sys
import types
from symx.harness import Case
from .common import walk, pick, one, vec, scal, snapshot, unchanged, scribble
import numpy as np


class Experiment:
    """Steps of an experiment, as the solver package's own class takes them."""
    def __init__(self, **kw):
        self.steps = []

    def add_step(self, mode, value, tspan, limits=None, **kw):
        self.steps.append((mode, value, tspan, limits))


class Model:
    """The solver: its results are uninterpreted functions of everything it is given."""
    cx = None
    log = []

    def __init__(self, params=None, **kw):
        self.params = dict(params)
        n = self.params['num_RC_pairs']
        self._ptr = {'soc': 0, 'T_cell': 1}
        if n:
            self._ptr['eta_j'] = np.arange(2, 2 + n)
        self._sv0 = np.empty(2 + n, dtype=object)
        self._sv0[:] = 0.
        self._sv0[0], self._sv0[1] = self.params['soc0'], 1.     # temperatures are relative to that of the environment
        self._sv0 = Model.cx.arr(self._sv0)

    def given(self, probe):
        p, n = self.params, self.params['num_RC_pairs']
        g = {'soc': self._sv0[0], 'temp': self._sv0[1] * p['T_inf']}
        for k in ('capacity', 'mass', 'Cp', 'T_inf', 'h_therm', 'A_therm'):
            g[k] = p[k]
        for j in range(n):
            g[f'eta{j + 1}'] = self._sv0[2 + j]
        g['ocv'] = p['ocv'](probe[0])
        for j in range(n + 1):
            g[f'R{j}'] = p[f'R{j}'](probe[0], probe[1])
        for j in range(n):
            g[f'C{j + 1}'] = p[f'C{j + 1}'](probe[0], probe[1])
        return g

    def run(self, exp, **kw):
        g = self.given(Model.probe)
        Model.log.append((self, g, list(exp.steps)))
        mode, value, tspan, _ = exp.steps[-1]
        args = [one(v) for v in g.values()] + [one(value), one(tspan[0])]
        n = tspan[1] if isinstance(tspan[1], int) else 2
        names = ['soc', 'temperature_K', 'voltage_V', 'current_A'] + [f'eta{j + 1}_V' for j in range(self.params['num_RC_pairs'])]
        v = {}
        for name in names:      # the values before the last are something else
            v[name] = Model.cx.arr([Model.cx.uf(f'{name}.{k}', args) for k in range(n - 1)] + [Model.cx.uf(f'{name}.end', args)])
        return types.SimpleNamespace(vars=v)


_stub = types.ModuleType('thevenin')
_stub.Model, _stub.Experiment = Model, Experiment
sys.modules['thevenin'] = _stub

from moirae.models.thevenin import TheveninInput, TheveninTransient, TheveninModel      # noqa: E402
from moirae.models.thevenin.components import SOCPolynomialVariable, SOCTempPolynomialVariable      # noqa: E402
from moirae.models.thevenin.state import TheveninASOH      # noqa: E402
from moirae.models.base import OutputQuantities      # noqa: E402

BOUNDS = ('all parameters, states and inputs; 0 to 4 RC elements; batches of 1, 2, 3 and 20 in any one of the fields and in combinations of them; polynomials with 1 to 3 '
          'coefficients; two steps in a row')
ASSUMPTIONS = ['the package thevenin, which is not installed here, is replaced by a stand-in whose results are uninterpreted functions of the parameters, the '
               'initial values and the step it is given; its parameter functions are probed at one arbitrary state of charge and temperature',
               'the temperature before the step is that of the environment, except in the case that lists the known finding']


def poly(cs, x):
    r = 0
    for c in reversed(list(cs)):
        r = r * x + c
    return r


def soctemp(cx, name, ns, nt, batch, nb):
    b = lambda k: nb if f'{name}.{k}' in batch else 0
    p = SOCTempPolynomialVariable(soc_coeffs=vec(cx, name + '.s', ns, -2, 2, b('s')), t_coeffs=vec(cx, name + '.t', nt, -2, 2, b('t')),
                                  t_ref=scal(cx, name + '.tr', 200, 400, b('tr')))
    return p


def circuit(cx, rc, batch=(), nb=2, no=2, ns=2, nt=2):
    b = lambda k: nb if k in batch else 0
    kw = {k: scal(cx, k, 0.1, 10, b(k)) for k in ('capacity', 'mass', 'c_p', 'h_thermal', 'a_therm')}
    return TheveninASOH(ocv=SOCPolynomialVariable(coeffs=vec(cx, 'ocv', no, -2, 2, b('ocv'))), r=tuple(soctemp(cx, f'r{j}', ns, nt, batch, nb) for j in range(rc + 1)),
                        c=tuple(soctemp(cx, f'c{j}', ns, nt, batch, nb) for j in range(rc)), **kw)


def state(cx, rc, batch=(), nb=2, temp=None):
    b = lambda k: nb if k in batch else 0
    return TheveninTransient(soc=scal(cx, 'x.soc', -0.5, 1.5, b('soc')), temp=scal(cx, 'x.temp', 200, 400, b('temp')) if temp is None else temp,
                             eta=vec(cx, 'x.eta', rc, -1, 1, b('eta')) if rc else np.zeros((1, 0)))


def ins(cx, pre, batch=(), nb=2, tinf=None):
    b = lambda k: nb if pre + k in batch else 0
    return TheveninInput(time=scal(cx, pre + 'time', 0, 100, b('time')), current=scal(cx, pre + 'current', -5, 5, b('current')),
                         t_inf=scal(cx, pre + 't_inf', 200, 400, b('t_inf')) if tinf is None else tinf)


def at(a, k):
    return one(pick(np.asarray(a), k))


def st_value(p, k, s, T):
    """A parameter of member k at a state of charge and temperature."""
    return poly(pick(p.t_coeffs, k).reshape(-1), T - at(p.t_ref, k)) + poly(pick(p.soc_coeffs, k).reshape(-1), s)


def rows(*ms):
    return max([v.shape[0] for m in ms for _, _, _, v in walk(m)] + [1])


def expected(a, x, u, probe, k):
    n = len(a.c)
    g = {'soc': at(x.soc, k), 'temp': at(x.temp, k), 'capacity': at(a.capacity, k), 'mass': at(a.mass, k), 'Cp': at(a.c_p, k), 'T_inf': at(u.t_inf, k),
         'h_therm': at(a.h_thermal, k), 'A_therm': at(a.a_therm, k)}
    for j in range(n):
        g[f'eta{j + 1}'] = pick(x.eta, k).reshape(-1)[j]
    g['ocv'] = poly(pick(a.ocv.coeffs, k).reshape(-1), probe[0])
    for j in range(n + 1):
        g[f'R{j}'] = st_value(a.r[j], k, *probe)
    for j in range(n):
        g[f'C{j + 1}'] = st_value(a.c[j], k, *probe)
    return g


def voltage(cx, label, model, a, x, u):
    B = rows(a, x, u)
    y = model.calculate_terminal_voltage(u, x, a)
    cx.true(label + 'outputs', isinstance(y, OutputQuantities) and list(y.all_names) == ['terminal_voltage'])
    want = []
    for k in range(B):
        s, T = at(x.soc, k), at(x.temp, k)
        v = poly(pick(a.ocv.coeffs, k).reshape(-1), s) + at(u.current, k) * st_value(a.r[0], k, s, T)
        for e in pick(x.eta, k).reshape(-1):
            v = v - e
        want.append([v])
    got = np.asarray(y.terminal_voltage)
    cx.true(label + 'voltage: members', got.ndim == 2 and got.shape[1] == 1 and got.shape[0] in (B, 1 if same_voltage(a, x, u) else B), f'{got.shape}')
    for k in range(B):
        cx.eq(f'{label}voltage of member {k}', at(got, k), want[k][0])


def same_voltage(a, x, u):
    """Whether all members have the voltage's own ingredients in common."""
    return all(np.shape(v)[0] == 1 for v in (a.ocv.coeffs, a.r[0].soc_coeffs, a.r[0].t_coeffs, a.r[0].t_ref, x.soc, x.temp, x.eta, u.current))


def update(cx, label, model, a, x, u0, u1, isothermal, probe):
    B = rows(a, x, u1)
    n = len(a.c)
    Model.cx, Model.log, Model.probe = cx, [], probe
    parts = dict(circuit=a, state=x, previous=u0, new=u1)
    snaps = {k: snapshot(m) for k, m in parts.items()}
    new = model.update_transient_state(u0, u1, x, a)
    cx.true(label + 'one run for each member', len(Model.log) == B, f'{len(Model.log)} runs for {B} members')
    out = []
    for k in range(B):
        m, got, steps = Model.log[k]
        g = expected(a, x, u1, probe, k)
        lb = f'{label}member {k}: '
        cx.true(lb + 'RC elements', m.params['num_RC_pairs'] == n)
        cx.true(lb + 'isothermal', m.params.get('isothermal', False) is isothermal)
        cx.true(lb + 'one step', len(steps) == 1, f'{len(steps)} steps')
        mode, value, tspan, limits = steps[0]
        cx.true(lb + 'current step', mode == 'current_A' and limits is None)
        for name in g:
            cx.eq(lb + name, one(got[name]), g[name])
        cur, dt = -at(u1.current, k), at(u1.time, k) - at(u0.time, k)
        cx.true(lb + 'current: one value', np.size(value) == 1)
        cx.eq(lb + 'current', one(value), cur)
        cx.eq(lb + 'duration', one(tspan[0]), dt)
        args = list(g.values()) + [cur, dt]
        out.append([cx.uf(f'{v}.end', args) for v in ['soc', 'temperature_K'] + [f'eta{j + 1}_V' for j in range(n)]])
    cx.true(label + 'state', isinstance(new, TheveninTransient))
    cx.shape(label + 'soc', new.soc, (B, 1))
    cx.shape(label + 'temperature', new.temp, (B, 1))
    cx.shape(label + 'overpotentials', new.eta, (B, n))
    for k in range(B):
        cx.eq(f'{label}new soc of member {k}', new.soc[k, 0], out[k][0])
        cx.eq(f'{label}new temperature of member {k}', new.temp[k, 0], out[k][1])
        if n:
            cx.eq(f'{label}new overpotentials of member {k}', new.eta[k], cx.arr(out[k][2:]))
    for k, m in parts.items():
        unchanged(cx, f'{label}{k}', m, snaps[k])
    return new


def step(cx, rc, batch=(), nb=2, isothermal=False, no=2, ns=2, nt=2, steps=1, differs=False):
    model = TheveninModel(isothermal=isothermal) if isothermal else TheveninModel()
    a = circuit(cx, rc, batch, nb, no, ns, nt)
    u0, u1 = ins(cx, 'p.', batch, nb), ins(cx, 'n.', batch, nb)
    B = nb if 'temp' in batch else 1
    if differs:
        x = state(cx, rc, batch, nb)
    else:       # in equilibrium with the environment
        x = state(cx, rc, batch, nb, temp=np.array(u1.t_inf, copy=True))
    probe = cx.real('probe.soc', -0.5, 1.5), cx.real('probe.temp', 200, 400)
    new = update(cx, '', model, a, x, u0, u1, isothermal, probe)
    if steps == 2:
        u2 = ins(cx, 'q.', batch, nb)
        snap = snapshot(new)
        x2 = TheveninTransient(soc=np.array(new.soc, copy=True), temp=np.array(u2.t_inf, copy=True), eta=np.array(new.eta, copy=True))
        new2 = update(cx, 'next: ', model, a, x2, u1, u2, isothermal, probe)
        unchanged(cx, 'state before', new, snap)
        for _, _, _, v in walk(new2):
            scribble(v)
        unchanged(cx, 'state before, later', new, snap)
    else:
        before = [snapshot(m) for m in (x, a, u1)]
        for _, _, _, v in walk(new):
            scribble(v)
        for m, s, lb in zip((x, a, u1), before, ('old state', 'circuit', 'inputs')):
            unchanged(cx, f'{lb} later', m, s)


def volts(cx, rc, batch=(), nb=2, no=2, ns=2, nt=2):
    a = circuit(cx, rc, batch, nb, no, ns, nt)
    x, u = state(cx, rc, batch, nb), ins(cx, 'n.', batch, nb)
    parts = dict(circuit=a, state=x, inputs=u)
    snaps = {k: snapshot(m) for k, m in parts.items()}
    voltage(cx, '', TheveninModel(), a, x, u)
    for k, m in parts.items():
        unchanged(cx, k, m, snaps[k])


def parameters(cx, nb, batch, no=2, ns=2, nt=2):
    """Parameters of one member, of all of them, for one and for many states."""
    b = lambda k: nb if k in batch else 0
    p = SOCPolynomialVariable(coeffs=vec(cx, 'p', no, -2, 2, b('p')))
    r = soctemp(cx, 'r', ns, nt, batch, nb)
    B, C = p.coeffs.shape[0], rows(r)
    s, T = cx.real('s', -0.5, 1.5), cx.real('T', 200, 400)
    for k in range(nb):
        cx.eq(f'{k}: of the state of charge', p(s, batch_id=k), poly(pick(p.coeffs, k).reshape(-1), s))
        cx.eq(f'{k}: of both', r(s, T, batch_id=k), st_value(r, k, s, T))
    cx.eq('all: of one state of charge', p(cx.arr([s])), cx.arr([poly(pick(p.coeffs, k).reshape(-1), s) for k in range(B)]))
    cx.eq('all: of one state', r(cx.arr([s]), cx.arr([T])), cx.arr([st_value(r, k, s, T) for k in range(C)]))
    ss, TT = cx.reals('ss', (nb,), -0.5, 1.5), cx.reals('TT', (nb,), 200, 400)
    cx.eq('all: of a state of charge each', p(ss), cx.arr([poly(pick(p.coeffs, k).reshape(-1), ss[k]) for k in range(nb)]))
    cx.eq('all: of a state each', r(ss, TT), cx.arr([st_value(r, k, ss[k], TT[k]) for k in range(nb)]))
    cx.eq('all: of a state of charge each', r(ss, cx.arr([T])), cx.arr([st_value(r, k, ss[k], T) for k in range(nb)]))
    cx.eq('all: of a temperature each', r(cx.arr([s]), TT), cx.arr([st_value(r, k, s, TT[k]) for k in range(nb)]))


def start(cx, rc):
    """The state a circuit starts from."""
    a = circuit(cx, rc)
    s, T = cx.real('s', -0.5, 1.5), cx.real('T', 200, 400)
    x = TheveninTransient.from_asoh(a, soc=s, temp=T)
    cx.eq('soc', x.soc, [[s]])
    cx.eq('temperature', x.temp, [[T]])
    cx.shape('overpotentials', x.eta, (1, rc))
    cx.eq('overpotentials', x.eta, np.zeros((1, rc)))
    x = TheveninTransient.from_asoh(a)
    cx.eq('soc: default', x.soc, [[0.]])
    cx.eq('temperature: default', x.temp, [[298.]])
    r = [soctemp(cx, f'z{j}', 1, 1, (), 1) for j in range(rc + 2)]
    cx.raises('too many resistors', ValueError, lambda: TheveninASOH(r=tuple(r), c=tuple(r[:rc])))
    if rc:
        cx.raises('too few resistors', ValueError, lambda: TheveninASOH(r=tuple(r[:rc]), c=tuple(r[:rc])))


FIELDS = ['capacity', 'mass', 'c_p', 'h_thermal', 'a_therm', 'ocv', 'r0.s', 'r0.t', 'r0.tr', 'soc', 'n.time', 'n.current', 'n.t_inf']
RC = ['r1.s', 'r1.t', 'r1.tr', 'c0.s', 'c0.t', 'c0.tr', 'eta']
SETS = {'all': FIELDS + RC + ['p.time', 'p.current', 'p.t_inf'], 'circuit': ['capacity', 'mass', 'ocv', 'r0.s', 'r1.t', 'c0.tr'], 'state': ['soc', 'eta'],
        'inputs': ['n.time', 'n.current', 'n.t_inf', 'p.time'], 'times': ['n.time', 'p.time'], 'mixed': ['r1.s', 'soc', 'n.current']}


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for rc in (0, 1, 2, 3, 4):
        out.append(Case(f'step-rc{rc}', step, dict(rc=rc)))
        out.append(Case(f'step-rc{rc}-isothermal', step, dict(rc=rc, isothermal=True)))
        out.append(Case(f'start-rc{rc}', start, dict(rc=rc)))
        out.append(Case(f'voltage-rc{rc}', volts, dict(rc=rc)))
    for f in FIELDS:
        out.append(Case(f'step-batch-{f}', step, dict(rc=0, batch=(f,))))
    for f in RC:
        out.append(Case(f'step-batch-{f}', step, dict(rc=1, batch=(f,))))
    for k, v in SETS.items():
        for nb in (2, 3):
            out.append(Case(f'step-batch-{k}-{nb}', step, dict(rc=1, batch=tuple(v), nb=nb)))
    out.append(Case('step-batch-all-rc2', step, dict(rc=2, batch=tuple(SETS['all'] + ['r2.s', 'r2.t', 'r2.tr', 'c1.s', 'c1.t', 'c1.tr']), nb=2)))
    for o, s, t in ((1, 1, 1), (3, 1, 2), (2, 3, 3)) + (((4, 4, 4),) if deep else ()):
        out.append(Case(f'step-poly-{o}{s}{t}', step, dict(rc=1, no=o, ns=s, nt=t)))
        out.append(Case(f'voltage-poly-{o}{s}{t}', volts, dict(rc=1, no=o, ns=s, nt=t)))
        out.append(Case(f'parameters-{o}{s}{t}', parameters, dict(nb=2, batch=('p', 'r.s', 'r.t', 'r.tr'), no=o, ns=s, nt=t)))
    out.append(Case('step-many', step, dict(rc=0, batch=('soc',), nb=20)))
    out.append(Case('voltage-many', volts, dict(rc=1, batch=('soc',), nb=20)))
    out.append(Case('step-two', step, dict(rc=1, steps=2)))
    out.append(Case('step-two-batch', step, dict(rc=1, steps=2, batch=tuple(SETS['all']))))
    out.append(Case('step-temperature-differs', step, dict(rc=0, differs=True)))
    for f in ('ocv', 'r0.s', 'r0.t', 'r0.tr', 'soc', 'temp', 'n.current', 'capacity', 'n.time'):
        out.append(Case(f'voltage-batch-{f}', volts, dict(rc=0, batch=(f,))))
    out.append(Case('voltage-batch-eta', volts, dict(rc=2, batch=('eta',))))
    for nb in (2, 3):
        out.append(Case(f'voltage-batch-all-{nb}', volts, dict(rc=2, batch=('ocv', 'r0.s', 'r0.t', 'r0.tr', 'soc', 'temp', 'eta', 'n.current'), nb=nb)))
        out.append(Case(f'voltage-batch-mixed-{nb}', volts, dict(rc=1, batch=('ocv', 'temp', 'eta'), nb=nb)))
        for i, bt in enumerate(((), ('p', 'r.s'), ('r.t',), ('r.tr',), ('p', 'r.s', 'r.t', 'r.tr'))):
            out.append(Case(f'parameters-batch{i}-{nb}', parameters, dict(nb=nb, batch=bt)))
    out.append(Case('step-batch-all-rc3', step, dict(rc=3, batch=tuple(SETS['all'] + ['r3.s', 'r2.s', 'c2.s', 'c1.t']), nb=3)))
    if deep:
        for nb in (4, 6):
            out.append(Case(f'step-batch-all-{nb}', step, dict(rc=1, batch=tuple(SETS['all']), nb=nb)))
    return out
