from symx.harness import Case
from .common import *

BOUNDS = ('OCV at 2 to 4 SOC points (default spacing), windows fixed per case in either order, batches 1 to 2; temperature and entropic '
          'coefficients arbitrary within the stated ranges')
ASSUMPTIONS = ['the trapezoid rule is the one on the evenly spaced grid of the code (100 points); any rule that is exact to 1e-3 relative is accepted']


def energy(cx, n, ent, temp, win, qb, ob):
    asoh = build_asoh(cx, ocv_nodes=n, ent=ent, batch=(('q_t',) if qb else ()) + (('ocv',) if ob else ()))
    T = cx.real('T', -60, 100) if temp else None
    lo, hi = min(win), max(win)
    e = asoh.get_theoretical_energy(soc_limits=win, temperature=T)
    nb = 2 if (qb or ob) else 1
    cx.shape('energy', e, (nb, 1))
    grid = [lo + (hi - lo) * k / 99 for k in range(100)]
    for b in range(nb):
        o = pick(asoh.ocv.ocv_ref.base_values, b)
        en = pick(asoh.ocv.ocv_ent.base_values, b)
        vals = []
        for g in grid:
            v = lininterp(cx, o, cx.const(g) if cx.symbolic else g)
            if temp:
                v = v + (T - one(asoh.ocv.ocv_ref.reference_temperature)) * lininterp(cx, en, cx.const(g) if cx.symbolic else g)
            vals.append(v)
        tot = vals[0] / 2 + vals[-1] / 2
        for v in vals[1:-1]:
            tot = tot + v
        want = tot * ((hi - lo) / 99 if not cx.symbolic else cx.const(hi - lo) / 99) * pick(asoh.q_t.base_values, b)[0]
        d = e[b, 0] - want
        # rounding of the grid (and any sound refinement of it) is far below 1e-6 of the result
        tol = 1e-6 * want if not temp else 1e-6 * pick(asoh.q_t.base_values, b)[0] * 20
        cx.le(f'energy[{b}] not above the integral', d, tol)
        cx.le(f'energy[{b}] not below the integral', -d, tol)
    return e


def order(cx):
    asoh = build_asoh(cx, ocv_nodes=3, ent=True)
    T = cx.real('T', -60, 100)
    cx.eq('either order', asoh.get_theoretical_energy((0.2, 0.9), T), asoh.get_theoretical_energy((0.9, 0.2), T))
    cx.eq('defaults', asoh.get_theoretical_energy(), asoh.get_theoretical_energy((0., 1.), None))


def constant(cx, win):
    asoh = build_asoh(cx, ocv_nodes=1)
    e = asoh.get_theoretical_energy(soc_limits=win)
    w = cx.const(abs(win[1] - win[0]))
    want = one(asoh.q_t.base_values) * one(asoh.ocv.ocv_ref.base_values) * w
    cx.le('not above', one(e) - want, 1e-6 * want)
    cx.le('not below', want - one(e), 1e-6 * want)


def linear(cx):
    asoh = build_asoh(cx, ocv_nodes=3)
    k = cx.real('k', 0.1, 10)
    e = asoh.get_theoretical_energy((0.1, 0.8))
    a2 = asoh.model_copy(deep=True)
    a2.q_t.base_values = a2.q_t.base_values * k
    cx.eq('capacity scales it', a2.get_theoretical_energy((0.1, 0.8)), e * k)
    a3 = asoh.model_copy(deep=True)
    a3.ocv.ocv_ref.base_values = a3.ocv.ocv_ref.base_values * k
    cx.eq('OCV scales it', a3.get_theoretical_energy((0.1, 0.8)), e * k)


def cases(tier):
    out = []
    for n, ent, temp, win, qb, ob in [(2, False, False, (0., 1.), 0, 0), (3, True, True, (0.2, 0.7), 0, 0), (3, True, True, (0.9, 0.1), 0, 0),
                                      (2, False, False, (0.25, 0.75), 1, 0), (2, True, True, (0., 1.), 0, 1), (2, False, False, (0.1, 1.), 1, 1),
                                      (4, True, True, (-0.1, 1.1), 0, 0), (3, False, False, (0.05, 0.3), 0, 0), (2, True, True, (-0.5, -0.1), 0, 0),
                                      (3, True, True, (1.05, 1.4), 0, 0), (2, False, False, (0.4, 0.4), 0, 0), (2, False, False, (0.48, 0.52), 0, 1)]:
        out.append(Case(f'energy-n={n}-ent={int(ent)}-temp={int(temp)}-{win}-qb={qb}-ob={ob}', energy, dict(n=n, ent=ent, temp=temp, win=win, qb=qb, ob=ob)))
    out.append(Case('order', order))
    out.append(Case('linear', linear))
    for w in ((0., 1.), (0.7, 0.2)):
        out.append(Case(f'constant-{w}', constant, dict(win=w)))
    return out
