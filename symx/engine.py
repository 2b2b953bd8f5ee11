"""Path exploration and solver queries."""
import math
import os
import random
import time
import traceback
from fractions import Fraction

import z3

from . import sym
from . import poly as P
from .sym import CTX, SymBool, SymReal, SymUnsupported, PathAbort, NONFINITE, signed, zpoly, zfrac


SLOW = os.environ.get('SYMX_SLOW')


class Stats:
    def __init__(self):
        self.d = dict(paths=0, decisions=0, forks=0, queries=0, solver_s=0., unsat=0, sat=0, unknown=0,
                      assertions=0, assertions_z3=0, assertions_ground=0, forced=0, aborted=0, reached=0,
                      counterexamples=0)

    def __getitem__(self, k):
        return self.d[k]

    def add(self, k, n=1):
        self.d[k] += n


class Violation(BaseException):
    def __init__(self, label, models, detail=''):
        self.label, self.models, self.detail = label, models, detail


class Inconclusive(BaseException):
    pass


class Rounding(BaseException):
    """The sides of an assertion look equal but for the rounding of constants: try again in the next mode."""


FEAS_MS = 4000
ASSERT_MS = int(os.environ.get('SYMX_ASSERT_MS', '40000'))


class Engine:
    def __init__(self, seed=1, max_paths=2000, deadline=None, assert_ms=None, feas_ms=None):
        self.stats = Stats()
        self.seed = seed
        self.max_paths = max_paths
        self.deadline = deadline
        self.assert_ms = assert_ms or ASSERT_MS
        self.feas_ms = feas_ms or FEAS_MS
        self.follow = None         # assignment to follow (validation runs) or None
        self.z3cache = {}
        self.witness = {}
        self.samples = []
        self.on_candidate = None

    # ------------------------------------------------------------ path handling
    def explore(self, fn):
        """Run fn() on every feasible path.  fn raises Violation on a refuted assertion."""
        prefix = []
        while True:
            if self.deadline and time.time() > self.deadline:
                raise Inconclusive('time budget of the case used up')
            if self.stats['paths'] >= self.max_paths:
                raise Inconclusive(f'more than {self.max_paths} paths')
            self._start(prefix)
            CTX.active = True
            try:
                fn()
                self.stats.add('reached')
                if self.stats['reached'] == 1:
                    self._witness()
            except PathAbort:
                self.stats.add('aborted')
            finally:
                CTX.active = False
            self.stats.add('paths')
            # backtrack: flip the last open decision
            t = self.trail
            while t and t[-1][1]:
                t.pop()
            if not t:
                return
            t[-1] = (not t[-1][0], True)
            prefix = t

    def _witness(self):
        """Reachability: the first path that got to its end must have a model (or a validation run must get there)."""
        self.inputs = [(v.name, None if v.lo is None else float(v.lo), None if v.hi is None else float(v.hi))
                       for v in CTX.vars if v.kind == 'in']
        self.nvars = len(CTX.vars)
        vs = set()
        for c in CTX.cons:
            vs |= c[1]
        if not vs:
            self.witness = {'result': 'sat', 'inputs': {}}
            return
        if CTX.cuts:            # left to the validation runs
            self.witness = {'result': 'unknown', 'inputs': None}
            return
        r, mdl = self.check([], vs, 5000, model=True)
        self.witness = {'result': r, 'inputs': self.model_inputs(mdl) if mdl is not None else None}

    def follow_run(self, fn, asg):
        """Run fn() once along the path the assignment takes."""
        self._start([])
        self.follow = dict(asg)
        CTX.active = True
        try:
            fn()
            return True
        except PathAbort:
            return False
        finally:
            CTX.active = False
            self.follow = None

    def _start(self, prefix):
        CTX.reset()
        CTX.engine = self
        self.trail = list(prefix)
        self.pos = 0
        self.known = {}
        self.conds = []

    # ------------------------------------------------------------ decisions
    def decide(self, sb):
        k = sb.key()
        if k in self.known:
            return self.known[k]
        if self.follow is not None:
            r = bool(sb.ev(self.follow))
            self._learn(sb, r)
            return r
        self.stats.add('decisions')
        if self.pos < len(self.trail):
            r = self.trail[self.pos][0]
            self.pos += 1
            self._learn(sb, r)
            return r
        z = sb.z3()
        vs = sb.vars()
        t = self.check([z], vs, self.feas_ms)
        if t == 'unsat':
            r, forced = False, True
        else:
            f = self.check([z3.Not(z)], vs, self.feas_ms)
            if f == 'unsat':
                r, forced = True, True
            else:
                r, forced = True, False
                self.stats.add('forks')
        if forced:
            self.stats.add('forced')
        self.trail.append((r, forced))
        self.pos += 1
        self._learn(sb, r)
        return r

    def _learn(self, sb, r):
        k = sb.key()
        self.known[k] = r
        inv = ~sb
        if isinstance(inv, SymBool):
            self.known[inv.key()] = not r
        self.conds.append((sb, r))
        c = sb if r else (inv if isinstance(inv, SymBool) else None)
        if c is not None and self.follow is None:
            CTX.cons.append((c.z3(), frozenset(c.vars()), 'path'))
            t = c.t
            if t[0] in ('lt', 'le') and len(t[1].num) > 1:
                sd = sym.sign_den(t[1].den) if t[1].den else '+'
                if sd in ('+', '-'):
                    g = '-' if sd == '+' else '+'
                    sym.learn_sign(t[1].num, g if t[0] == 'lt' else '0' + g)
            # sharpen the sign of a variable that a condition fixes
            if t[0] in ('lt', 'le', 'ne') and not t[1].den and len(t[1].num) == 1:
                (m, co), = t[1].num.items()
                if len(m) == 1 and m[0][1] == 1:
                    v = CTX.vars[m[0][0]]
                    if t[0] == 'ne':
                        if v.sign in ('0+', '0-'):
                            v.sign = v.sign[1]
                    else:
                        neg = co > 0            # co*v <(=) 0
                        s = ('-' if neg else '+') if t[0] == 'lt' else ('0-' if neg else '0+')
                        if v.sign == '?' or (v.sign == s[-1:] and False):
                            v.sign = s
                        elif v.sign in ('0+', '0-') and s in ('+', '-') and v.sign[1] == s:
                            v.sign = s

    def nonzero(self, x):
        s = sym.sign_poly(x.num)
        if s in ('+', '-'):
            return True
        if self.follow is None and len(x.num) > 1:
            # establish the sign if the path fixes it: denominators with a sign keep later queries simple
            vs = x.vars()
            p = zpoly(x.num)
            for cond, sg in ((p <= 0, '+'), (p >= 0, '-')):
                if self.check([cond], vs, 1500) == 'unsat':
                    sym.learn_sign(x.num, sg)
                    return True
        return bool(sym.mkcmp('ne', SymReal(x.num, ())))

    # ------------------------------------------------------------ solver
    def slice(self, vs):
        """Constraints connected to the variables vs."""
        vs = set(vs)
        rest = list(CTX.cons)
        out = []
        changed = True
        while changed:
            changed = False
            nxt = []
            for c in rest:
                if c[1] & vs or not c[1]:
                    out.append(c)
                    if not c[1] <= vs:
                        vs |= c[1]
                        changed = True
                else:
                    nxt.append(c)
            rest = nxt
        return out, vs

    def check(self, extra, vs, ms, model=False, kinds=None, raw_model=False):
        """'sat'/'unsat'/'unknown' of the path condition with extra; stages: without, then with, the axioms."""
        cons, allv = self.slice(vs)
        near = [c for c in cons if c[1] <= set(vs)]
        key = None
        if not model:
            key = (tuple(sorted(c[0].get_id() for c in cons)), tuple(e.get_id() for e in extra))
            hit = self.z3cache.get(key)
            if hit is not None:
                return hit[0]
        has_ax = any(c[2] in ('ax', 'ax2', 'def') for c in cons)
        stages = ([('path', 'dom', 'ax0')] if has_ax else []) + [('path', 'dom', 'ax0', 'ax', 'ax2', 'def')]
        res, mdl = 'unknown', None
        if not model and len(near) < len(cons):
            # the constraints over the variables of the question alone often decide it
            s = z3.SolverFor('QF_NRA')
            s.set('timeout', int(min(ms, 1500)))
            for c in near:
                s.add(c[0])
            for e in extra:
                s.add(e)
            t0 = time.time()
            r = str(s.check())
            self.stats.add('solver_s', time.time() - t0)
            self.stats.add('queries')
            if r == 'unsat':
                self.stats.add(r)
                self.z3cache[key] = (r, cons, extra)
                return r
        for i, st in enumerate(stages):
            s = z3.SolverFor('QF_NRA')
            s.set('timeout', int(ms if i == len(stages) - 1 else min(ms, 3000)))
            s.set('random_seed', self.seed % 1000)
            for c in cons:
                if c[2] in st:
                    s.add(c[0])
            for e in extra:
                s.add(e)
            t0 = time.time()
            r = str(s.check())
            self.stats.add('solver_s', time.time() - t0)
            self.stats.add('queries')
            self.stats.add(r)
            if SLOW and time.time() - t0 > 1:
                print(f'slow {time.time() - t0:.1f} {r} {st[-1]} {ms} {[str(e)[:150] for e in extra]}', flush=True)
            res = r
            if r == 'unsat':
                break
            if r == 'sat' and i == len(stages) - 1 and model:
                mdl = s.model()
        if key is not None:
            self.z3cache[key] = (res, cons, extra)     # keeps the ASTs alive, so ids stay unique
        if model:
            return res, mdl
        return res

    def model_inputs(self, mdl):
        out = {}
        for v in CTX.vars:
            if v.kind not in ('in', 'uf'):
                continue
            val = mdl.eval(v.z, model_completion=False)
            f = zval(val)
            if f is not None:
                out[v.name] = f
        return out

    # ------------------------------------------------------------ assumptions and assertions
    def assume(self, sb):
        k = sb.key()
        if k in self.known:
            if not self.known[k]:
                raise PathAbort()
            return
        if self.follow is not None:
            if not sb.ev(self.follow):
                raise PathAbort()
            return
        self._learn(sb, True)
        if self.check([], sb.vars(), min(self.feas_ms, 700)) == 'unsat':
            raise PathAbort()

    def prove_eq(self, label, pairs):
        todo = []
        for a, b in pairs:
            self.stats.add('assertions')
            if a is NONFINITE or b is NONFINITE:
                self.fail(label, 'the value is not finite (division by zero)')
                continue
            d = a - b
            if CTX.loose and d.num and rounding_only(a, b):
                d = SymReal({}, ())
            if not d.num:
                self.stats.add('assertions_ground')
                if CTX.loose:
                    continue
                if len(a.num) + len(b.num) > 400:
                    continue
            else:
                self.stats.add('assertions_z3')
            todo.append((a, b, d))
        if not todo:
            return
        negs, vs = [], set()
        for a, b, d in todo:
            negs.append(zpoly(a.num) * b.zden() != zpoly(b.num) * a.zden())
            vs |= a.vars() | b.vars()
        near = not CTX.loose and any(d.num and self.near(a, b, d) for a, b, d in todo)
        ms = self.assert_ms if len(todo) == 1 else min(self.assert_ms, 15000)
        r = self.check([z3.Or(*negs) if len(negs) > 1 else negs[0]], vs, min(ms, 3000) if near and not CTX.lift else ms)
        if r == 'unsat':
            return
        if near:
            raise Rounding()
        for (a, b, d), neg in zip(todo, negs):
            if not d.num:
                continue
            margins = []
            for eps in ('1/10', '1/1000', '1/1000000'):
                e = Fraction(eps)
                margins.append([z3.Or(signed(d - e) > 0, signed(d + e) < 0)])
            self.prove(label, neg, a.vars() | b.vars(), margins, d)

    def near(self, a, b, d):
        """At sampled points a and b agree to rounding (no verdict rests on this, only the choice of the mode)."""
        rnd = random.Random(self.seed + 5)
        got = 0
        for _ in range(30):
            asg = {}
            for v in CTX.vars:
                if v.kind in ('in', 'uf'):
                    lo = float(v.lo) if v.lo is not None else -3.
                    hi = float(v.hi) if v.hi is not None else max(lo, 0) + 3.
                    asg[v.name] = rnd.uniform(lo, hi)
            try:
                x, p, q = d.ev(dict(asg)), a.ev(dict(asg)), b.ev(dict(asg))
            except (KeyError, ValueError, ZeroDivisionError, OverflowError):
                continue
            if not all(map(math.isfinite, (x, p, q))):
                continue
            if abs(x) > 1e-9 * max(abs(p), abs(q), 1e-3):
                return False
            got += 1
            if got >= 6:
                return True
        return False

    def prove_le(self, label, pairs):
        for a, b in pairs:
            self.stats.add('assertions')
            if a is NONFINITE or b is NONFINITE:
                self.fail(label, 'the value is not finite (division by zero)')
                continue
            d = a - b
            s = d.sign()
            if s in ('0', '-', '0-'):
                self.stats.add('assertions_ground')
                continue
            self.stats.add('assertions_z3')
            margins = [[signed(d - Fraction(eps)) > 0] for eps in ('1/10', '1/1000', '1/1000000')]
            self.prove(label, signed(d) > 0, a.vars() | b.vars(), margins, d, pos=True)

    def prove_true(self, label, sb):
        self.stats.add('assertions')
        self.stats.add('assertions_z3')
        self.prove(label, z3.Not(sb.z3()), sb.vars(), [], None)

    def fail(self, label, detail=''):
        """The assertion is false on this path, whatever the inputs: a violation if the path is feasible."""
        vs = set()
        for c in CTX.cons:
            if c[2] == 'path':
                vs |= c[1]
        r = self.check([], vs, self.assert_ms)
        if r == 'unsat':
            raise PathAbort()
        models = self.find_models(vs, [], [])
        if not models and r == 'unknown':
            raise Inconclusive(f'{label}: {detail}; the path has no model')
        self.candidate(label, models or [{}], detail)

    def candidate(self, label, models, detail=''):
        """A counterexample: replay it on the real code; Violation if it reproduces there."""
        self.stats.add('counterexamples')
        if self.on_candidate is not None and self.on_candidate(label, models, detail, self.uf_table):
            return                      # a known finding, or not reproduced (recorded by the callback)
        raise Violation(label, models, detail)

    def uf_table(self, asg):
        """Values of the uninterpreted functions in a model: [(name, argument values, value)]."""
        out = []
        full = dict(asg)
        for v in CTX.vars:
            if v.kind == 'in' and v.name not in full:
                l = float(v.lo) if v.lo is not None else -1.
                h = float(v.hi) if v.hi is not None else l + 2
                full[v.name] = (l + h) / 2
        for key, (v, args) in CTX.uf_args.items():
            try:
                if v.name in asg:
                    out.append([key[0], [a.ev(full) for a in args], asg[v.name]])
            except (KeyError, OverflowError, ValueError):
                continue
        return out

    def prove(self, label, neg_exact, vs, neg_margin, d=None, pos=False):
        """neg_exact: the negated assertion; neg_margin: stronger negations, preferred for counterexamples."""
        r = self.check([neg_exact], vs, self.assert_ms)
        if r == 'unsat':
            return
        models = []
        if r == 'unknown':
            models = self.sample_models(d, pos=pos)
            if not models:
                r2 = self.retry([neg_exact], vs)
                if r2 == 'unsat':
                    return
                if r2 == 'sat':
                    r = r2
        models = models or self.find_models(vs, [neg_exact], neg_margin) or self.sample_models(d, 1000, pos=pos)
        if not models:
            raise Inconclusive(f'{label}: solver answered {r} and gave no counterexample')
        self.candidate(label, models, sym.show(d)[:300] if d is not None else '')

    def retry(self, extra, vs):
        """Other solver configurations for an unknown."""
        cons, _ = self.slice(vs)
        for mk in (lambda: z3.Solver(), lambda: z3.Tactic('qfnra-nlsat').solver(),
                   lambda: z3.Then('simplify', 'solve-eqs', 'purify-arith', 'qfnra-nlsat').solver()):
            s = mk()
            s.set('timeout', self.assert_ms)
            for c in cons:
                s.add(c[0])
            for e in extra:
                s.add(e)
            t0 = time.time()
            r = str(s.check())
            self.stats.add('solver_s', time.time() - t0)
            self.stats.add('queries')
            self.stats.add(r)
            if r != 'unknown':
                return r
        return 'unknown'

    def sample_models(self, d, tries=150, want=4, pos=False):
        """When the solver has no model: inputs on this path at which the difference d is far from zero."""
        if d is None:
            return []
        rnd = random.Random(self.seed + 17)
        ins = [v for v in CTX.vars if v.kind == 'in']
        found = []
        t_end = time.time() + 20
        for _ in range(tries):
            if time.time() > t_end:
                break
            asg = {}
            for v in ins:
                lo = float(v.lo) if v.lo is not None else -3.
                hi = float(v.hi) if v.hi is not None else max(lo, 0) + 3.
                asg[v.name] = rnd.uniform(lo, hi)
            try:
                full = dict(asg)
                if not all(bool(sb.ev(full)) == r for sb, r in self.conds):
                    continue
                x = d.ev(full)
                if x > 1e-4 or (x < -1e-4 and not pos):
                    found.append(asg)
                    if len(found) >= want:
                        break
            except (KeyError, ValueError, ZeroDivisionError, OverflowError):
                continue
        return found

    def find_models(self, vs, exact, margins, want=8):
        """Several concrete input assignments violating the assertion (as far as the solver can tell)."""
        rnd = random.Random(self.seed)
        found = []
        vs = set(vs)
        for c in CTX.cons:
            if c[2] == 'path':
                vs |= c[1]
        cands = list(margins) + [exact]
        ufs = [v for v in CTX.vars if v.kind == 'uf' and v.id in vs]
        if ufs:                # moderate values of the uninterpreted functions first: others show little but rounding
            box = [z3.And(v.z >= -8, v.z <= 8) for v in ufs]
            cands = [m + box for m in cands] + cands
        t_end = time.time() + 90
        # exp-consistent models: fix what the exponentials depend on, then re-solve
        for attempt in range(want):
            if time.time() > t_end:
                break
            got = None
            extra_pt = []
            if attempt:
                ins = [v for v in CTX.vars if v.kind == 'in']
                rnd.shuffle(ins)
                for v in ins[:min(len(ins), attempt)]:
                    lo = float(v.lo) if v.lo is not None else -10.
                    hi = float(v.hi) if v.hi is not None else max(lo, 0) + 10.
                    extra_pt.append(v.z == zfrac(Fraction(rnd.uniform(lo, hi)).limit_denominator(64)))
            for m in cands:
                r, mdl = self.check(m + extra_pt, vs, 15000 if m is cands[-1] else (8000 if not ufs else 4000), model=True)
                if mdl is not None:
                    got = (m, mdl)
                    break
            if got is None:
                continue
            m, mdl = got
            asg = self.model_inputs(mdl)
            found.append(asg)
            aux = [v for v in CTX.vars if v.kind in ('exp', 'log', 'uf') and v.ev is not None and v.kind != 'uf']
            if aux:
                fixed = self._expo_fix(asg)
                if fixed is not None:
                    for mm in cands:
                        r2, mdl2 = self.check(mm + fixed, vs, 8000, model=True)
                        if mdl2 is not None:
                            found.insert(0, self.model_inputs(mdl2))
                            break
        return found

    def _expo_fix(self, asg):
        """Pin inputs that transcendental arguments depend on, and the transcendental values (to 1e-9)."""
        ids = set()
        for k, x, val in CTX.exps:
            ids |= {i for i in x.vars() if CTX.vars[i].kind == 'in'}
        for k, v in CTX.ufs.items():
            if k[0] == 'log':
                return None
        full = dict(asg)
        out = []
        for v in CTX.vars:
            if v.kind == 'in' and v.name not in full:
                full[v.name] = float(v.lo if v.lo is not None else (v.hi if v.hi is not None else 0))
        for i in ids:
            out.append(CTX.vars[i].z == zfrac(Fraction(full[CTX.vars[i].name])))
        try:
            for v in CTX.vars:
                if v.kind == 'exp':
                    x = sym.var_value(v.id, full)
                    if not math.isfinite(x) or x <= 0:
                        return None
                    f = Fraction(x)
                    out.append(z3.And(v.z >= zfrac(f * (1 - Fraction(1, 10**9))), v.z <= zfrac(f * (1 + Fraction(1, 10**9)))))
        except (KeyError, ZeroDivisionError, OverflowError):
            return None
        return out


def rounding_only(a, b):
    """a and b differ in no coefficient by more than the rounding of the constants in them (third attempt only)."""
    x, y = a.num, b.num
    if a.den != b.den:
        for f, e in b.den:
            g = {((f[1], 1),): 1} if f[0] == 'v' else dict(f[1])
            for _ in range(e):
                x = P.pmul(x, g)
        for f, e in a.den:
            g = {((f[1], 1),): 1} if f[0] == 'v' else dict(f[1])
            for _ in range(e):
                y = P.pmul(y, g)
    scale = max((abs(c) for p in (x, y) for c in p.values()), default=0)
    return all(abs(c) <= scale / 10**13 for c in P.psub(x, y).values())


def zval(val):
    if z3.is_rational_value(val):
        f = Fraction(val.numerator_as_long(), val.denominator_as_long())
        try:
            return float(f)
        except OverflowError:
            return None
    if z3.is_algebraic_value(val):
        a = val.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return None
