"""Symbolic reals and booleans that flow through unmodified Python / numpy-object code."""
import dis
import math
import numbers
import sys
from fractions import Fraction

import numpy as np
import z3

from . import poly as P

INF = float('inf')
_PERCENT = tuple(bytes([dis.opmap['BINARY_OP'], k]) for k in (6, 19))


class SymUnsupported(BaseException):
    """The code asked for something the engine cannot represent: the run is inconclusive, never a verdict."""


class PathAbort(BaseException):
    """Stop this path (assumption not met, or the engine has what it needs)."""


class Ctx:
    """State of the path being executed (there is one at a time)."""
    active = False
    engine = None
    loose = False         # third attempt: constants equal up to float rounding are equal
    lift = False          # second attempt: arrays of plain floats made by the code can hold symbolic values

    def reset(self):
        self.vars = []
        self.byname = {}
        self.rules = {}
        self.cons = []        # (z3 expr, frozenset(varids), kind)   kind in path / dom / ax
        self.exp_units = {}
        self.exps = []
        self.tokens = {}        # number in a text -> symbolic value
        self.sqrts = {}
        self.ufs = {}
        self.undefined = False
        self.zmono = {}
        self.psign = {}       # primitive polynomial -> sign established on this path
        self.uf_args = {}
        self.cut = None         # products name operands with more terms than this
        self.cuts = {}          # primitive polynomial -> variable standing for it


CTX = Ctx()
CTX.reset()


class Var:
    __slots__ = ('id', 'name', 'z', 'sign', 'lo', 'hi', 'kind', 'ev')

    def __init__(self, name, sign, lo, hi, kind, ev):
        self.id = len(CTX.vars)
        self.name = name
        self.z = z3.Real(name)
        self.sign = sign    # '+', '0+', '?', '0-', '-'
        self.lo, self.hi = lo, hi
        self.kind = kind
        self.ev = ev
        CTX.vars.append(self)
        CTX.byname[name] = self


def new_input(name, lo=None, hi=None):
    """A fresh real input lo <= x <= hi."""
    if name in CTX.byname:
        raise SymUnsupported(f'input {name} declared twice')
    lo = None if lo is None else tofrac(lo)
    hi = None if hi is None else tofrac(hi)
    sign = '?'
    if lo is not None and lo > 0:
        sign = '+'
    elif lo is not None and lo == 0:
        sign = '0+'
    elif hi is not None and hi < 0:
        sign = '-'
    elif hi is not None and hi == 0:
        sign = '0-'
    v = Var(name, sign, lo, hi, 'in', None)
    if lo is not None:
        CTX.cons.append((v.z >= zfrac(lo), frozenset([v.id]), 'dom'))
    if hi is not None:
        CTX.cons.append((v.z <= zfrac(hi), frozenset([v.id]), 'dom'))
    return var_sym(v)


def var_sym(v):
    return SymReal({((v.id, 1),): 1}, ())


def zfrac(c):
    c = Fraction(c)
    return z3.RealVal(c.numerator) if c.denominator == 1 else z3.RealVal(str(c))


_float_cache = {}


def tofrac(x):
    """A Python number as an exact rational: floats are read as the simple rational or decimal they denote."""
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, Fraction):
        return P.nrm(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        r = _float_cache.get(x)
        if r is None:
            if x != x or x in (INF, -INF):
                return None
            f = Fraction(x).limit_denominator(1000000)
            if float(f) != x:
                f = Fraction(repr(x))
                if len(repr(x).split('e')[0].replace('.', '').strip('-0')) >= 15:      # the outcome of rounding
                    e = Fraction(10) ** math.floor(math.log10(abs(x)))
                    for unit in (1, e):
                        for top, tol in ((1000000, 2e-15),) + (((5000, 1e-14),) if CTX.loose else ()):
                            g = (Fraction(x) / unit).limit_denominator(top) * unit
                            if g and abs(g - Fraction(x)) <= tol * abs(x):
                                f = g
                                break
                        else:
                            continue
                        break
            r = _float_cache[x] = P.nrm(f)
        return r
    return NotImplemented


# ------------------------------------------------------------------ z3 conversion
def zmono(m):
    r = CTX.zmono.get(m)
    if r is None:
        fs = []
        for v, e in m:
            fs += [CTX.vars[v].z] * e
        r = fs[0] if len(fs) == 1 else z3.Product(*fs)
        CTX.zmono[m] = r
    return r


def zpoly(p):
    if not p:
        return z3.RealVal(0)
    ts = []
    for m, c in p.items():
        if not m:
            ts.append(zfrac(c))
        elif c == 1:
            ts.append(zmono(m))
        else:
            ts.append(zfrac(c) * zmono(m))
    return ts[0] if len(ts) == 1 else z3.Sum(*ts)


# ------------------------------------------------------------------ denominators: tuple of (factor, exp)
# factor: ('v', id) or ('p', frozenpoly)
def fpoly(f):
    return {((f[1], 1),): 1} if f[0] == 'v' else dict(f[1])


def den_merge(d1, d2):
    if not d1:
        return d2
    if not d2:
        return d1
    d = dict(d1)
    for f, e in d2:
        d[f] = d.get(f, 0) + e
    return tuple(sorted(d.items()))


def den_lcm(d1, d2):
    d = dict(d1)
    for f, e in d2:
        if d.get(f, 0) < e:
            d[f] = e
    return tuple(sorted(d.items()))


def den_quot(big, small):
    """big/small, small divides big -> list of (factor, exp)"""
    s = dict(small)
    return [(f, e - s.get(f, 0)) for f, e in big if e > s.get(f, 0)]


def expand_factors(fs):
    r = P.const(1)
    for f, e in fs:
        r = rmul(r, P.ppow(fpoly(f), e, CTX.rules))
    return r


def rmul(a, b):
    return P.reduce_alg(P.pmul(a, b), CTX.rules) if CTX.rules else P.pmul(a, b)


def cut(p):
    """A long polynomial as (constant, variable that equals its primitive part); the definition is kept for the solver."""
    c, pp = P.primitive(p)
    k = P.freeze(pp)
    v = CTX.cuts.get(k)
    if v is None:
        ids = P.pvars(pp)
        if any(CTX.vars[i].kind == 'cut' for i in ids):
            return None
        x = SymReal(pp, ())
        v = Var(f'cut#{len(CTX.vars)}', sign_poly(pp) if sign_poly(pp) != '0' else '?', None, None, 'cut', lambda a: x.ev(a))
        CTX.cuts[k] = v
        CTX.cons.append((v.z == zpoly(pp), frozenset(ids | {v.id}), 'def'))
    return c, v


def cut_poly(p):
    if CTX.cut is None or len(p) <= CTX.cut:
        return p
    r = cut(p)
    return p if r is None else {((r[1].id, 1),): r[0]}


def den_vars(den):
    s = set()
    for f, _ in den:
        if f[0] == 'v':
            s.add(f[1])
        else:
            s |= P.pvars(dict(f[1]))
    return s


_SMUL = {('+', '+'): '+', ('+', '-'): '-', ('-', '+'): '-', ('-', '-'): '+'}


def smul(a, b):
    if a == '?' or b == '?':
        return '?'
    if a == '0' or b == '0':
        return '0'
    s = '+' if (a[-1] == b[-1]) else '-'
    return s if ('0' not in a and '0' not in b) else '0' + s


def sign_mono(m):
    s = '+'
    for v, e in m:
        vs = CTX.vars[v].sign
        if e % 2 == 0:
            vs = '+' if vs in ('+', '-') else '0+'
        s = smul(s, vs)
        if s == '?':
            return s
    return s


def sign_poly(p):
    """'+', '-', '0+', '0-', '0' or '?' : a sound sign, syntactic or established on this path."""
    s = _sign_poly(p)
    if s in '?0+0-' and len(p) > 1 and CTX.psign and s != '0':
        c, pp = P.primitive(p)
        k = CTX.psign.get(P.freeze(pp))
        if k is not None and (s == '?' or '0' not in k):
            return k if c > 0 else {'+': '-', '-': '+', '0+': '0-', '0-': '0+'}[k]
    return s


def learn_sign(p, s):
    """Record the sign s of polynomial p on this path."""
    if len(p) < 2:
        return
    c, pp = P.primitive(p)
    if c < 0:
        s = {'+': '-', '-': '+', '0+': '0-', '0-': '0+'}[s]
    k = P.freeze(pp)
    if '0' in CTX.psign.get(k, '0'):
        CTX.psign[k] = s


def _sign_poly(p):
    if not p:
        return '0'
    tot = None
    for m, c in p.items():
        s = sign_mono(m)
        if s == '?':
            return '?'
        if c < 0:
            s = {'+': '-', '-': '+', '0+': '0-', '0-': '0+', '0': '0'}[s]
        if tot is None:
            tot = s
        elif tot == s:
            pass
        elif tot[-1] == s[-1]:
            tot = tot if '0' not in tot else s     # one strict is enough
        else:
            return '?'
    return tot


def sign_den(den):
    s = '+'
    for f, e in den:
        fs = CTX.vars[f[1]].sign if f[0] == 'v' else sign_poly(dict(f[1]))
        if e % 2 == 0:
            continue            # nonzero is guaranteed when the factor entered a denominator
        if fs in ('0+', '0'):
            fs = '+'
        elif fs == '0-':
            fs = '-'
        s = smul(s, fs)
    return s


class SymReal:
    """num / prod(den), a canonical-ish rational function."""
    __slots__ = ('num', 'den', '_key')

    def __init__(self, num, den=()):
        self.num = num
        self.den = den
        self._key = None

    # ---- construction
    @staticmethod
    def make(num, den):
        if not num:
            return SymReal({}, ())
        if den:
            out = []
            for f, e in den:
                if f[0] == 'v':
                    c = dict(P.mono_content(num)).get(f[1], 0)
                    k = min(c, e)
                    if k:
                        num = P.pdivmono(num, ((f[1], k),))
                        e -= k
                elif len(num) > 1:
                    fp = dict(f[1])
                    while e:
                        q = P.pdiv_exact(num, fp)
                        if q is None:
                            break
                        num = q
                        e -= 1
                if e:
                    out.append((f, e))
            den = tuple(out)
        return SymReal(num, den)

    @staticmethod
    def lift(x):
        if type(x) is SymReal:
            return x
        if isinstance(x, SymReal):
            return x
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return SymReal.lift(x.item())
        f = tofrac(x)
        if f is NotImplemented:
            return NotImplemented
        if f is None:
            return NONFINITE
        return SymReal(P.const(f), ())

    # ---- inspection
    def is_const(self):
        return not self.den and (not self.num or (len(self.num) == 1 and P.ONE in self.num))

    def const_value(self):
        return self.num.get(P.ONE, 0)

    def key(self):
        if self._key is None:
            self._key = (P.freeze(self.num), self.den)
        return self._key

    def vars(self):
        return P.pvars(self.num) | den_vars(self.den)

    def sign(self):
        return smul(sign_poly(self.num), sign_den(self.den)) if self.num else '0'

    def z3(self):
        n = zpoly(self.num)
        if not self.den:
            return n
        d = [zpoly(fpoly(f)) for f, e in self.den for _ in range(e)]
        return n / (d[0] if len(d) == 1 else z3.Product(*d))

    def zden(self):
        d = [zpoly(fpoly(f)) for f, e in self.den for _ in range(e)]
        return z3.RealVal(1) if not d else d[0] if len(d) == 1 else z3.Product(*d)

    def ev(self, asg):
        """Numeric value (float) under {name: float} for the inputs."""
        def vv(v):
            return var_value(v, asg)
        n = 0.
        for m, c in self.num.items():
            t = float(c)
            for v, e in m:
                t *= vv(v) ** e
            n += t
        for f, e in self.den:
            if f[0] == 'v':
                d = vv(f[1])
            else:
                d = 0.
                for m, c in f[1]:
                    t = float(c)
                    for v, x in m:
                        t *= vv(v) ** x
                    d += t
            try:
                n /= d ** e
            except ZeroDivisionError:
                return float('nan')
        return n

    # ---- arithmetic
    def __add__(self, o):
        o = SymReal.lift(o)
        if o is NotImplemented:
            return o
        if o is NONFINITE:
            return o
        if not o.num:
            return self
        if not self.num:
            return o
        if self.den == o.den:
            n = P.padd(self.num, o.num)
            return SymReal.make(n, self.den) if self.den else SymReal(n, ())
        den = den_lcm(self.den, o.den)
        a = self.num
        for f, e in den_quot(den, self.den):
            a = rmul(a, P.ppow(fpoly(f), e, CTX.rules))
        b = o.num
        for f, e in den_quot(den, o.den):
            b = rmul(b, P.ppow(fpoly(f), e, CTX.rules))
        return SymReal.make(P.padd(a, b), den)

    __radd__ = __add__

    def __neg__(self):
        return SymReal(P.pneg(self.num), self.den)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = SymReal.lift(o)
        return o if o is NotImplemented else self + (-o)

    def __rsub__(self, o):
        o = SymReal.lift(o)
        return o if o is NotImplemented else o + (-self)

    def __mul__(self, o):
        o = SymReal.lift(o)
        if o is NotImplemented:
            return o
        if o is NONFINITE:
            return o
        if not self.num or not o.num:
            return ZERO
        a, b = self, o
        if CTX.cut is not None and not a.is_const() and not b.is_const():
            if len(a.num) > CTX.cut:
                a = SymReal(cut_poly(a.num), a.den)
            if len(b.num) > CTX.cut:
                b = SymReal(cut_poly(b.num), b.den)
        # cancel across before multiplying
        if a.den or b.den:
            x = SymReal.make(a.num, b.den) if b.den else SymReal(a.num, ())
            y = SymReal.make(b.num, a.den) if a.den else SymReal(b.num, ())
            n = rmul(x.num, y.num)
            den = den_merge(x.den, y.den)
            return SymReal.make(n, den) if CTX.rules else SymReal(n, den) if n else ZERO
        return SymReal(rmul(a.num, b.num), ())

    __rmul__ = __mul__

    def inverse(self):
        if not self.num:
            return _undefined()
        if self.is_const():
            return SymReal(P.const(P.cdiv(1, self.const_value())), ())
        if not CTX.engine.nonzero(self):
            return _undefined()
        num = expand_factors(self.den) if self.den else P.const(1)
        p = cut_poly(self.num)
        mono = P.mono_content(p)
        p = P.pdivmono(p, mono)
        den = {}
        for v, e in mono:
            if v in CTX.rules:          # 1/s = s/s^2 for algebraic s (e is 1)
                num = rmul(num, {((v, 1),): 1})
                r = SymReal(P.const(1), ())
                inv = SymReal(CTX.rules[v], ()).inverse()
                k = SymReal.make(num, tuple(sorted(den.items()))) * inv
                num, den = k.num, dict(k.den)
            else:
                den[('v', v)] = den.get(('v', v), 0) + e
        if len(p) == 1:
            (_, c), = p.items()
            num = P.pscale(num, P.cdiv(1, c))
        else:
            c, pp = P.primitive(p)
            num = P.pscale(num, P.cdiv(1, c))
            f = ('p', P.freeze(pp))
            den[f] = den.get(f, 0) + 1
        return SymReal.make(num, tuple(sorted(den.items())))

    def __truediv__(self, o):
        o = SymReal.lift(o)
        if o is NotImplemented:
            return o
        if o is NONFINITE:
            return o
        return self * o.inverse()

    def __rtruediv__(self, o):
        o = SymReal.lift(o)
        return o if o is NotImplemented else o * self.inverse()

    def __pow__(self, n):
        n = SymReal.lift(n)
        if n is NotImplemented or n is NONFINITE:
            return n
        if n.is_const():
            c = n.const_value()
            if c == Fraction(1, 2):
                return self.sqrt()
            if isinstance(c, int):
                if c >= 0:
                    r = SymReal(P.const(1), ())
                    for _ in range(c):
                        r = r * self
                    return r
                return (self ** (-c)).inverse()
            if c == Fraction(-1, 2):
                return self.sqrt().inverse()
        return (n * self.log()).exp()

    def __rpow__(self, o):
        o = SymReal.lift(o)
        return o if o is NotImplemented else o ** self

    def __abs__(self):
        s = self.sign()
        if s in ('+', '0+', '0'):
            return self
        if s in ('-', '0-'):
            return -self
        return self if (self >= 0) else -self

    def __floordiv__(self, o):
        o = SymReal.lift(o)
        if o is NotImplemented or o is NONFINITE:
            return o
        r = self / o
        return r if r is NONFINITE else sym_round(r, 'floor')

    def __mod__(self, o):
        o = SymReal.lift(o)
        if o is NotImplemented or o is NONFINITE:
            return o
        return self - o * (self // o)

    def __divmod__(self, o):
        return self // o, self % o

    def __rfloordiv__(self, o):
        o = SymReal.lift(o)
        return o if o is NotImplemented else o // self

    def __rmod__(self, o):
        o = SymReal.lift(o)
        return o if o is NotImplemented else o % self

    def __rdivmod__(self, o):
        o = SymReal.lift(o)
        return o if o is NotImplemented else divmod(o, self)

    # ---- comparisons
    def _cmp(self, o, op, swap=False):
        if isinstance(o, (float, np.floating)) and o in (INF, -INF):
            pos = (o > 0)
            if op in ('eq',):
                return False
            if op == 'ne':
                return True
            less = pos != swap        # self < inf  (swap: inf < self)
            return less if op in ('lt', 'le') else not less
        o = SymReal.lift(o)
        if o is NotImplemented:
            return NotImplemented
        if o is NONFINITE:
            return op == 'ne'
        d = (self - o) if not swap else (o - self)
        return mkcmp(op, d)

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'lt', swap=True)

    def __ge__(self, o):
        return self._cmp(o, 'le', swap=True)

    def __eq__(self, o):
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        return self._cmp(o, 'ne')

    def __hash__(self):
        return hash(self.key())

    def __bool__(self):
        return bool(self != 0)

    # ---- conversions
    def __float__(self):
        if self.is_const():
            return float(self.const_value())
        f = sys._getframe(1)
        if f.f_code.co_code[f.f_lasti:f.f_lasti + 2] in _PERCENT:      # '...%f...' % x : a message
            return float('nan')
        raise SymUnsupported('a symbolic value was turned into a float')

    def __int__(self):
        if self.is_const():
            return int(self.const_value())
        return small_int(sym_round(self, 'trunc'))

    __index__ = None

    def __complex__(self):
        raise SymUnsupported('complex of a symbolic value')

    def __round__(self, n=None):
        return small_int(sym_round(self, 'rint')) if n is None else self.round(n)

    def __floor__(self):
        return small_int(sym_round(self, 'floor'))

    def __ceil__(self):
        return small_int(sym_round(self, 'ceil'))

    def __trunc__(self):
        return small_int(sym_round(self, 'trunc'))

    def round(self, decimals=0, out=None):
        k = 10 ** abs(int(decimals))
        return sym_round(self * k, 'rint') / k if decimals >= 0 else sym_round(self / k, 'rint') * k

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return f'<sym {show(self)}>'

    def __format__(self, spec):
        return repr(self)

    # ---- attributes numbers have
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    def item(self):
        return self

    def is_integer(self):
        raise SymUnsupported('is_integer')

    # ---- transcendental (numpy object ufuncs call these methods)
    def exp(self):
        return sym_exp(self)

    def expm1(self):
        return sym_exp(self) - 1

    def log(self):
        return sym_log(self)

    def log1p(self):
        return sym_log(self + 1)

    def log10(self):
        return sym_log(self) / sym_log(SymReal.lift(10))

    def log2(self):
        return sym_log(self) / sym_log(SymReal.lift(2))

    def sqrt(self):
        return sym_sqrt(self)

    def square(self):
        return self * self

    def fabs(self):
        return abs(self)

    def tanh(self):
        e = sym_exp(self * 2)
        return (e - 1) / (e + 1)

    def sinh(self):
        e = sym_exp(self)
        return (e - 1 / e) / 2

    def cosh(self):
        e = sym_exp(self)
        return (e + 1 / e) / 2

    def exp2(self):
        return sym_exp(self * sym_log(SymReal.lift(2)))

    def sin(self):
        return sym_uf('sin', (self,), math.sin)

    def cos(self):
        return sym_uf('cos', (self,), math.cos)

    def rint(self):
        return sym_round(self, 'rint')

    def floor(self):
        return sym_round(self, 'floor')

    def ceil(self):
        return sym_round(self, 'ceil')

    def trunc(self):
        return sym_round(self, 'trunc')


numbers.Number.register(SymReal)


class _NonFinite(SymReal):
    """The result of dividing by zero (inf or nan): absorbs arithmetic, compares false."""
    __slots__ = ()

    def __init__(self):
        super().__init__({}, ())

    def _self(self, *a, **k):
        return self

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _self
    __neg__ = __pos__ = __abs__ = __pow__ = __rpow__ = inverse = _self
    exp = log = sqrt = expm1 = log1p = square = tanh = sinh = cosh = log10 = log2 = sin = cos = fabs = _self

    def _f(self, o):
        return False

    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = _f

    def __ne__(self, o):
        return True

    def __hash__(self):
        return 7

    def __bool__(self):
        return True

    def is_const(self):
        return False

    def key(self):
        return 'nonfinite'

    def ev(self, asg):
        return float('nan')

    def vars(self):
        return set()

    def __float__(self):
        return float('nan')

    def __repr__(self):
        return '<nonfinite>'


NONFINITE = _NonFinite()
ZERO = SymReal({}, ())


def _undefined():
    CTX.undefined = True
    return NONFINITE


def show(s, limit=6):
    def mono(m):
        return '*'.join(CTX.vars[v].name + (f'^{e}' if e > 1 else '') for v, e in m)

    def pol(p):
        ts = [(f'{c}' if not m else (mono(m) if c == 1 else f'{c}*{mono(m)}')) for m, c in list(p.items())[:limit]]
        return ' + '.join(ts) + (f' + ..({len(p)} terms)' if len(p) > limit else '') or '0'
    try:
        r = pol(s.num)
        if s.den:
            r = f'({r})/(' + ' * '.join(f'({pol(fpoly(f))})' + (f'^{e}' if e > 1 else '') for f, e in s.den) + ')'
        return r
    except Exception:
        return '?'


# ------------------------------------------------------------------ numeric evaluation of auxiliary variables
def var_value(vid, asg):
    v = CTX.vars[vid]
    x = asg.get(v.name)
    if x is None:
        if v.ev is None:
            raise KeyError(v.name)
        x = asg[v.name] = v.ev(asg)
    return x


# ------------------------------------------------------------------ exp / log / sqrt / uninterpreted functions
def _safe_exp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return float('inf')


def sym_exp(x):
    if x is NONFINITE:
        return x
    if not x.num:
        return SymReal(P.const(1), ())
    val = SymReal(P.const(1), ())
    for m, c in x.num.items():
        t = SymReal.make({m: 1}, x.den)
        k = t.key()
        # the coefficient may have been absorbed: t = m/den exactly (coefficient 1)
        units = CTX.exp_units.setdefault(k, [])
        done = False
        for unit, v in units:
            r = Fraction(c) / Fraction(unit)
            if r.denominator == 1 and abs(r) <= 6:
                f = var_sym(v)
                val = val * (f ** int(r))
                done = True
                break
        if not done:
            arg = SymReal(P.pscale(t.num, c), t.den)
            v = Var(f'exp#{len(CTX.vars)}', '+', 0, None, 'exp', lambda a, arg=arg: _safe_exp(arg.ev(a)))
            CTX.cons.append((v.z > 0, frozenset([v.id]), 'dom'))
            sg = arg.sign()
            if sg in '-0-' and sg != '0':
                CTX.cons.append((v.z < 1 if sg == '-' else v.z <= 1, frozenset([v.id]), 'dom'))
            elif sg in '+0+' and sg != '0':
                CTX.cons.append((v.z > 1 if sg == '+' else v.z >= 1, frozenset([v.id]), 'dom'))
            for unit, w in units:
                r = Fraction(unit) / Fraction(c)
                if r.denominator == 1 and abs(r) <= 6:
                    n = int(r)
                    e = (z3.Product(*([v.z] * n)) if n > 1 else v.z) if n > 0 else None
                    if n > 0:
                        CTX.cons.append((w.z == e, frozenset([v.id, w.id]), 'ax'))
                    else:
                        e = z3.Product(*([v.z] * (-n))) if n < -1 else v.z
                        CTX.cons.append((w.z * e == 1, frozenset([v.id, w.id]), 'ax'))
            units.append((c, v))
            val = val * var_sym(v)
    key = x.key()
    if not any(k == key for k, _, _ in CTX.exps):
        CTX.exps.append((key, x, val))
        exp_axioms(x, val)
    return val


def exp_axioms(x, val):
    """sign/monotone axioms of one exponential against the others."""
    vs = frozenset(x.vars() | val.vars())
    zx, zv = signed(x), signed(val - 1)          # polynomials with the sign of x, val-1
    CTX.cons.append((z3.And(z3.Implies(zx > 0, zv > 0), z3.Implies(zx < 0, zv < 0), z3.Implies(zx == 0, zv == 0)), vs, 'ax'))
    zt = signed(val - 1 - x)
    CTX.cons.append((zt >= 0, vs, 'ax'))
    for _, y, w in CTX.exps[:-1][-6:]:
        d, e = x - y, val - w
        if d.is_const() and not d.num:
            continue
        zd, ze = signed(d), signed(e)
        vs2 = frozenset(d.vars() | e.vars() | x.vars() | y.vars())
        CTX.cons.append((z3.And(z3.Implies(zd > 0, ze > 0), z3.Implies(zd < 0, ze < 0), z3.Implies(zd == 0, ze == 0)), vs2, 'ax2'))


def signed(x):
    """z3 term with the same sign as x (den cleared)."""
    s = sign_den(x.den)
    n = zpoly(x.num)
    if s == '+':
        return n
    if s == '-':
        return -n
    odd = [zpoly(fpoly(f)) for f, e in x.den if e % 2]
    return n * (odd[0] if len(odd) == 1 else z3.Product(*odd))


def sym_log(x):
    if x is NONFINITE:
        return x
    if x.is_const():
        c = x.const_value()
        if c == 1:
            return ZERO
        if c <= 0:
            return _undefined()
    elif not bool(x > 0):
        return _undefined()
    # log of a product of positive exponentials
    key = ('log', x.key())
    v = CTX.ufs.get(key)
    if v is None:
        v = Var(f'log#{len(CTX.vars)}', '?', None, None, 'log', lambda a: math.log(x.ev(a)))
        CTX.ufs[key] = v
        vs = frozenset(x.vars() | {v.id})
        l = var_sym(v)
        zx = signed(x - 1)
        CTX.cons.append((z3.And(z3.Implies(zx > 0, v.z > 0), z3.Implies(zx < 0, v.z < 0), z3.Implies(zx == 0, v.z == 0)), vs, 'ax'))
        CTX.cons.append((signed(x - 1 - l) >= 0, vs, 'ax'))
    return var_sym(v)


def _square_root_poly(p):
    """q with q*q == p for a monomial p, as (coefficient sqrt, monomial) or None"""
    if len(p) != 1:
        return None
    (m, c), = p.items()
    c = Fraction(c)
    if c <= 0 or any(e % 2 for _, e in m):
        return None
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a != c.numerator or b * b != c.denominator:
        return None
    return P.nrm(Fraction(a, b)), tuple((v, e // 2) for v, e in m)


def sym_sqrt(x):
    if x is NONFINITE or not x.num:
        return x
    s = x.sign()
    if s in ('-',):
        return _undefined()
    if s not in ('+', '0+') and not bool(x >= 0):
        return _undefined()
    r = SymReal(P.const(1), ())
    num = x.num
    outer = SymReal(P.const(1), ())
    if x.den:
        # sqrt(n/prod f^e) = sqrt(n * prod_{odd} f) / prod |f|^{ceil(e/2)}
        for f, e in x.den:
            if e % 2 and CTX.cut is not None and len(num) * len(fpoly(f)) > 400:
                p = SymReal(fpoly(f), ())
                if p.sign() == '+':
                    outer = outer * p.sqrt() * p ** (e // 2)
                    continue
            if e % 2:
                num = rmul(num, fpoly(f))
                if s == '+':
                    learn_sign(num, smul(sign_poly(x.num), sign_den(tuple((g, k) for g, k in x.den if g <= f))))
            h = (e + 1) // 2
            fa = abs(SymReal(fpoly(f), ()))
            outer = outer * (fa ** h)
    q = _square_root_poly(num)
    if q is not None:
        c, m = q
        r = SymReal(P.const(c), ())
        for v, e in m:
            r = r * (abs(SymReal({((v, 1),): 1}, ())) ** e)
        return r / outer
    q = _poly_sqrt(num)
    if q is not None:
        return abs(SymReal(q, ())) / outer
    # pull out square monomial content
    mono = P.mono_content(num)
    sq = tuple((v, e - e % 2) for v, e in mono if e >= 2)
    if sq:
        num = P.pdivmono(num, sq)
        for v, e in sq:
            r = r * (abs(SymReal({((v, 1),): 1}, ())) ** (e // 2))
    # constant: pull out square factor
    if len(num) == 1 and P.ONE in num:
        c = Fraction(num[P.ONE])
        n = c.numerator * c.denominator
        k, f = 1, 2
        m_ = n
        while f * f <= m_ and f < 2000:
            while m_ % (f * f) == 0:
                m_ //= f * f
                k *= f
            f += 1
        r = r * Fraction(k, c.denominator)
        num = P.const(m_)
        if m_ == 1:
            return r / outer
    key = P.freeze(num)
    v = CTX.sqrts.get(key)
    if v is None:
        rad = SymReal(dict(num), ())
        v = Var(f'sqrt#{len(CTX.vars)}', '+' if rad.sign() == '+' else '0+', 0, None, 'sqrt',
                lambda a: math.sqrt(max(rad.ev(a), 0.)))
        CTX.sqrts[key] = v
        CTX.rules[v.id] = num
        CTX.cons.append((z3.And(v.z * v.z == zpoly(num), v.z >= 0), frozenset({v.id} | P.pvars(num)), 'ax0'))
    return r * var_sym(v) / outer


def _poly_sqrt(p):
    """Polynomial square root if p is a perfect square (small polynomials only)."""
    if len(p) > 60 or len(p) < 3:
        return None
    order = sorted(P.pvars(p))
    lead = max(p, key=lambda m: P._lexkey(m, order))
    q = _square_root_poly({lead: p[lead]})
    if q is None:
        return None
    c, m = q
    root = {m: c}
    rem = P.psub(p, P.pmul(root, root))
    lead2 = {m: 2 * c}
    for _ in range(40):
        if not rem:
            return root
        lm = max(rem, key=lambda k: P._lexkey(k, order))
        d = P.mdiv(lm, m)
        if d is None:
            return None
        t = {d: P.cdiv(rem[lm], 2 * c)}
        rem = P.psub(rem, P.padd(P.pscale(P.pmul(root, t), 2), P.pmul(t, t)))
        if d in root:
            return None
        root = P.padd(root, t)
    return None


_ROUND = {'rint': lambda x: float(np.rint(x)), 'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}


def sym_round(x, mode):
    """A value next to x (that it is whole is left out, so what holds here holds for the rounded value)."""
    x = SymReal.lift(x)
    if x is NONFINITE:
        return x
    if x.is_const():
        c = Fraction(x.const_value())
        return SymReal.lift(int({'rint': round, 'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}[mode](c)))
    if mode == 'trunc':
        return sym_round(x, 'floor' if bool(x >= 0) else 'ceil')
    if len(x.num) == 1 and not x.den:
        (m, c), = x.num.items()
        if len(m) == 1 and m[0][1] == 1 and CTX.vars[m[0][0]].kind == 'rnd' and Fraction(c).denominator == 1:
            return x
    n = len(CTX.vars)
    r = sym_uf(mode, (x,), _ROUND[mode])
    if len(CTX.vars) > n:
        (m, _), = r.num.items()
        v = CTX.vars[m[0][0]]
        v.kind = 'rnd'
        vs = frozenset(x.vars() | {v.id})
        lo, hi = {'rint': (Fraction(-1, 2), Fraction(1, 2)), 'floor': (-1, 0), 'ceil': (0, 1)}[mode]
        CTX.cons.append((z3.And(signed(x + lo - r) <= 0, signed(x + hi - r) >= 0), vs, 'ax'))
    return r


SHORT = []          # filled once the code rounds a symbolic value to fewer bits


def sym_short(x, dtype):
    """x rounded to a shorter float: any value within the relative rounding error."""
    x = SymReal.lift(x)
    if x is NONFINITE:
        return x
    dt = np.dtype(dtype)
    if x.is_const():
        return SymReal.lift(Fraction(float(dt.type(float(x)))))
    SHORT.append(dt.name)
    n = len(CTX.vars)
    r = sym_uf('as ' + dt.name, (x,), lambda v: float(dt.type(v)))
    if len(CTX.vars) > n:
        (m, _), = r.num.items()
        vs = frozenset(x.vars() | {CTX.vars[m[0][0]].id})
        e = Fraction(float(np.finfo(dt).eps)) / 2
        CTX.cons.append((z3.Or(z3.And(signed(r - x * (1 + e)) <= 0, signed(r - x * (1 - e)) >= 0),
                               z3.And(signed(r - x * (1 - e)) <= 0, signed(r - x * (1 + e)) >= 0)), vs, 'ax'))
    return r


def small_int(r):
    """The whole number a rounded value stands for, by cases on what was rounded (small numbers only)."""
    if r is NONFINITE:
        raise ValueError('cannot convert float NaN to integer')
    if r.is_const():
        return int(r.const_value())
    for key, (v, args) in CTX.uf_args.items():
        if v.kind == 'rnd' and not (r - var_sym(v)).num:
            mode, x = key[0], args[0]
            break
    else:
        raise SymUnsupported('a symbolic value was turned into an int')
    for k in [0] + [s * k for k in range(1, 9) for s in (1, -1)]:
        if mode == 'floor':
            hit = bool(x >= k) and bool(x < k + 1)
        elif mode == 'ceil':
            hit = bool(x > k - 1) and bool(x <= k)
        else:
            h = Fraction(1, 2)
            hit = (bool(x >= k - h) and bool(x <= k + h)) if k % 2 == 0 else (bool(x > k - h) and bool(x < k + h))
        if hit:
            return k
    raise SymUnsupported('a symbolic value was turned into an int')


def sym_uf(name, args, evaluator=None, positive=False):
    """Uninterpreted function application, congruent over canonical arguments."""
    args = tuple(SymReal.lift(a) for a in args)
    if any(a is NONFINITE for a in args):
        return NONFINITE
    key = (name,) + tuple(a.key() for a in args)
    v = CTX.ufs.get(key)
    if v is None:
        v = Var(f'{name}#{len(CTX.vars)}', '+' if positive else '?', 0 if positive else None, None, 'uf',
                None if evaluator is None else (lambda asg: evaluator(*[a.ev(asg) for a in args])))
        if positive:
            CTX.cons.append((v.z > 0, frozenset([v.id]), 'dom'))
        for k, (w, wargs) in list(CTX.uf_args.items()):
            if k[0] == name and len(k) == len(key) and w.id < len(CTX.vars) and CTX.vars[w.id] is w:
                eqs = z3.And(*[signed(a - b) == 0 for a, b in zip(args, wargs)])
                vs = set([v.id, w.id])
                for a in list(args) + list(wargs):
                    vs |= a.vars()
                CTX.cons.append((z3.Implies(eqs, v.z == w.z), frozenset(vs), 'ax'))
        CTX.uf_args[key] = (v, args)
        CTX.ufs[key] = v
    return var_sym(v)


# ------------------------------------------------------------------ booleans
class SymBool:
    """A condition: ('lt'|'le'|'eq'|'ne', SymReal) meaning  value op 0,  or ('and'|'or', a, b) or ('not', a)."""
    __slots__ = ('t', '_k')

    def __init__(self, t):
        self.t = t
        self._k = None

    def key(self):
        if self._k is None:
            t = self.t
            if t[0] in ('lt', 'le', 'eq', 'ne'):
                self._k = (t[0], t[1].key())
            else:
                self._k = (t[0],) + tuple(x.key() if isinstance(x, SymBool) else x for x in t[1:])
        return self._k

    def vars(self):
        t = self.t
        if t[0] in ('lt', 'le', 'eq', 'ne'):
            return t[1].vars()
        s = set()
        for x in t[1:]:
            if isinstance(x, SymBool):
                s |= x.vars()
        return s

    def z3(self):
        t = self.t
        if t[0] == 'and':
            return z3.And(*[zb(x) for x in t[1:]])
        if t[0] == 'or':
            return z3.Or(*[zb(x) for x in t[1:]])
        if t[0] == 'not':
            return z3.Not(zb(t[1]))
        d = t[1]
        if t[0] in ('eq', 'ne'):
            z = zpoly(d.num)
            return z == 0 if t[0] == 'eq' else z != 0
        z = signed(d)
        return z < 0 if t[0] == 'lt' else z <= 0

    def ev(self, asg):
        t = self.t
        if t[0] == 'and':
            return all(evb(x, asg) for x in t[1:])
        if t[0] == 'or':
            return any(evb(x, asg) for x in t[1:])
        if t[0] == 'not':
            return not evb(t[1], asg)
        v = t[1].ev(asg)
        if t[0] in ('eq', 'ne'):
            scale = 1e-12 * sum(abs(SymReal({m: c}, t[1].den).ev(asg)) for m, c in t[1].num.items())
            eq = abs(v) <= scale
            return eq if t[0] == 'eq' else not eq
        return {'lt': v < 0, 'le': v <= 0}[t[0]]

    def __bool__(self):
        return CTX.engine.decide(self)

    def __and__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else False
        return SymBool(('and', self, o)) if isinstance(o, SymBool) else NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return True if o else self
        return SymBool(('or', self, o)) if isinstance(o, SymBool) else NotImplemented

    __ror__ = __or__

    def __invert__(self):
        t = self.t
        if t[0] == 'lt':
            return mkcmp('le', -t[1])
        if t[0] == 'le':
            return mkcmp('lt', -t[1])
        if t[0] == 'eq':
            return mkcmp('ne', t[1])
        if t[0] == 'ne':
            return mkcmp('eq', t[1])
        if t[0] == 'not':
            return t[1]
        return SymBool(('not', self))

    logical_not = __invert__

    # numbers protocol: booleans used in arithmetic
    def _n(self):
        return 1 if bool(self) else 0

    def __mul__(self, o):
        return self._n() * o
    __rmul__ = __mul__

    def __add__(self, o):
        return self._n() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash(self.key())

    def __int__(self):
        return self._n()

    def __float__(self):
        return float(self._n())

    def all(self, *a, **k):
        return self

    any = all

    def item(self):
        return bool(self)

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f'<symbool {self.t[0]} {self.t[1]!r}>'


def zb(x):
    if isinstance(x, SymBool):
        return x.z3()
    return z3.BoolVal(bool(x))


def evb(x, asg):
    return x.ev(asg) if isinstance(x, SymBool) else bool(x)


def mkcmp(op, d):
    """d op 0, folded when the sign is evident."""
    s = d.sign()
    if s == '0':
        return op in ('le', 'eq')
    if op == 'lt':
        if s == '-':
            return True
        if s in ('+', '0+'):
            return False
    elif op == 'le':
        if s in ('-', '0-'):
            return True
        if s == '+':
            return False
    elif op == 'eq' and s in ('+', '-'):
        return False
    elif op == 'ne' and s in ('+', '-'):
        return True
    if d.is_const():
        c = d.const_value()
        return {'lt': c < 0, 'le': c <= 0, 'eq': c == 0, 'ne': c != 0}[op]
    return SymBool((op, d))


def issym(x):
    return isinstance(x, (SymReal, SymBool))


def hassym(x, depth=0):
    """Whether x (array, list, scalar) contains a symbolic value."""
    if isinstance(x, (SymReal, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return False
        return any(isinstance(e, (SymReal, SymBool)) for e in x.flat)
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(hassym(e, depth + 1) for e in x)
    return False


def symstrict(x):
    """Contains a symbolic value that is not a constant."""
    if isinstance(x, SymReal):
        return not x.is_const()
    if isinstance(x, SymBool):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return False
        return any(symstrict(e) for e in x.flat)
    if isinstance(x, (list, tuple)):
        return any(symstrict(e) for e in x)
    return False


def defloat(x):
    """Turn constant-only object arrays back into float arrays (for libraries that need floats)."""
    if isinstance(x, SymReal):
        return float(x) if x.is_const() else x
    if isinstance(x, np.ndarray) and x.dtype == object and x.size and not symstrict(x):
        try:
            return x.astype(np.float64)
        except (TypeError, ValueError):
            return x
    if isinstance(x, (list, tuple)) and hassym(x):
        return type(x)(defloat(e) for e in x)
    return x
