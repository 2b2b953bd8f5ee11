"""Multivariate polynomials with rational coefficients over variable ids, and rational functions of them.

A polynomial is a plain dict {monomial: coefficient}; a monomial is a tuple of (varid, exponent) sorted by varid.
Coefficients are int or Fraction (never a Fraction with denominator 1).  A rational function is (num, den) where den
is a tuple of (frozen factor, exponent) pairs: factors are either ('v', varid) or ('p', frozen polynomial).
"""
from fractions import Fraction

ONE = ()


def nrm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def cdiv(a, b):
    if type(a) is int and type(b) is int:
        if b in (1, -1):
            return a * b
        return nrm(Fraction(a, b))
    return nrm(Fraction(a) / b)


def const(c):
    return {ONE: c} if c != 0 else {}


def padd(a, b):
    if not a:
        return b
    if not b:
        return a
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        o = r.get(m)
        if o is None:
            r[m] = c
        else:
            s = o + c
            if s == 0:
                del r[m]
            else:
                r[m] = nrm(s)
    return r


def pneg(a):
    return {m: -c for m, c in a.items()}


def psub(a, b):
    return padd(a, pneg(b))


def pscale(a, k):
    if k == 0:
        return {}
    if k == 1:
        return a
    return {m: nrm(c * k) for m, c in a.items()}


_mm_cache = {}


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    key = (m, n)
    r = _mm_cache.get(key)
    if r is None:
        d = dict(m)
        for v, e in n:
            d[v] = d.get(v, 0) + e
        r = tuple(sorted(d.items()))
        if len(_mm_cache) > 2000000:
            _mm_cache.clear()
        _mm_cache[key] = r
    return r


def pmul(a, b):
    """Product, without algebraic reduction."""
    if not a or not b:
        return {}
    if len(a) == 1 and ONE in a:
        return pscale(b, a[ONE])
    if len(b) == 1 and ONE in b:
        return pscale(a, b[ONE])
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            o = r.get(k)
            if o is None:
                r[k] = c * d
            else:
                r[k] = o + c * d
    return {m: nrm(c) for m, c in r.items() if c != 0}


def reduce_alg(p, rules):
    """Replace v**2 by rules[v] (a polynomial) until every such v has exponent <= 1."""
    if not rules:
        return p
    while True:
        bad = None
        for m in p:
            for v, e in m:
                if e > 1 and v in rules:
                    bad = v
                    break
            if bad is not None:
                break
        if bad is None:
            return p
        keep, repl = {}, {}
        for m, c in p.items():
            e = 0
            for v, ee in m:
                if v == bad:
                    e = ee
            if e < 2:
                keep[m] = c
            else:
                d = tuple((v, x) for v, x in m if v != bad)
                if e % 2:
                    d = tuple(sorted(d + ((bad, 1),)))
                repl.setdefault(e // 2, {})[d] = c
        for k, q in repl.items():
            t = q
            for _ in range(k):
                t = pmul(t, rules[bad])
            keep = padd(keep, t)
        p = keep


def ppow(a, n, rules=None):
    r = const(1)
    for _ in range(n):
        r = reduce_alg(pmul(r, a), rules)
    return r


def mono_content(p):
    """Largest monomial dividing every term."""
    it = iter(p)
    first = next(it)
    d = dict(first)
    for m in it:
        if not d:
            return ONE
        md = dict(m)
        for v in list(d):
            e = md.get(v, 0)
            if e == 0:
                del d[v]
            elif e < d[v]:
                d[v] = e
    return tuple(sorted(d.items()))


def mdiv(m, n):
    d = dict(m)
    for v, e in n:
        x = d.get(v, 0) - e
        if x < 0:
            return None
        if x == 0:
            d.pop(v, None)
        else:
            d[v] = x
    return tuple(sorted(d.items()))


def pdivmono(p, mono):
    if not mono:
        return p
    return {mdiv(m, mono): c for m, c in p.items()}


def pvars(p):
    s = set()
    for m in p:
        for v, _ in m:
            s.add(v)
    return s


def _lexkey(m, order):
    d = dict(m)
    return tuple(d.get(v, 0) for v in order)


def pdiv_exact(a, b, limit=4000):
    """a / b if it is a polynomial, else None (also None if it would take too long)."""
    if not a:
        return a
    if len(b) == 1:
        (bm, bc), = b.items()
        r = {}
        for m, c in a.items():
            q = mdiv(m, bm)
            if q is None:
                return None
            r[q] = cdiv(c, bc)
        return r
    if len(a) > limit or len(a) < 2 or len(b) > 400:
        return None
    va, vb = pvars(a), pvars(b)
    if not vb <= va:
        return None
    order = sorted(va)
    keys = {}

    def key(m):
        k = keys.get(m)
        if k is None:
            k = keys[m] = _lexkey(m, order)
        return k
    lb = max(b, key=key)
    cb = b[lb]
    # quick reject: the smallest monomials must divide as well, and the degrees in each variable
    sb = min(b, key=key)
    if mdiv(min(a, key=key), sb) is None or mdiv(max(a, key=key), lb) is None:
        return None
    import heapq
    rem = dict(a)
    heap = [tuple(-x for x in key(m)) + (m,) for m in rem]
    heapq.heapify(heap)
    quo = {}
    steps = 0
    while rem:
        while True:
            m = heapq.heappop(heap)[-1]
            if m in rem:
                break
        q = mdiv(m, lb)
        if q is None:
            return None
        c = cdiv(rem[m], cb)
        quo[q] = c
        for n, d in b.items():
            k = mmul(q, n)
            o = rem.get(k)
            if o is None:
                rem[k] = nrm(-c * d)
                heapq.heappush(heap, tuple(-x for x in key(k)) + (k,))
            else:
                s = o - c * d
                if s == 0:
                    del rem[k]
                else:
                    rem[k] = nrm(s)
        steps += 1
        if steps > limit:
            return None
    return quo


def primitive(p):
    """(constant, primitive part with positive leading coefficient); p = constant * primitive"""
    from math import gcd
    g, l = 0, 1
    for c in p.values():
        c = Fraction(c)
        g = gcd(g, c.numerator)
        l = l * c.denominator // gcd(l, c.denominator)
    k = Fraction(g, l)
    lead = p[max(p)]
    if lead < 0:
        k = -k
    return nrm(k), {m: cdiv(c, k) for m, c in p.items()}


def freeze(p):
    return tuple(sorted(p.items()))
