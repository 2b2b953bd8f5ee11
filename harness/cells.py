"""A cell and a degradation model about which nothing is known (uninterpreted functions of everything they are given), and their containers."""
from typing import Optional

import numpy as np
from pydantic import Field
from moirae.models.base import (HealthVariable, GeneralContainer, OutputQuantities, ScalarParameter, ListParameter, CellModel,
                                DegradationModel)
from moirae.models.ecm.ins_outs import ECMInput
from moirae.estimators.online.filters.conversions import (LinearConversionOperator, IdentityConversionOperator,
                                                          AbsoluteValueConversionOperator)
from .common import walk, pick, scal, vec, snapshot, unchanged, scribble


class Sub(HealthVariable):
    k: ScalarParameter = 1.


class Health(HealthVariable):
    cap: ScalarParameter = 1.
    res: ListParameter = Field(default=1.)
    sub: Sub = Field(default_factory=Sub)


class Trans(GeneralContainer):
    soc: ScalarParameter = 0.
    aux: Optional[ScalarParameter] = None
    v: ListParameter = ()


class Out(OutputQuantities):
    extra: Optional[ListParameter] = None


HEALTH = {'cap': 1, 'res': 2, 'sub.k': 1}
SUBSETS = {'none': (), 'cap': ('cap',), 'res': ('res',), 'sub': ('sub.k',), 'cap+sub': ('cap', 'sub.k'), 'sub+res': ('sub.k', 'res'),
           'all': ('cap', 'res', 'sub.k')}


def health(cx, names=(), pre='h.', nb=0):
    """names: what the user marks as updatable."""
    h = Health(cap=scal(cx, pre + 'cap', -5, 5, nb), res=vec(cx, pre + 'res', 2, -5, 5, nb), sub=Sub(k=scal(cx, pre + 'k', -5, 5, nb)))
    for n in names:
        h.mark_updatable(n)
    return h


def trans(cx, nv=1, aux=False, pre='x.', nb=0):
    kw = {'aux': scal(cx, pre + 'aux', -5, 5, nb)} if aux else {}
    return Trans(soc=scal(cx, pre + 'soc', -5, 5, nb), v=vec(cx, pre + 'v', nv, -5, 5, nb) if nv else (), **kw)


def controls(cx, pre='i.', temp=False, lo=0, hi=100):
    kw = {'temperature': cx.real(pre + 'temp', -20, 60)} if temp else {}
    return ECMInput(time=cx.real(pre + 'time', lo, hi), current=cx.real(pre + 'current', -5, 5), **kw)


def values(m):
    """(path, array) of the numeric content, in the order of the fields."""
    return [(p, v) for p, _, _, v in walk(m)]


def rowlist(objs):
    """Per row of the common batch, the flat list of everything the containers hold."""
    arrs = [v for o in objs for _, v in values(o)]
    B = max([a.shape[0] for a in arrs] + [1])
    return [[x for a in arrs for x in np.asarray(pick(a, r), dtype=object).reshape(-1)] for r in range(B)]


class UFCell(CellModel):
    """Fields of the results are uninterpreted functions of all arguments, row by row."""
    def __init__(self, cx, extra=0, tag=''):
        self.cx, self.extra, self.tag = cx, extra, tag
        self.calls = []

    def f(self, path, j, args):
        return self.cx.uf(f'{self.tag}f.{path}.{j}', [args])

    def g(self, path, j, args):
        return self.cx.uf(f'{self.tag}g.{path}.{j}', [args])

    def update_transient_state(self, previous_inputs, new_inputs, transient_state, asoh):
        rows = rowlist([previous_inputs, new_inputs, transient_state, asoh])
        out = transient_state.model_copy(deep=True)
        self.calls.append('update')
        for p, o, fld, v in list(walk(out)):
            setattr(o, fld, self.cx.arr([[self.f(p, j, r) for j in range(v.shape[1])] for r in rows]) if v.shape[1]
                    else self.cx.arr(np.zeros((len(rows), 0))))
        return out

    def calculate_terminal_voltage(self, new_inputs, transient_state, asoh):
        rows = rowlist([new_inputs, transient_state, asoh])
        self.calls.append('voltage')
        kw = {'extra': self.cx.arr([[self.g('extra', j, r) for j in range(self.extra)] for r in rows])} if self.extra else {}
        return Out(terminal_voltage=self.cx.arr([[self.g('v', 0, r)] for r in rows]), **kw)


class UFDegradation(DegradationModel):
    """Every health parameter afterwards is an uninterpreted function of everything given."""
    def __init__(self, cx, tag='', only=None):
        self.cx, self.tag, self.only = cx, tag, only
        self.calls = 0

    def d(self, path, j, args):
        return self.cx.uf(f'{self.tag}d.{path}.{j}', [args])

    def update_asoh(self, previous_asoh, new_inputs, new_transients, new_measurements):
        rows = rowlist([previous_asoh, new_inputs, new_transients, new_measurements])
        self.calls += 1
        out = previous_asoh.model_copy(deep=True)
        for p, o, fld, v in list(walk(out)):
            if self.only is None or p in self.only:
                setattr(o, fld, self.cx.arr([[self.d(p, j, r) for j in range(v.shape[1])] for r in rows]))
        return out


def flat(m, r=0):
    """Row r of a container as a flat list, by walking its fields."""
    return [x for _, v in values(m) for x in np.asarray(pick(v, r), dtype=object).reshape(-1)]


def width(m):
    return sum(v.shape[1] for _, v in values(m))


def nonzero(cx, n):
    """A scale of either sign."""
    x = cx.real(n, -5, 5)
    cx.assume_any(x >= 0.1, x <= -0.1)
    return x


def operator(cx, kind, d, pre):
    if kind == 'identity':
        return IdentityConversionOperator()
    if kind == 'absolute':
        return AbsoluteValueConversionOperator(indices=[0])
    if kind == 'scale':
        return LinearConversionOperator(multiplicative_array=cx.arr(nonzero(cx, pre + 'm')))
    if kind == 'shift':
        return LinearConversionOperator(multiplicative_array=cx.arr(cx.const(1)), additive_array=cx.reals(pre + 'b', d, -10, 10))
    if kind == 'affine':
        return LinearConversionOperator(multiplicative_array=cx.arr([nonzero(cx, f'{pre}m{i}') for i in range(d)]),
                                        additive_array=cx.reals(pre + 'b', d, -10, 10))
    if kind == 'matrix':      # mixes neighbours; its determinant is the product of the diagonal
        m = np.empty((d, d), dtype=object)
        m[...] = 0.
        for i in range(d):
            m[i, i] = cx.real(f'{pre}m{i}', 0.2, 3)
            if i:
                m[i, i - 1] = cx.real(f'{pre}o{i}', -2, 2)
        return LinearConversionOperator(multiplicative_array=cx.arr(m), additive_array=cx.reals(pre + 'b', d, -10, 10))
    raise ValueError(kind)


def copy(a):
    return np.array(a, copy=True)


def linear_part(cx, f, d):
    """The matrix of an affine map of points: row i is the image of the i-th unit vector, less that of zero."""
    z = f(cx.arr(np.zeros(d)))
    return [[f(cx.arr(np.eye(d)[i]))[j] - z[j] for j in range(len(z))] for i in range(d)]


def congruence(m, p):
    """Covariance of x M for x of covariance p, from the definition."""
    d, e = len(m), len(m[0])
    return [[sum(m[i][a] * p[i, j] * m[j][b] for i in range(d) for j in range(d)) for b in range(e)] for a in range(e)]


def to_physical(cx, op, mean, cov):
    """A Gaussian in filter coordinates, in physical units."""
    op = op.model_copy(deep=True)
    f = lambda x: op.transform_samples(samples=copy(x))
    d = len(mean)
    if not d:
        return f(mean), copy(cov)
    return f(mean), cx.arr(congruence(linear_part(cx, f, d), cov))


def to_filter(cx, op, mean, cov=None):
    op = op.model_copy(deep=True)
    f = lambda x: op.inverse_transform_samples(transformed_samples=copy(x))
    if cov is None:
        return f(mean), None
    return f(mean), cx.arr(congruence(linear_part(cx, f, len(mean)), cov))


def trans_names(x):
    out = []
    for p, v in values(x):
        out += [p] if v.shape[1] == 1 else [f'{p}[{i}]' for i in range(v.shape[1])]
    return out


def health_names(names):
    out = []
    for n in names:
        out += [n] if HEALTH[n] == 1 else [f'{n}[{i}]' for i in range(HEALTH[n])]
    return out
