"""A small health variable with every kind of member the base class allows, as a user would define one."""
from typing import Dict, Optional, Tuple
import numpy as np
from pydantic import Field
from moirae.models.base import HealthVariable, GeneralContainer, ScalarParameter, ListParameter
from .common import scal, vec


class Leaf(HealthVariable):
    x: ListParameter = Field(default=0.)
    y: ScalarParameter = Field(default=1.)


class Mid(HealthVariable):
    leaf: Leaf = Field(default_factory=Leaf)
    z: ScalarParameter = Field(default=2.)


class Top(HealthVariable):
    b: ListParameter = Field(default=0.)
    mid: Mid = Field(default_factory=Mid)
    a: ScalarParameter = Field(default=0.)
    seq: Tuple[Leaf, ...] = Field(default_factory=tuple)
    tab: Dict[str, Leaf] = Field(default_factory=dict)


class Deep(HealthVariable):
    """Components within the members of collections, and collections within components."""
    tab: Dict[str, Mid] = Field(default_factory=dict)
    k: ScalarParameter = 0.
    seq: Tuple[Mid, ...] = Field(default_factory=tuple)
    top: Top = Field(default_factory=Top)


class Box(GeneralContainer):
    s: ScalarParameter = 0.
    opt: Optional[ScalarParameter] = None
    v: ListParameter = ()
    w: Optional[ListParameter] = None
    t: ScalarParameter = 0.


# scalars 1, lists of 1 to 3
SIZES = {'b': 3, 'mid.leaf.x': 2, 'mid.leaf.y': 1, 'mid.z': 1, 'a': 1, 'seq.0.x': 1, 'seq.0.y': 1, 'seq.1.x': 3, 'seq.1.y': 1,
         'tab.one.x': 2, 'tab.one.y': 1, 'tab.two.x': 1, 'tab.two.y': 1}


def build_top(cx, batch=(), nb=2):
    def leaf(p):
        return Leaf(x=vec(cx, p + 'x', SIZES[p + 'x'], -5, 5, nb if p + 'x' in batch else 0),
                    y=scal(cx, p + 'y', -5, 5, nb if p + 'y' in batch else 0))
    return Top(b=vec(cx, 'b', 3, -5, 5, nb if 'b' in batch else 0),
               mid=Mid(leaf=leaf('mid.leaf.'), z=scal(cx, 'mid.z', -5, 5, nb if 'mid.z' in batch else 0)),
               a=scal(cx, 'a', -5, 5, nb if 'a' in batch else 0),
               seq=(leaf('seq.0.'), leaf('seq.1.')), tab={'one': leaf('tab.one.'), 'two': leaf('tab.two.')})


def build_deep(cx, batch=(), nb=2):
    def leaf(p, n=1):
        return Leaf(x=vec(cx, p + 'x', n, -5, 5, nb if p + 'x' in batch else 0), y=scal(cx, p + 'y', -5, 5, nb if p + 'y' in batch else 0))

    def mid(p, n=1):
        return Mid(leaf=leaf(p + 'leaf.', n), z=scal(cx, p + 'z', -5, 5, nb if p + 'z' in batch else 0))
    return Deep(tab={'one': mid('tab.one.', 2), 'two': mid('tab.two.')}, k=scal(cx, 'k', -5, 5, nb if 'k' in batch else 0), seq=(mid('seq.0.'), mid('seq.1.', 3)),
                top=Top(a=scal(cx, 'top.a', -5, 5), b=vec(cx, 'top.b', 2, -5, 5), mid=mid('top.mid.'), seq=(leaf('top.seq.0.'),), tab={'in': leaf('top.tab.in.', 2)}))


def at(m, path):
    """Follow a name through an object."""
    for p in path.split('.'):
        if isinstance(m, (tuple, list)):
            m = m[int(p)]
        elif isinstance(m, dict):
            m = m[p]
        else:
            m = getattr(m, p)
    return m


def owners(m, path):
    """The health variables along a name and the attribute each of them contributes."""
    out = []
    ps = path.split('.')
    i = 0
    while i < len(ps):
        if isinstance(m, (tuple, list)):
            m = m[int(ps[i])]
        elif isinstance(m, dict):
            m = m[ps[i]]
        else:
            out.append((m, ps[i]))
            m = getattr(m, ps[i])
        i += 1
    return out


def all_paths(m):
    from .common import walk
    return [p for p, *_ in walk(m) if not p.endswith('soc_pinpoints')]
