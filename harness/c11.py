import itertools
from symx.harness import Case
from .common import *
from .demo import Box
from .c10 import container

BOUNDS = ('every value real; state, input and output containers and a user-defined one; optional fields present or absent; list fields of '
          '0 to 5 entries; batches 1 to 5 with every subset of the fields batched, of 60 with all of them')
ASSUMPTIONS = ['batched fields of one container have the same batch size (the documented requirement)']

# name -> (class, [(field, None for a scalar or the length)])
KINDS = {
    'state': (ECMTransientVector, [('soc', None), ('q0', None), ('i_rc', 2), ('hyst', None)]),
    'state1': (ECMTransientVector, [('soc', None), ('i_rc', 1), ('hyst', None)]),
    'state0': (ECMTransientVector, [('soc', None), ('i_rc', 0), ('hyst', None)]),
    'state3': (ECMTransientVector, [('soc', None), ('q0', None), ('i_rc', 3), ('hyst', None)]),
    'input': (ECMInput, [('time', None), ('current', None), ('temperature', None)]),
    'input0': (ECMInput, [('time', None), ('current', None)]),
    'output': (ECMMeasurement, [('terminal_voltage', None)]),
    'box': (Box, [('s', None), ('opt', None), ('v', 2), ('w', 3), ('t', None)]),
    'state4': (ECMTransientVector, [('soc', None), ('i_rc', 4), ('hyst', None)]),
    'box4': (Box, [('s', None), ('v', 4), ('w', 5), ('t', None)]),
    'box1': (Box, [('s', None), ('v', 1), ('w', 1), ('t', None)]),
    'box2': (Box, [('s', None), ('opt', None), ('v', 0), ('t', None)]),
}


def make(cx, kind, batch, nb, pre=''):
    cls, fs = KINDS[kind]
    return cls(**{f: (scal(cx, pre + f, -5, 5, nb if f in batch else 0) if n is None else
                      vec(cx, pre + f, n, -5, 5, nb if f in batch else 0) if n else ()) for f, n in fs})


def flat(cx, kind, batch, nb):
    cx.exactly()
    m = make(cx, kind, batch, nb)
    cls, fs = KINDS[kind]
    before = snapshot(m)
    B = nb if batch else 1
    width = sum(1 if n is None else n for _, n in fs)
    v = m.to_numpy()
    cx.true('batch size', m.batch_size == B, str(m.batch_size))
    cx.shape('vector', v, (B, width))
    cx.true('length', len(m) == width, f'{len(m)}')
    pos, names = 0, []
    order = [f for f in fields(m) if f in dict(fs)]
    for f in order:
        n = dict(fs)[f]
        w = 1 if n is None else n
        cx.true(f'length of {f}', m.length_field(f) == w)
        for b in range(B):
            cx.eq(f'{f} of member {b}', v[b, pos:pos + w], pick(before[f], b))
        names += [f] if w == 1 else [f'{f}[{i}]' for i in range(w)]
        pos += w
    cx.true('names', list(m.all_names) == names, str(m.all_names))
    for f in order:
        cx.true(f'names of {f}', list(m.expand_names([f])) == [x for x in names if x.split('[')[0] == f])
    cx.true('fields', list(m.all_fields) == fields(m))
    unchanged(cx, 'container', m, before)
    # loading it back, in place, into a copy and into a container that held something else
    c = m.make_copy(v)
    d = make(cx, kind, (), 1, 'd.')
    d.from_numpy(np.array(v, copy=True))
    e = make(cx, kind, batch[:1], nb, 'e.')
    e.from_numpy(v[0] if B == 1 else np.array(v, copy=True))
    m.from_numpy(np.array(v, copy=True))
    for t, x in (('copy', c), ('other', d), ('batched other', e), ('itself', m)):
        for f in fields(x):
            a = at(x, f)
            cx.true(f'{t}: {f} present', (a is not None) == (f in before))
            if a is not None:
                cx.eq(f'{t}: {f}', a, np.repeat(before[f], B, axis=0) if before[f].shape[0] == 1 else before[f])
        cx.eq(f'{t}: vector', x.to_numpy(), v)


def at(m, f):
    return getattr(m, f)


def rows(cx, kind, nb):
    """Any vector loaded is the vector read, also over batched contents and one-dimensional."""
    cx.exactly()
    m = make(cx, kind, [KINDS[kind][1][0][0]], 2)
    width = sum(1 if n is None else n for _, n in KINDS[kind][1])
    for k, b in enumerate((0, nb, 1, 0)):
        v = cx.reals(f'v{k}', (b, width) if b else (width,), -5, 5)
        keep = np.array(v, copy=True)
        m.from_numpy(v)
        cx.eq(f'load {k}', m.to_numpy(), keep if b else keep[None, :])


def cases(tier):
    out = []
    for kind, (cls, fs) in KINDS.items():
        names = [f for f, n in fs if n != 0]
        subsets = [s for r in range(len(names) + 1) for s in itertools.combinations(names, r)]
        for s in subsets:
            for nb in (2, 3, 4, 5) + (60,) * (s == tuple(names)):
                if not s and nb > 2:
                    continue
                out.append(Case(f'flat-{kind}-{"+".join(s)}-{nb}', flat, dict(kind=kind, batch=list(s), nb=nb), validate=1))
        for nb in (1, 2, 3, 4, 5):
            out.append(Case(f'rows-{kind}-{nb}', rows, dict(kind=kind, nb=nb), validate=1))
    return out
