from symx.harness import Case
from .common import *
from moirae.estimators.online.filters.kalman.utils import ensure_positive_semi_definite

BOUNDS = ('every 1x1 matrix in [-10,10]; every 2x2 matrix R diag(l1,l2) R^T + e J with l1, l2 in [-10,10], any rotation R '
          '(t in [-1,1], t = tan of half the angle) and any antisymmetric part e (zero, or 0.01 to 5 in magnitude), in units of 1, 1e-4 and 1e4; diagonal 2x2 and 3x3 (thorough: block-diagonal 3x3) matrices of those; '
          'definite 3x3 matrices L L^T')
ASSUMPTIONS = ['asymmetry is exactly zero or at least 0.01 with entries of the other triangle moderate, so the comparison within a tolerance used to '
               'detect asymmetry is not at its threshold', 'eigenvalues of 2x2 blocks are exactly zero or at least 1e-4 away from it']


def block(cx, pre, n, asym, scale=1.):
    """(matrix, its symmetric part, definite?)"""
    if n == 1:
        a = cx.real(pre + 'a', -10, 10)
        m = cx.arr([[a]])
        return m, m, cx.branch(a > 0)
    l1, l2 = cx.real(pre + 'l1', -10, 10), cx.real(pre + 'l2', -10, 10)
    t = cx.real(pre + 't', -1, 1)
    for l in (l1, l2):
        cx.assume_any(l == 0, l >= 1e-4, l <= -1e-4)
    d = 1 + t * t
    c, s = (1 - t * t) / d, 2 * t / d
    p, q, r = l1 * c * c + l2 * s * s, (l1 - l2) * c * s, l1 * s * s + l2 * c * c
    B = cx.arr([[p, q], [q, r]])
    B = scale * B
    A = B
    if asym:
        e = cx.real(pre + 'e', -5, 5)
        cx.away(e, 0.01)
        A = scale * cx.arr([[p, q + e], [q - e, r]])
    return A, B, cx.branch(l1 > 0) and cx.branch(l2 > 0)


def nearest(cx, label, X, B):
    """X is the nearest positive semidefinite matrix to the symmetric B: X >= 0, X - B >= 0, X (X - B) = 0."""
    N = X - B
    cx.eq(f'{label}: symmetric', X, X.T)
    for l, m in (('result', X), ('correction', N)):
        for i in range(len(m)):
            cx.le(f'{label}: {l} diagonal {i}', 0 * m[i, i], m[i, i])
        if len(m) == 2:
            cx.le(f'{label}: {l} determinant', 0 * m[0, 0], m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0])
    cx.eq(f'{label}: complementary', X.dot(N), 0 * X)


def repair(cx, sizes, asym, scale=1.):
    n = sum(sizes)
    M = np.empty((n, n), dtype=object)
    M[...] = 0.
    at, parts = 0, []
    for k, d in enumerate(sizes):
        A, B, ok = block(cx, f'{k}.', d, asym == k, scale)
        M[at:at + d, at:at + d] = A
        parts.append((at, d, A, B, ok))
        at += d
    M = cx.arr(M)
    keep = np.array(M, copy=True)
    X = ensure_positive_semi_definite(M)
    cx.shape('result', X, (n, n))
    cx.eq('argument', M, keep)
    whole = all(p[4] for p in parts) and asym is None
    for at, d, A, B, ok in parts:
        got = X[at:at + d, at:at + d]
        if whole:
            cx.eq('unchanged', got, B)
        nearest(cx, f'block {at}', got / scale, B / scale)
        for o in range(n):
            if not at <= o < at + d:
                cx.eq('no mixing', X[o, at:at + d], 0 * X[o, at:at + d])
    Y = ensure_positive_semi_definite(np.array(X, copy=True))
    cx.eq('again', Y, X)
    first = np.array(X, copy=True)
    scribble(M)
    cx.eq('result after a write to the argument', X, first)
    scribble(X)
    cx.eq('next result', ensure_positive_semi_definite(np.array(keep, copy=True)), first)


def kept(cx, n, diag=False):
    P, _ = cx.psd('P', n, diag=diag)
    keep = np.array(P, copy=True)
    X = ensure_positive_semi_definite(P)
    cx.eq('definite matrix', X, keep)
    scribble(X)
    cx.eq('argument', P, keep)


def cases(tier):
    out = [Case(f'kept-{n}', kept, dict(n=n)) for n in (1, 2, 3)]
    for sizes in ((1,), (2,), (1, 1), (1, 1, 1)) + (((2, 1), (1, 2)) if tier == 'thorough' else ()):
        for asym in [None] + [k for k, d in enumerate(sizes) if d == 2]:
            out.append(Case(f'repair-{sizes}-{"symmetric" if asym is None else asym}', repair, dict(sizes=sizes, asym=asym), limit=300))
    for scale in (1e-4, 1e4):
        for asym in (None, 0):
            out.append(Case(f'repair-scale={scale}-{asym}', repair, dict(sizes=(2,), asym=asym, scale=scale), limit=300))
    return out
