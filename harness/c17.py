from symx.harness import Case
from .common import *
from .kf import *
from .c18 import inverse, mul

BOUNDS = ('x\' = A x + B u + a, y = C x + D u + b with every entry of A, B, C, D, a, b an input in [-2,2]; 1 to 2 states, 1 to 2 outputs, 1 control; '
          'means, controls and measurements in [-5,5]; covariance L L^T and noises L L^T or diagonal; tuning default, fixed, (1 state) any alpha in '
          '[0.1,1], beta in [0,5], kappa in [0,5]; one step from an arbitrary estimate, two or three consecutive steps (1 state)')
ASSUMPTIONS = ['covariances and noises are positive definite; the posterior covariance is then positive definite, which is assumed as such']


class Linear(Shape):
    def __init__(self, cx, nx, ny, A, B, a, C, D, b):
        super().__init__(nx, ny)
        self.m = A, B, a, C, D, b
        self.log = []

    def update_hidden_states(self, hidden_states, previous_controls, new_controls):
        A, B, a, C, D, b = self.m
        self.log.append((copy(previous_controls), copy(new_controls)))
        return hidden_states.dot(A.T) + previous_controls.reshape(1, -1).dot(B[0].T) + new_controls.reshape(1, -1).dot(B[1].T) + a

    def predict_measurement(self, hidden_states, controls):
        A, B, a, C, D, b = self.m
        return hidden_states.dot(C.T) + controls.reshape(1, -1).dot(D.T) + b


def definite(cx, m):
    cx.assume(m[0, 0] > 0)
    if len(m) == 2:
        cx.assume(m[0, 0] * m[1, 1] - m[0, 1] * m[0, 1] > 0)


def kalman(cx, nx, ny, kind, diag=False, steps=1, cut=12, offset=True, const=False):
    cx.cut(cut)
    kw, _ = tuning(cx, kind, 2 * nx + ny)
    A, C = cx.reals('A', (nx, nx), -2, 2), cx.reals('C', (ny, nx), -2, 2)
    B = [cx.reals(f'B{k}', (nx, 1), -2, 2) for k in (0, 1)]
    D = cx.reals('D', (ny, 1), -2, 2)
    a, b = (cx.reals('a', nx, -2, 2), cx.reals('b', ny, -2, 2)) if offset else (cx.arr(np.zeros(nx)), cx.arr(np.zeros(ny)))
    P, _ = cx.psd('P', nx, diag=diag)
    Q, _ = cx.psd('Q', nx, diag=diag)
    R, _ = cx.psd('R', ny, diag=diag)
    x = cx.reals('x', nx, -5, 5)
    u = cx.reals('u0', 1, -5, 5)
    f = UnscentedKalmanFilter(Linear(cx, nx, ny, A, B, a, C, D, b), MultivariateGaussian(mean=copy(x), covariance=copy(P)),
                              DeltaDistribution(mean=copy(u)), covariance_process_noise=copy(Q), covariance_sensor_noise=copy(R), **kw)
    for t in range(1, steps + 1):
        un, z = cx.reals(f'u{t}', 1, -5, 5), cx.reals(f'z{t}', ny, -5, 5)
        xm = A.dot(x) + B[0].dot(u) + B[1].dot(un) + a
        Pm = A.dot(P).dot(A.T) + Q
        ym = C.dot(xm) + D.dot(un) + b
        S = C.dot(Pm).dot(C.T) + R
        definite(cx, S)
        K = mul(cx, Pm.dot(C.T), inverse(cx, S))
        x2 = xm + mul(cx, K, (z - ym).reshape(-1, 1))[:, 0]
        P2 = Pm - mul(cx, K, C.dot(Pm))
        definite(cx, P2)
        got, pred = f.step(DeltaDistribution(mean=copy(un)), DeltaDistribution(mean=copy(z)))
        lab = f'step {t}: '
        cx.eq(lab + 'predicted output', pred.get_mean(), ym)
        cx.eq(lab + 'predicted covariance', pred.get_covariance(), S)
        cx.eq(lab + 'mean', got.get_mean(), x2)
        cx.eq(lab + 'covariance', got.get_covariance(), P2)
        cx.eq(lab + 'filter mean', f.hidden.get_mean(), x2)
        cx.eq(lab + 'filter covariance', f.hidden.get_covariance(), P2)
        x, P, u = x2, P2, un


def cases(tier):
    out = []
    full = tier == 'thorough'
    for nx, ny in ((1, 1), (1, 2), (2, 1)) + (((2, 2),) if full else ()):
        for kind in ('default', 'fixed', 'spread', 'wide'):
            if kind == 'wide' and nx == 2:
                continue
            for diag in (True, False):
                if nx * ny == 1 and diag:
                    continue
                out.append(Case(f'linear-{nx}-{ny}-{kind}-{"diagonal" if diag else "full"}', kalman, dict(nx=nx, ny=ny, kind=kind, diag=diag)))
    for kind in ('default', 'fixed', 'spread'):
        out.append(Case(f'steps-2-{kind}', kalman, dict(nx=1, ny=1, kind=kind, steps=2, cut=None)))
        out.append(Case(f'steps-3-{kind}', kalman, dict(nx=1, ny=1, kind=kind, steps=3, cut=None, offset=False)))
    return out
