"""C28: built-in benchmark systems are the published vector fields."""
from symtorch.runner import Suite
from symtorch import tensor as T, elem as E
import torchdyn.numerics.systems as sy
from .common import *

SUITE = Suite('C28', assumptions=['number of harmonics of the Fourier systems bounded; their amplitudes, phases and frequencies are any values of the draws'])
SHAPES = {'0': (), '1': (1,), '2': (2,), '2x1': (2, 1), '1x2': (1, 2), '0b': (0,)}


def pointwise(H, f, rhs, d, shape):
    """f(t, x) is rhs at every point, for any batch shape and any time, with and without keyword arguments."""
    x, t = H.tensor('x', shape + (d,), -3, 3), H.scalar('t', -3, 3)
    before = x.clone()
    y = f(t, x)
    H.check_shape(y, tuple(x.shape), 'derivative')
    for i in range(max(1, int(torch.tensor(shape).prod())) if 0 not in shape else 0):
        p, q = before.reshape(-1, d)[i], y.reshape(-1, d)[i]
        H.check_eq(q, torch.stack(rhs(*p)), 'derivative', tol=1e-9)
    H.check_eq(x, before, 'the state is modified')


F = lambda s, H: s
SYSTEMS = {
    'lorenz': (sy.Lorenz, 3, lambda a, b, c: [10 * (b - a), a * (28 - c) - b, a * b - (8 / 3) * c]),
    'vdp': (sy.VanDerPol, 2, lambda a, b: [b, 10 * (1 - a * a) * b - a]),
    'vdp-0.5': (lambda: sy.VanDerPol(0.5), 2, lambda a, b: [b, 0.5 * (1 - a * a) * b - a]),
    'rf': (sy.ODEProblem4, 3, lambda a, b, c: [b * (c - 1 + a * a) + 0.87 * a, a * (3 * c + 1 - a * a) + 0.87 * b, -2 * c * (1.1 + a * b)]),
    'growth': (sy.ODEProblem2, 2, lambda a, b: [0.5 * a, 0.5 * b]),
    'decay': (sy.ODEProblem3, 2, lambda a, b: [-0.1 * a, -0.1 * b]),
}
for name, (cls, d, rhs) in SYSTEMS.items():
    for k, sh in SHAPES.items():
        SUITE.case(f'{name}-{k}', bounds=f'any state of batch shape {sh}, any time')(lambda H, a=(cls, rhs, d, sh): pointwise(H, a[0](), *a[1:]))


@SUITE.case('vdp-alpha', bounds='any stiffness')
def _(H):
    al = H.scalar('alpha', 0, 100)
    pointwise(H, sy.VanDerPol(al), lambda a, b: [b, al * (1 - a * a) * b - a], 2, (2,))


@SUITE.case('vdp-nfe', bounds='evaluations are counted')
def _(H):
    s, x = sy.VanDerPol(), H.tensor('x', (1, 2), -2, 2)
    for k in range(3):
        H.check(s.nfe == k, 'evaluation count')
        s(0., x, args=None)


@SUITE.case('sine', bounds='any time, any state: the derivative is the sine of the time in every coordinate')
def _(H):
    x, t = H.tensor('x', (2, 2), -3, 3), H.scalar('t', -3, 3)
    y = sy.SineSystem()(t, x)
    H.check_shape(y, (2, 2), 'derivative')
    H.check_eq(y, torch.sin(t) + 0 * x, 'derivative')


def lti(H, d, shape, randomize):
    s = sy.LTISystem(d)
    if randomize:
        s.randomize_parameters()
    H.check(tuple(s.l.weight.shape) == (d, d) and tuple(s.l.bias.shape) == (d,), 'parameter shapes')
    W, b = H.tensor('W', (d, d), -2, 2), H.tensor('b', (d,), -2, 2)
    s.double()
    s.l.weight, s.l.bias = nn.Parameter(W), nn.Parameter(b)
    x, t = H.tensor('x', shape + (d,), -3, 3), H.scalar('t', -3, 3)
    y = s(t, x)
    H.check_shape(y, tuple(x.shape), 'derivative')
    for p, q in zip(x.reshape(-1, d), y.reshape(-1, d)):
        H.check_eq(q, W @ p + b, 'derivative')


for d in (1, 2, 3):
    for sh in ((2,), (1,), (2, 2)):
        SUITE.case(f'lti-{d}-{len(sh)}{sh[0]}', bounds='any matrix, offset and state')(lambda H, a=(d, sh, d == 3): lti(H, *a))


class Harmonics:
    """A given number of harmonics instead of a drawn one."""
    def __init__(self, n):
        self.n, self.range = n, None

    def __enter__(self):
        outer = self

        class Torch:
            @staticmethod
            def randint(low, high=None, size=None, **k):
                outer.range = (low, high)
                return torch.tensor([outer.n]) if size is not None else torch.tensor(outer.n)

            def __getattr__(self, k):
                return getattr(torch, k)
        sy.torch = Torch()
        return self

    def __exit__(self, *a):
        sy.torch = torch


def fourier(H, cls, d, n, times, again):
    """Sum of the harmonics A0 cos(w0 s + p0) + A1 cos(w1 s + p1) of each coordinate, whatever the state; mixed if coupled."""
    with Harmonics(n) as hm:
        s = cls(d)
        H.check(hm.range == ((20, 100) if cls is sy.StiffFourierSystem else (2, 20)), 'range of the number of harmonics')
        if again:
            old = s.A, s.phi, s.w
            s.randomize_parameters()
            for a, b in zip(old, (s.A, s.phi, s.w)):
                H.check(a is not b, 'parameters are not redrawn')
    for v, lim in ((s.A, 10), (s.phi, 1), (s.w, 20)):
        H.check_shape(v, (d, n, 2), 'harmonics')
        H.check(((v <= lim) & (v >= -lim)).all(), 'draw outside its range')
    x = H.tensor('x', (max(1, times), d), -3, 3)
    ts = [H.scalar(f't{k}', -3, 3) for k in range(max(1, times))]
    t = ts[0] if times == 0 else torch.stack(ts)
    if cls is sy.CoupledFourierSystem:
        s.double()
        W, b = H.tensor('W', (d, d), -2, 2), H.tensor('b', (d,), -2, 2)
        s.mixing_l.weight, s.mixing_l.bias = nn.Parameter(W), nn.Parameter(b)
    A, w, p = s.A.double(), s.w.double(), s.phi.double()
    s.A, s.w, s.phi = A, w, p
    y = s(t, x)
    H.check_shape(y, (max(1, times), d), 'derivative')
    for k, tk in enumerate(ts):
        want = []
        for i in range(d):
            v = 0 * tk
            for h in range(n):
                for c in range(2):
                    v = v + A[i, h, c] * torch.cos(w[i, h, c] * tk + p[i, h, c])
            want.append(v)
        want = torch.stack(want)
        if cls is sy.CoupledFourierSystem:
            want = W @ want + b
        H.check_eq(y[k], want, f'derivative at time {k}')


for nm, cls in (('fourier', sy.FourierSystem), ('stiff', sy.StiffFourierSystem), ('coupled', sy.CoupledFourierSystem)):
    for d, n, times in ((1, 2, 0), (2, 2, 0), (2, 3, 2), (1, 2, 3), (3, 2, 1)):
        SUITE.case(f'{nm}-{d}-{n}-{times}', bounds=f'{n} harmonics, {times or "scalar"} times, any draws, times and states')(lambda H, a=(cls, d, n, times, d == 2): fourier(H, *a))


def mlp(H, cls, d, bounded):
    """The network of the state alone: time does not enter; parameters are redrawn."""
    s = cls(d, hdim=2).double()
    x = torch.tensor([[0.3] * d, [-0.2] * d], dtype=torch.float64)
    t = H.scalar('t', -3, 3)
    y = s(t, x)
    H.check_shape(y, (2, d), 'derivative')
    h = x
    ls = [m for m in s.modules() if isinstance(m, nn.Linear)]
    H.check([(m.in_features, m.out_features) for m in ls] == [(d, 2)] + [(2, 2)] * 4 + [(2, d)], 'layers')
    for k, m in enumerate(ls):
        h = h @ m.weight.T + m.bias
        if k < len(ls) - 1 or bounded:
            h = torch.tanh(h)
    H.check_eq(y.detach(), h.detach(), 'derivative')


for nm, cls, bd in (('matmul', sy.MatMulSystem, False), ('matmulb', sy.MatMulBoundedSystem, True)):
    SUITE.case(nm, bounds='two concrete states, any time (independence of time)')(lambda H, a=(cls, 2, bd): mlp(H, *a))

contexts(SUITE, r'.*-(1x2|2-2-0)|lti-2-12|sine|vdp-(alpha|nfe)|matmul.*')
