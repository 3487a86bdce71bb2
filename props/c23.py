"""C23: Galerkin layers evaluate their basis expansion at the current depth."""
import math
from symtorch.runner import Suite
from torchdyn.core import NeuralODE
from torchdyn.nn import DepthCat, GalLinear, GalConv2d
from torchdyn.nn.galerkin import Fourier, Polynomial, Chebychev, VanillaRBF, MultiquadRBF, GaussianRBF
from .common import *

SUITE = Suite('C23', assumptions=['the orders at which a basis is evaluated are the ones the layer passes to it (one per degree, increasing from 0)'])


class AnyBasis(nn.Module):
    """A basis of arbitrary functions; records the depth values it is evaluated at."""
    def __init__(self, H, deg, n_eig):
        super().__init__()
        self.H, self.deg, self.n_eig, self.seen = H, deg, n_eig, []

    def value(self, i, j, s):
        return self.H.ufs(f'phi{i}_{j}', [s])

    def forward(self, n_range, s):
        H = self.H
        H.check(tuple(n_range.shape) == (self.deg,), 'one order per degree')
        n = [float(v) for v in n_range]
        H.check(n[0] == 0 and all(a < b for a, b in zip(n, n[1:])), 'orders increase from 0')
        self.seen.append(s)
        return [torch.stack([self.value(i, j, s.reshape(())) for j in range(self.deg)]) for i in range(self.n_eig)]


def symbolise(H, layer, dilation=True, shift=True):
    """Replace the (trivially initialised) parameters by arbitrary ones."""
    H.check(bool((layer.coeffs == 0).all()), 'coefficients start at zero')
    layer.coeffs = nn.Parameter(H.tensor('c', tuple(layer.coeffs.shape), -2, 2))
    if dilation:
        layer.dilation = nn.Parameter(H.tensor('dil', (1,), -2, 2))
    if shift:
        layer.shift = nn.Parameter(H.tensor('shift', (1,), -2, 2))
    return layer.double()


def expand(H, layer, basis, s):
    """sum over the basis of coefficient times value; basis[i][j]."""
    c = layer.coeffs
    return sum(c[:, j, i] * basis[i][j] for i in range(layer.n_eig) for j in range(layer.deg))


def depth(layer, t):
    return (t * layer.dilation + layer.shift).reshape(())


def linear(H, i, o, deg, n_eig, batch, bias, dil=True, shift=True):
    b = AnyBasis(H, deg, n_eig)
    L = GalLinear(i, o, bias=bias, expfunc=b, dilation=dil, shift=shift)
    H.check(isinstance(L.dilation, nn.Parameter) == dil and isinstance(L.shift, nn.Parameter) == shift, 'dilation and shift are trained only when asked for')
    if not dil:
        H.check(bool((L.dilation == 1).all()), 'dilation left out is 1')
    if not shift:
        H.check(bool((L.shift == 0).all()), 'shift left out is 0')
    L = symbolise(H, L, dil, shift)
    for k in range(2):
        x = H.tensor(f'x{k}', (batch, i), -2, 2)
        t = H.scalar(f't{k}', -2, 2)
        out = L(torch.cat([x, t * torch.ones_like(x[:, :1])], 1))
        s = depth(L, t)
        w = expand(H, L, [[b.value(a, j, s) for j in range(deg)] for a in range(n_eig)], s)
        W = w[:i * o].reshape(o, i)
        want = x @ W.T
        if bias:
            want = want + w[i * o:]
        H.check_shape(out, (batch, o), 'output')
        H.check_eq(out, want, 'output')


for i, o, deg, n_eig, batch in ((1, 1, 1, 1, 1), (2, 1, 2, 1, 1), (1, 2, 3, 2, 2), (2, 3, 2, 2, 2), (3, 2, 5, 1, 1), (2, 2, 4, 3, 3)):
    for bias in (True, False):
        SUITE.case(f'linear-{i}-{o}-{deg}-{n_eig}-{batch}{"" if bias else "-nobias"}', bounds='any basis functions, coefficients, inputs, depth, dilation, shift')(
            lambda H, a=(i, o, deg, n_eig, batch, bias): linear(H, *a))
SUITE.case('linear-nodilation', bounds='dilation left out')(lambda H: linear(H, 2, 2, 2, 1, 2, True, False, True))
SUITE.case('linear-noshift', bounds='shift left out')(lambda H: linear(H, 2, 2, 2, 1, 2, True, True, False))


def conv(H, ic, oc, ks, stride, pad, hw, deg, n_eig, batch, bias):
    b = AnyBasis(H, deg, n_eig)
    L = symbolise(H, GalConv2d(ic, oc, ks, stride=stride, padding=pad, bias=bias, expfunc=b))
    x = H.tensor('x', (batch, ic) + hw, -2, 2)
    t = H.scalar('t', -2, 2)
    out = L(torch.cat([x, t * torch.ones_like(x[:, :1])], 1))
    s = depth(L, t)
    w = expand(H, L, [[b.value(a, j, s) for j in range(deg)] for a in range(n_eig)], s)
    n = oc * ic * ks * ks
    W = w[:n].reshape(oc, ic, ks, ks)
    hp, wp = hw[0] + 2 * pad, hw[1] + 2 * pad
    xp = torch.zeros((batch, ic, hp, wp), dtype=torch.float64)
    rows = []
    oh, ow = (hp - ks) // stride + 1, (wp - ks) // stride + 1
    H.check_shape(out, (batch, oc, oh, ow), 'output')
    for nb in range(batch):
        for c in range(oc):
            for p in range(oh):
                for q in range(ow):
                    v = w[n + c] if bias else H.const(0.)
                    for d in range(ic):
                        for a in range(ks):
                            for e in range(ks):
                                r, u = p * stride + a - pad, q * stride + e - pad
                                if 0 <= r < hw[0] and 0 <= u < hw[1]:
                                    v = v + W[c, d, a, e] * x[nb, d, r, u]
                    rows.append(v)
    H.check_eq(out.reshape(-1), torch.stack(rows), 'output')


for k, a in {'1': (1, 1, 1, 1, 0, (2, 2), 2, 2, 1), '3': (1, 1, 3, 1, 1, (3, 2), 1, 1, 1), 'ch': (2, 2, 1, 1, 0, (1, 2), 2, 1, 2), 'stride': (1, 2, 2, 2, 0, (4, 3), 2, 1, 1),
             'pad': (2, 1, 2, 2, 1, (2, 2), 1, 2, 1)}.items():
    for bias in (True, False):
        SUITE.case(f'conv-{k}{"" if bias else "-nobias"}', bounds=f'channels/size/stride/padding {a}')(lambda H, a=a, b=bias: conv(H, *a, b))


def history(H, what):
    """A layer keeps no memory of earlier evaluations: not of the coefficients, dilation, shift, depth or input."""
    b = AnyBasis(H, 2, 1)
    if what == 'linear':
        L = symbolise(H, GalLinear(1, 1, expfunc=b))
        shape, ref = (2, 1), lambda w, x: x * w[0] + w[1]
    else:
        L = symbolise(H, GalConv2d(1, 1, 1, expfunc=b))
        shape, ref = (1, 1, 2, 1), lambda w, x: x * w[0] + w[1]
    t, u = H.scalar('t', -2, 2), H.scalar('u', -2, 2)
    x = H.tensor('x', shape, -2, 2)

    def go(t, x, msg):
        out = L(torch.cat([x, t * torch.ones_like(x[:, :1])], 1))
        s = depth(L, t)
        H.check_eq(out.detach(), ref(expand(H, L, [[b.value(0, j, s) for j in range(2)]], s), x).detach(), msg)
    go(t, x, 'first evaluation')
    go(u, x, 'another depth')
    with torch.no_grad():
        L.coeffs.copy_(H.tensor('c2', tuple(L.coeffs.shape), -2, 2))
    go(u, x, 'changed coefficients, same depth')
    with torch.no_grad():
        L.shift.copy_(H.tensor('shift2', (1,), -2, 2))
    go(u, x, 'changed shift, same depth')
    L.dilation = nn.Parameter(H.tensor('dil2', (1,), -2, 2))
    go(u, x, 'replaced dilation, same depth')
    go(t, H.tensor('x2', shape, -2, 2), 'the first depth again, other input')


for what in ('linear', 'conv'):
    SUITE.case(f'history-{what}', bounds='six evaluations of one layer; coefficients, dilation, shift changed in between')(lambda H, w=what: history(H, w))


# ---------------------------------------------------------------- the bases
def fourier(n, s, c, e):
    return [torch.cos(n * s), torch.sin(n * s)]


def polynomial(n, s, c, e):
    return [torch.stack([s ** int(k) for k in n])]


def cheb(n, s, c, e):
    out = [torch.ones_like(s), s]
    while len(out) < len(n):
        out.append(2 * s * out[-1] - out[-2])
    return [torch.stack(out[:len(n)])]


def vanilla(n, s, c, e):
    return [torch.sqrt((s - c) ** 2) * n / e]


def multiquad(n, s, c, e):
    return [1 + torch.sqrt(1 + (s - c) ** 2 * (n / e) ** 2)]


def gaussian(n, s, c, e):
    return [torch.exp(-(s - c) ** 2 * ((n - c) / e) ** 2)]


BASES = {'fourier': (Fourier, fourier), 'polynomial': (Polynomial, polynomial), 'chebychev': (Chebychev, cheb),
         'vanilla': (VanillaRBF, vanilla), 'multiquad': (MultiquadRBF, multiquad), 'gaussian': (GaussianRBF, gaussian)}


def basis(H, name, deg):
    """The basis evaluated directly at integer orders 0, 1, ... and an arbitrary depth."""
    cls, ref = BASES[name]
    b = cls(deg)
    n = torch.arange(deg, dtype=torch.float64)
    if name == 'chebychev':         # its orders are implied by the last one
        n = torch.linspace(0, deg, deg, dtype=torch.float64)
    s = H.tensor('s', (1,), -2, 2)
    got = b(n, s)
    H.check(len(got) == b.n_eig, 'number of eigenfunctions')
    want = ref(torch.arange(deg, dtype=torch.float64), s.reshape(()), 0., 2.)
    for g, w in zip(got, want):
        H.check_shape(g, (deg,), 'basis')
        H.check_eq(g, w, f'{name} basis')


for name in BASES:
    for deg in (1, 2, 3, 5, 6):
        SUITE.case(f'basis-{name}-{deg}', bounds=f'{deg} degrees, any depth')(lambda H, n=name, d=deg: basis(H, n, d))


def rbf(H, name, deg, adaptive):
    """Passed centers and scales are used; adaptive ones are parameters, one per degree."""
    cls, ref = BASES[name]
    b = cls(deg, adaptive=adaptive, eps_scales=3, centers=0.5)
    n = torch.arange(deg, dtype=torch.float64)
    s = H.tensor('s', (1,), -2, 2)
    c, e = 0.5, 3.
    if adaptive:
        H.check(isinstance(b.centers, nn.Parameter) and isinstance(b.eps_scales, nn.Parameter), 'adaptive centers and scales are parameters')
        H.check(tuple(b.centers.shape) == (deg,) and tuple(b.eps_scales.shape) == (deg,), 'one center and scale per degree')
        H.check(bool((b.centers == 0.5).all()) and bool((b.eps_scales == 3).all()), 'they start at the passed values')
        # the passed values are common to all degrees
        c0, e = H.scalar('c', -2, 2), H.scalar('e', 0.5, 3)
        b.centers = nn.Parameter((c0 * torch.ones(deg, dtype=torch.float64)))
        b.eps_scales = nn.Parameter((e * torch.ones(deg, dtype=torch.float64)))
        c = c0
        got = b(n, s)
        # the radius over all centers is the norm of a vector of equal distances
        want = {'vanilla': lambda: [torch.sqrt(deg * (s - c) ** 2) * n / e], 'multiquad': lambda: [1 + torch.sqrt(1 + deg * (s - c) ** 2 * (n / e) ** 2)],
                'gaussian': lambda: [torch.exp(-deg * (s - c) ** 2 * ((n - c) / e) ** 2)]}[name]()
        if deg > 1:
            return
    else:
        got = b(n, s)
        want = ref(n, s.reshape(()), c, e)
    H.check_eq(got[0], want[0].detach(), f'{name} basis')


for name in ('vanilla', 'multiquad', 'gaussian'):
    for deg in (1, 3):
        for ad in (False, True):
            SUITE.case(f'rbf-{name}-{deg}{"-adaptive" if ad else ""}', bounds='passed centers and scales')(lambda H, n=name, d=deg, a=ad: rbf(H, n, d, a))


# ---------------------------------------------------------------- layers with the real bases, and their gradients
def real(H, name, deg, grad):
    cls, ref = BASES[name]
    L = symbolise(H, GalLinear(1, 1, expfunc=cls(deg)))
    orders = []
    fwd = L.expfunc.forward

    def spy(n_range, s):
        orders.append(n_range.detach())
        return fwd(n_range, s)
    L.expfunc.forward = spy
    x, t = H.tensor('x', (2, 1), -2, 2), H.scalar('t', -2, 2)
    if name == 'polynomial':
        H.assume(depth(L, t) > 0.1)
    inp = torch.cat([x, t * torch.ones_like(x)], 1)
    out = L(inp)
    n = torch.arange(deg, dtype=torch.float64) if name == 'chebychev' else orders[0]
    H.check(tuple(orders[0].shape) == (deg,), 'one order per degree')

    def want():
        s = depth(L, t)
        w = expand(H, L, ref(n, s, 0., 2.), s)
        return x * w[0] + w[1]
    H.check_eq(out.detach(), want().detach(), 'output')
    if grad:
        g = H.tensor('g', (2, 1), -2, 2)
        ps, names = [L.coeffs, L.dilation, L.shift], ['coefficients', 'dilation', 'shift']
        for p, q, nm in zip(torch.autograd.grad((g * out).sum(), ps, allow_unused=True), torch.autograd.grad((g * want()).sum(), ps, allow_unused=True), names):
            p, q = (torch.zeros(1, dtype=torch.float64) if v is None else v for v in (p, q))
            H.check_eq(p, q, f'gradient of the {nm}')


for name in BASES:
    for deg in (1, 2) if name == 'polynomial' else (1, 2, 4):
        SUITE.case(f'layer-{name}-{deg}', bounds=f'{deg} degrees, any coefficients, depth, dilation, shift; gradients')(lambda H, n=name, d=deg: real(H, n, d, n != 'vanilla'))


# ---------------------------------------------------------------- in a Neural ODE the depth is the integration time
def flow(H, solver, nt, bias=True):
    b = AnyBasis(H, 2, 1)
    L = symbolise(H, GalLinear(2, 2, bias=bias, expfunc=b))
    ode = NeuralODE(nn.Sequential(DepthCat(1), L), solver=solver)
    x = H.tensor('x', (2, 2), -2, 2)
    ts = increasing(H, 't', nt, -2, 2, gap=0.05)
    _, sol = ode(x, torch.stack(ts))

    def f(t, y):
        s = depth(L, t)
        w = expand(H, L, [[b.value(0, j, s) for j in range(2)]], s)
        return y @ w[:4].reshape(2, 2).T + (w[4:] if bias else 0)
    y = [x]
    for k in range(nt - 1):
        y.append(rk_step(H, solver, f, ts[k], y[-1], ts[k + 1] - ts[k]))
    H.check_eq(sol.detach(), torch.stack(y).detach(), 'trajectory')


SUITE.case('flow-euler', bounds='3 symbolic times, any basis')(lambda H: flow(H, 'euler', 3))
SUITE.case('flow-euler-nobias', bounds='3 symbolic times, any basis')(lambda H: flow(H, 'euler', 3, False))
SUITE.case('flow-midpoint', bounds='2 symbolic times, any basis')(lambda H: flow(H, 'midpoint', 2))


# larger structures
for a in ((1, 1, 12, 1, 1, True), (9, 2, 2, 1, 2, True), (2, 9, 2, 2, 2, False), (1, 2, 2, 7, 1, True), (2, 2, 2, 1, 17, True)):
    SUITE.case('linear-' + '-'.join(map(str, a[:5])) + ('' if a[5] else '-nobias'), bounds='any basis functions, coefficients, inputs, depth, dilation, shift')(lambda H, a=a: linear(H, *a))

contexts(SUITE, r'(linear|conv)-(2-3-2-2-2|3|ch)(-nobias)?|history-.*|basis-.*-3|rbf-.*-3')
