"""C22: energy-based models have the structure that makes them stable or conservative."""
from symtorch.runner import Suite
from torchdyn.core import NeuralODE
from torchdyn.models import HNN, GNF, LNN
from torchdyn.models.energy import ConservativeLinearSNF
from torchdyn.numerics import odeint
from .common import *

SUITE = Suite('C22', assumptions=['energies act on each sample separately', 'Lagrangians are regular: the Hessian in the velocities is invertible'])


class Energy(nn.Module):
    """Any twice differentiable function of a row (nout values, summed by the models)."""
    def __init__(self, H, name='E', nout=1):
        super().__init__()
        self.H, self.n, self.nm = H, nout, name
        self.u = H.uf(name, nout, time=False)

    def forward(self, x):
        return self.u(None, x)

    def d(self, row, *js):
        suf = ''.join(f'.d{j}' for j in sorted(js, key=str))
        return sum(self.H.ufs(f'{self.nm}_{i}{suf}', list(row)) for i in range(self.n))

    def grad(self, row):
        return torch.stack([self.d(row, j) for j in range(len(row))])


class Mat(nn.Module):
    def __init__(self, H, d):
        super().__init__()
        self.H, self.d = H, d
        self.u = H.uf('J', d * d, time=False)

    def forward(self, x):
        return self.u(None, x)


def call(m, x, grad):
    if grad:
        return m(x)
    with torch.no_grad():
        return m(x)


def hnn(H, n, batch, nout=1, grad=True):
    E = Energy(H, nout=nout)
    x = H.tensor('x', (batch, 2 * n), -2, 2)
    out = call(HNN(E), x.clone(), grad)
    H.check_shape(out, (batch, 2 * n), 'field')
    for b in range(batch):
        g = E.grad(x[b])
        H.check_eq(out[b, :n], g[n:], 'velocity is the derivative in the momentum')
        H.check_eq(out[b, n:], -g[:n], 'force is minus the derivative in the position')
        H.check_eq((out[b] * g).sum(), H.const(0.), 'the Hamiltonian changes along the field')


for n in (1, 2, 3):
    for b in (1, 2, 3):
        SUITE.case(f'hnn-{n}-{b}', bounds=f'any Hamiltonian, {2 * n} coordinates, batch {b}')(lambda H, n=n, b=b: hnn(H, n, b))
SUITE.case('hnn-outputs', bounds='network with two outputs')(lambda H: hnn(H, 1, 2, 2))
SUITE.case('hnn-nograd', bounds='called where gradients are disabled')(lambda H: hnn(H, 2, 2, grad=False))


def snf(H, d, batch, grad=True):
    E, J = Energy(H), Mat(H, d)
    x = H.tensor('x', (batch, d), -2, 2)
    out = call(ConservativeLinearSNF(E, J), x.clone(), grad)
    H.check_shape(out, (batch, d), 'field')
    for b in range(batch):
        g = E.grad(x[b])
        M = torch.stack([H.ufs(f'J_{i}', list(x[b])) for i in range(d * d)]).reshape(d, d)
        S = (M - M.T) / 2
        H.check_eq((out[b] * g).sum(), H.const(0.), 'the energy changes along the field')
        v = S @ g
        # the orientation of the skew part is a convention, but it is one for all samples and coordinates
        H.check_eq((out[b] - v) * (out[b] + v), torch.zeros_like(v), 'field is not the skew part of the matrix times the energy gradient')
        for i in range(d):
            for j in range(i):
                H.check_eq(out[b, i] * v[j], out[b, j] * v[i], 'field is not parallel to the skew part times the energy gradient')


for d in (1, 2, 3, 4):
    for b in (1, 2, 3):
        if d * b <= 9:
            SUITE.case(f'snf-{d}-{b}', bounds=f'any energy and matrix function, {d} coordinates, batch {b}')(lambda H, d=d, b=b: snf(H, d, b))
SUITE.case('snf-nograd', bounds='called where gradients are disabled')(lambda H: snf(H, 2, 2, False))


def gnf(H, d, batch, grad=True, nout=1):
    E = Energy(H, nout=nout)
    x = H.tensor('x', (batch, d), -2, 2)
    out = call(GNF(E), x.clone(), grad)
    H.check_shape(out, (batch, d), 'field')
    for b in range(batch):
        g = E.grad(x[b])
        H.check_eq(out[b], -g, 'field is minus the energy gradient')
        H.check((out[b] * g).sum() <= 0, 'the energy increases along the field')


for d in (1, 2, 3, 4):
    for b in (1, 2, 3):
        SUITE.case(f'gnf-{d}-{b}', bounds=f'any energy, {d} coordinates, batch {b}')(lambda H, d=d, b=b: gnf(H, d, b))
SUITE.case('gnf-nograd', bounds='called where gradients are disabled')(lambda H: gnf(H, 2, 2, False))
SUITE.case('gnf-outputs', bounds='network with two outputs')(lambda H: gnf(H, 2, 1, nout=2))


def lnn(H, n, batch, grad=True, nout=1):
    L = Energy(H, 'L', nout)
    x = H.tensor('x', (batch, 2 * n), -2, 2)
    for b in range(batch):
        M = torch.stack([torch.stack([L.d(x[b], n + i, n + j) for j in range(n)]) for i in range(n)])
        H.assume(det(M).abs() > 0.05)
    out = call(LNN(L), x.clone(), grad)
    H.check_shape(out, (batch, 2 * n), 'field')
    for b in range(batch):
        q, v, a = x[b, :n], x[b, n:], out[b, n:]
        H.check_eq(out[b, :n], v, 'velocities')
        # d/dt dL/dv = dL/dq
        for i in range(n):
            lhs = sum(L.d(x[b], n + i, n + j) * a[j] for j in range(n)) + sum(L.d(x[b], n + i, j) * v[j] for j in range(n))
            H.check_eq(lhs, L.d(x[b], i), 'Euler-Lagrange equation')


def det(M):
    if len(M) == 1:
        return M[0, 0]
    return M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]


for n in (1, 2):
    for b in (1, 2):
        SUITE.case(f'lnn-{n}-{b}', bounds=f'any regular Lagrangian, {n} degrees of freedom, batch {b}')(lambda H, n=n, b=b: lnn(H, n, b))
SUITE.case('lnn-3', bounds='batch of 3')(lambda H: lnn(H, 1, 3))
SUITE.case('lnn-nograd', bounds='called where gradients are disabled')(lambda H: lnn(H, 1, 2, False))


# ---------------------------------------------------------------- parameters receive the gradient of the field
class Quad(nn.Module):
    """E = p0 x0^2/2 + p1 x0 x1 + p2 x1^2/2 + p3 x0 x1^2, regular in x1 when p2 + 2 p3 x0 != 0."""
    def __init__(self, H):
        super().__init__()
        self.p = nn.Parameter(H.tensor('p', (4,), -2, 2))

    def forward(self, x):
        p, a, b = self.p, x[..., 0], x[..., 1]
        return p[0] * a ** 2 / 2 + p[1] * a * b + p[2] * b ** 2 / 2 + p[3] * a * b ** 2


class QJ(nn.Module):
    def __init__(self, H):
        super().__init__()
        self.w = nn.Parameter(H.tensor('w', (4,), -2, 2))

    def forward(self, x):
        return torch.stack([self.w[0] * x[:, 0], self.w[1] * x[:, 1], self.w[2] + 0 * x[:, 0], self.w[3] * x[:, 0]], 1)


def training(H, kind, batch, sens, steps=1):
    E = Quad(H)
    J = QJ(H)
    m = dict(hnn=HNN, gnf=GNF, lnn=LNN)[kind](E) if kind != 'snf' else ConservativeLinearSNF(E, J)
    x = H.tensor('x', (batch, 2), -1, 1)
    ps = [E.p] + ([J.w] if kind == 'snf' else [])
    w = H.tensor('w', (batch, 2), -2, 2)
    o = 1.
    if kind == 'snf':       # the orientation of the skew part is a convention: read it off a constant example
        ex = ConservativeLinearSNF(lambda z: z[:, 0], lambda z: torch.tensor([0., 1., -1., 0.], dtype=z.dtype) + 0 * z[:, :1])
        o = 1. if float(ex(H.const([[0., 0.]]))[0, 1]) > 0 else -1.
    if kind == 'lnn':
        H.assume(((E.p[2] + 2 * E.p[3] * x[:, 0]).abs() > 0.1).all())

    def ref(p, x, j=None):
        a, b = x[:, 0], x[:, 1]
        ga, gb = p[0] * a + p[1] * b + p[3] * b ** 2, p[1] * a + p[2] * b + 2 * p[3] * a * b
        if kind == 'hnn':
            return torch.stack([gb, -ga], 1)
        if kind == 'gnf':
            return -torch.stack([ga, gb], 1)
        if kind == 'snf':
            s = o * (j[1] * b - j[2]) / 2
            return torch.stack([-s * gb, s * ga], 1)
        return torch.stack([b, (ga - (p[1] + 2 * p[3] * b) * b) / (p[2] + 2 * p[3] * a)], 1)
    y0 = x.clone().requires_grad_(True)
    if sens == 'field':
        got = torch.autograd.grad((w * m(y0)).sum(), ps + [y0])
    else:
        ts = increasing(H, 't', 2, -1, 1, gap=0.05)
        _, sol = NeuralODE(m, solver='euler', sensitivity=sens, solver_adjoint='euler')(y0, torch.stack(ts))
        got = torch.autograd.grad((w * sol[-1]).sum(), ps + [y0])
    qs = [p.detach().clone().requires_grad_(True) for p in ps]
    z = x.detach().clone().requires_grad_(True)
    if sens == 'field':
        loss = (w * ref(qs[0], z, *qs[1:])).sum()
        want = list(torch.autograd.grad(loss, qs + [z]))
    elif sens == 'autograd':
        loss = (w * (z + (ts[1] - ts[0]) * ref(qs[0], z, *qs[1:]))).sum()
        want = list(torch.autograd.grad(loss, qs + [z]))
    else:
        dt = ts[1] - ts[0]
        y = (z + dt * ref(qs[0], z, *qs[1:])).detach()
        H.check_eq(sol[-1].detach(), y, 'final state')
        y.requires_grad_(True)
        *gp, gy = torch.autograd.grad((w * ref(qs[0], y, *qs[1:])).sum(), qs + [y])
        want = [dt * g for g in gp] + [w + dt * gy]
    for g, v, n in zip(got, want, ['energy parameters', 'matrix parameters', 'state'] if kind == 'snf' else ['energy parameters', 'state']):
        H.check_eq(g, v, f'gradient of the {n}')


for kind in ('hnn', 'gnf', 'snf', 'lnn'):
    for sens in ('field', 'autograd', 'adjoint'):
        if kind in ('lnn', 'snf') and sens == 'adjoint':
            continue
        SUITE.case(f'train-{kind}-{sens}', bounds='quadratic-cubic energy with symbolic parameters, batch 2')(lambda H, k=kind, s=sens: training(H, k, 1 if k == 'lnn' else 2, s))


# ---------------------------------------------------------------- integrated
def integrated(H, kind, solver):
    E = Energy(H)
    m = dict(hnn=HNN, gnf=GNF)[kind](E)
    x = H.tensor('x', (2, 2), -2, 2)
    ts = increasing(H, 't', 3, -2, 2, gap=0.05)
    _, sol = NeuralODE(m, solver=solver)(x.clone(), torch.stack(ts))

    def ref(t, y):
        return torch.stack([(torch.stack([E.d(r, 1), -E.d(r, 0)]) if kind == 'hnn' else -E.grad(r)) for r in y])
    y = [x]
    for k in range(2):
        y.append(rk_step(H, solver, ref, ts[k], y[-1], ts[k + 1] - ts[k]))
    H.check_eq(sol.detach(), torch.stack(y), 'trajectory')


for kind in ('hnn', 'gnf'):
    for s in ('euler', 'midpoint'):
        SUITE.case(f'flow-{kind}-{s}', bounds='any energy, 3 symbolic times, batch 2')(lambda H, k=kind, s=s: integrated(H, k, s))


# ---------------------------------------------------------------- repeated calls
def calls(H, kind):
    """The field depends on the current parameters and the current batch only."""
    E, J = Quad(H), QJ(H)
    m = dict(hnn=HNN, gnf=GNF, lnn=LNN)[kind](E) if kind != 'snf' else ConservativeLinearSNF(E, J)
    keeps, o = [], None
    x0 = H.tensor('x0', (2, 2), -1, 1)
    for i in range(4):
        x = x0 if i in (0, 2, 3) else H.tensor('x1', (1, 2), -1, 1)
        if i >= 2:
            # an optimiser step changes the parameters in place; the batch is one the model has seen before
            with torch.no_grad():
                E.p.add_(H.tensor(f'd{i}', (4,), -1, 1))
                if kind == 'snf':
                    J.w.add_(H.tensor(f'e{i}', (4,), -1, 1))
        p, w = E.p.detach().clone(), J.w.detach().clone()
        if kind == 'lnn':
            H.assume(((p[2] + 2 * p[3] * x[:, 0]).abs() > 0.1).all())
        y = x.clone()
        out = m(y)
        a, b = x[:, 0], x[:, 1]
        ga, gb = p[0] * a + p[1] * b + p[3] * b ** 2, p[1] * a + p[2] * b + 2 * p[3] * a * b
        if kind == 'hnn':
            want = torch.stack([gb, -ga], 1)
        elif kind == 'gnf':
            want = -torch.stack([ga, gb], 1)
        elif kind == 'snf':
            if o is None:
                ex = ConservativeLinearSNF(lambda z: z[:, 0], lambda z: torch.tensor([0., 1., -1., 0.], dtype=z.dtype) + 0 * z[:, :1])
                o = 1. if float(ex(H.const([[0., 0.]]))[0, 1]) > 0 else -1.
            s = o * (w[1] * b - w[2]) / 2
            want = torch.stack([-s * gb, s * ga], 1)
        else:
            # dL/dq = ga; d/dt dL/dv = M acc + d2L/dvdq v
            M, C = p[2] + 2 * p[3] * a, p[1] + 2 * p[3] * b
            H.check_eq(out[:, 0].detach(), b, f'call {i}: velocity')
            H.check_eq(M * out[:, 1].detach() + C * b, ga, f'call {i}: Euler-Lagrange equation')
            want = None
        if want is not None:
            H.check_eq(out.detach(), want, f'call {i}: field of the current parameters')
        H.check_eq(y.detach(), x, f'call {i}: the state was modified')
        keeps.append((out, out.detach().clone()))
    for p, q in keeps:
        H.check_eq(p.detach(), q, 'a field returned earlier changed')


for kind in ('hnn', 'gnf', 'snf', 'lnn'):
    SUITE.case(f'calls-{kind}', bounds='four calls, other batch, parameters changed in place between calls')(lambda H, k=kind: calls(H, k))


# larger structures
SUITE.case('hnn-1-17', bounds='any Hamiltonian, 2 coordinates, batch 17')(lambda H: hnn(H, 1, 17))
SUITE.case('hnn-6-1', bounds='any Hamiltonian, 12 coordinates')(lambda H: hnn(H, 6, 1))
SUITE.case('gnf-2-17', bounds='any energy, 2 coordinates, batch 17')(lambda H: gnf(H, 2, 17))
SUITE.case('gnf-9-1', bounds='any energy, 9 coordinates')(lambda H: gnf(H, 9, 1))
SUITE.case('snf-1-9', bounds='any energy and matrix function, batch 9')(lambda H: snf(H, 1, 9))
SUITE.case('snf-5-1', bounds='any energy and matrix function, 5 coordinates')(lambda H: snf(H, 5, 1))
SUITE.case('lnn-1-9', bounds='any regular Lagrangian, 1 degree of freedom, batch 9')(lambda H: lnn(H, 1, 9))

contexts(SUITE, r'flow-.*|calls-.*')
