"""C21: continuous normalizing flows propagate exactly the negative divergence."""
import itertools
from symtorch.runner import Suite
from torchdyn.core import NeuralODE
from torchdyn.models import CNF
from torchdyn.models.cnf import autograd_trace, hutch_trace
from torchdyn.nn import DepthCat, Augmenter, DataControl
from .common import *

SUITE = Suite('C21', assumptions=['networks act on each sample separately'])


class UNet(nn.Module):
    """Any differentiable network: values and partial derivatives are uninterpreted functions of a row."""
    def __init__(self, H, d, extra=0):
        super().__init__()
        self.H, self.d, self.extra, self.rows = H, d, extra, 0
        self.u = H.uf('net', d, time=False)

    def forward(self, x):
        self.rows += 1
        return self.u(None, x)

    def value(self, row):
        return torch.stack([self.H.ufs(f'net_{i}', list(row)) for i in range(self.d)])

    def jac(self, row):
        return [[self.H.ufs(f'net_{i}.d{j}', list(row)) for j in range(self.d)] for i in range(self.d)]


class Dist:
    """Noise distribution: every sample is a fresh arbitrary tensor."""
    def __init__(self, H, d):
        self.H, self.d, self.drawn = H, d, []

    def sample(self, shape):
        self.drawn.append(self.H.tensor(f'v{len(self.drawn)}', tuple(shape) + (self.d,), -2, 2))
        return self.drawn[-1]


class Fixed:
    """A distribution that returns the given samples."""
    def sample(self, shape):
        raise RuntimeError


def field(net, x, v=None, extra=()):
    """The CNF field by its definition."""
    rows = []
    for b in range(len(x)):
        row = list(x[b, 1:]) + list(extra)
        J = net.jac(row)
        if v is None:
            div = sum(J[i][i] for i in range(net.d))
        else:
            div = sum(v[b, i] * J[i][j] * v[b, j] for i in range(net.d) for j in range(net.d))
        rows.append(torch.cat([-div.reshape(1), net.value(row)]))
    return torch.stack(rows)


def pointwise(H, d, n, how, grad=True):
    net = UNet(H, d)
    if how == 'default':
        m, v = CNF(net), None
    elif how == 'trace':
        m, v = CNF(net, trace_estimator=autograd_trace), None
    else:
        m = CNF(net, trace_estimator=hutch_trace, noise_dist=Fixed())
        v = H.tensor('v', (n, d), -2, 2)
        m.noise = v
    x = H.tensor('x', (n, d + 1), -2, 2)
    if grad:
        x.requires_grad_(True)
        out = m(x)
    else:
        with torch.no_grad():
            out = m(x)
    H.check_shape(out, (n, d + 1), 'field')
    H.check_eq(out, field(net, x.detach(), v), 'field')
    # the first dimension has no influence
    y = torch.cat([H.tensor('z', (n, 1), -2, 2), x.detach()[:, 1:]], 1)
    H.check_eq(m(y), out.detach(), 'field after changing the first dimension')


for d in (1, 2, 3, 4):
    for n in (1, 2, 3):
        for how in ('default', 'trace', 'hutch'):
            SUITE.case(f'field-{how}-{d}x{n}', bounds='any differentiable network, states, noise')(lambda H, d=d, n=n, h=how: pointwise(H, d, n, h))
SUITE.case('field-nograd', bounds='called where gradients are disabled')(lambda H: pointwise(H, 2, 2, 'default', False))
SUITE.case('field-hutch-nograd', bounds='called where gradients are disabled')(lambda H: pointwise(H, 2, 2, 'hutch', False))


def unbiased(H, d):
    """The mean of the estimator over Rademacher and over axis-aligned noise is the trace."""
    net = UNet(H, d)
    x = H.tensor('x', (1, d + 1), -2, 2)
    exact = CNF(net)(x)
    signs = list(itertools.product((-1., 1.), repeat=d))
    m = CNF(net, hutch_trace, Fixed())
    tot = 0
    for s in signs:
        m.noise = H.const([list(s)])
        tot = tot + m(x)
    H.check_eq(tot / len(signs), exact, 'mean over sign noise')
    tot = 0
    for i in range(d):
        m.noise = H.const([[1. if j == i else 0. for j in range(d)]])
        tot = tot + m(x)[:, 0]
    H.check_eq(tot, exact[:, 0], 'sum over the axes')


for d in (1, 2, 3):
    SUITE.case(f'unbiased-{d}', bounds='any differentiable network')(lambda H, d=d: unbiased(H, d))


@SUITE.case('requires-noise', bounds='Hutchinson without a noise distribution')
def _(H):
    expect_raise(H, lambda: CNF(UNet(H, 1), trace_estimator=hutch_trace), 'Hutchinson without noise is accepted')


# ---------------------------------------------------------------- integrated
def rk(H, solver, g, ts, x):
    out = [x]
    for k in range(len(ts) - 1):
        out.append(rk_step(H, solver, g, ts[k], out[-1], ts[k + 1] - ts[k]))
    return torch.stack(out)


def flow(H, d, n, nt, how, solver='euler', sens='autograd', entry='forward', depth=False, aug=False, calls=1, mixed=False):
    net = UNet(H, d)
    dist = Dist(H, d)
    hutch = how == 'hutch'
    inner = net
    if depth:
        inner = nn.Sequential(DepthCat(1), net)
    kw = dict(trace_estimator=hutch_trace, noise_dist=dist) if hutch else {}
    ode = NeuralODE(CNF(inner, **kw), solver=solver, sensitivity=sens, solver_adjoint=solver)
    keeps = []
    for c in range(calls):
        if mixed:
            n, entry = (2, 1, 3)[c % 3], ('forward', 'trajectory')[c % 2]
        x = H.tensor(f'x{c}', (n, d + 1), -2, 2)
        x0 = x.clone()
        ts = increasing(H, f't{c}', nt, -2, 2, gap=0.05)
        span = torch.stack(ts)
        if aug:
            model = nn.Sequential(Augmenter(augment_idx=1, augment_dims=1, order='first'), ode)
            x = torch.cat([torch.zeros_like(x[:, :1]), x[:, 1:]], 1)
            ode.t_span = span
            te, sol = model(x[:, 1:])
        elif entry == 'forward':
            te, sol = ode(x, span)
        else:
            sol = ode.trajectory(x, span)
        H.check(len(dist.drawn) == (c + 1 if hutch else 0), f'{len(dist.drawn)} noise samples in {c + 1} integrations')
        v = dist.drawn[-1] if hutch else None
        if hutch:
            H.check_shape(v, (n, d), 'noise')
        want = rk(H, solver, lambda t, y: field(net, y, v, (t,) if depth else ()), ts, x)
        H.check_shape(sol, tuple(want.shape), 'trajectory')
        H.check_eq(sol, want, f'trajectory of call {c}')
        if not aug:
            H.check_eq(x, x0, 'the initial state was modified')
        keeps.append((sol, sol.clone()))
    for a, b in keeps:
        H.check_eq(a, b, 'a trajectory returned earlier changed')


for how in ('default', 'hutch'):
    for solver in ('euler', 'midpoint'):
        for d, n in ((1, 2), (2, 1), (2, 2)):
            SUITE.case(f'flow-{how}-{solver}-{d}x{n}', bounds='any network, 2-3 symbolic times')(
                lambda H, h=how, s=solver, d=d, n=n: flow(H, d, n, 3 if s == 'euler' else 2, h, s))
    for sens in ('adjoint', 'interpolated_adjoint'):
        SUITE.case(f'flow-{how}-{sens}', bounds='any network, 3 symbolic times')(lambda H, h=how, s=sens: flow(H, 2, 1, 3, h, 'euler', s))
    SUITE.case(f'flow-{how}-trajectory', bounds='any network, 3 symbolic times')(lambda H, h=how: flow(H, 2, 2, 3, h, entry='trajectory'))
    SUITE.case(f'flow-{how}-calls', bounds='two successive integrations')(lambda H, h=how: flow(H, 1, 2, 2, h, calls=2))
    SUITE.case(f'flow-{how}-calls-trajectory', bounds='two successive integrations')(lambda H, h=how: flow(H, 1, 2, 2, h, entry='trajectory', calls=2))
    SUITE.case(f'flow-{how}-augment', bounds='Augmenter in front')(lambda H, h=how: flow(H, 2, 2, 2, h, aug=True))
SUITE.case('flow-rk4', bounds='any network, one step')(lambda H: flow(H, 1, 1, 2, 'hutch', 'rk4'))
SUITE.case('flow-depth', bounds='network of state and time')(lambda H: flow(H, 2, 1, 3, 'default', depth=True))
SUITE.case('flow-depth-midpoint', bounds='network of state and time')(lambda H: flow(H, 1, 2, 2, 'hutch', 'midpoint', depth=True))


# ---------------------------------------------------------------- data control: only the data is the control
class Ctl(nn.Module):
    def __init__(self, H, d):
        super().__init__()
        self.u = H.uf('ctl', d, time=False)

    def forward(self, z):
        return self.u(None, z)


@SUITE.case('control', bounds='network of state and initial condition, 3 symbolic times')
def _(H):
    d = 2
    ode = NeuralODE(CNF(nn.Sequential(DataControl(), Ctl(H, d))), solver='euler')
    x = H.tensor('x', (2, d + 1), -2, 2)
    ts = increasing(H, 't', 3, -2, 2, gap=0.05)
    te, sol = ode(x, torch.stack(ts))
    ys = [x]
    for k in range(2):
        rows = []
        for b in range(2):
            args = list(ys[-1][b, 1:]) + list(x[b, 1:])
            div = sum(H.ufs(f'ctl_{i}.d{i}', args) for i in range(d))
            rows.append(torch.cat([-div.reshape(1)] + [H.ufs(f'ctl_{i}', args).reshape(1) for i in range(d)]))
        ys.append(ys[-1] + (ts[k + 1] - ts[k]) * torch.stack(rows))
    H.check_eq(sol, torch.stack(ys), 'trajectory with data control')


# ---------------------------------------------------------------- training: gradients reach the parameters through the trace
class Poly(nn.Module):
    """x1' = a x1 + b x2 + c x1 x2, x2' = e x2 + g x1^2; divergence a + c x2 + e."""
    def __init__(self, H):
        super().__init__()
        self.p = nn.Parameter(H.tensor('p', (5,), -2, 2))

    def forward(self, x):
        a, b, c, e, g = self.p
        return torch.stack([a * x[:, 0] + b * x[:, 1] + c * x[:, 0] * x[:, 1], e * x[:, 1] + g * x[:, 0] ** 2], 1)


def exact_poly(p, x, v=None):
    a, b, c, e, g = p
    q, r = x[:, 1], x[:, 2]
    f1, f2 = a * q + b * r + c * q * r, e * r + g * q ** 2
    if v is None:
        div = a + c * r + e
    else:
        div = v[:, 0] ** 2 * (a + c * r) + v[:, 0] * v[:, 1] * (b + c * q + 2 * g * q) + v[:, 1] ** 2 * e
    return torch.stack([-div, f1, f2], 1)


def train(H, how, sens, n, nt):
    net = Poly(H)
    dist = Dist(H, 2)
    kw = dict(trace_estimator=hutch_trace, noise_dist=dist) if how == 'hutch' else {}
    ode = NeuralODE(CNF(net, **kw), solver='euler', sensitivity=sens, solver_adjoint='euler')
    x = H.tensor('x', (n, 3), -2, 2).requires_grad_(True)
    ts = increasing(H, 't', nt, -1, 1, gap=0.05)
    _, sol = ode(x, torch.stack(ts))
    w = H.tensor('w', (n, 3), -2, 2)
    got = torch.autograd.grad((w * sol[-1]).sum(), [net.p, x])
    p, y0 = net.p.detach().clone().requires_grad_(True), x.detach().clone().requires_grad_(True)
    y, v = y0, dist.drawn[-1] if dist.drawn else None
    for k in range(nt - 1):
        y = y + (ts[k + 1] - ts[k]) * exact_poly(p, y, v)
    want = torch.autograd.grad((w * y).sum(), [p, y0])
    H.check(len(dist.drawn) == (1 if how == 'hutch' else 0), 'number of noise samples after the backward pass')
    H.check_eq(sol[-1], y.detach(), 'final state')
    H.check_eq(got[0], want[0], 'gradient of the parameters')
    H.check_eq(got[1], want[1], 'gradient of the initial state')


for how in ('default', 'hutch'):
    for n, nt in ((1, 2), (2, 2), (1, 3)):
        SUITE.case(f'train-{how}-{n}-{nt}', bounds='quadratic field with symbolic parameters')(lambda H, h=how, n=n, nt=nt: train(H, h, 'autograd', n, nt))


def train_adjoint(H, how, n):
    """One backward Euler-step of the adjoint system of the flow, noise held fixed."""
    net = Poly(H)
    dist = Dist(H, 2)
    kw = dict(trace_estimator=hutch_trace, noise_dist=dist) if how == 'hutch' else {}
    ode = NeuralODE(CNF(net, **kw), solver='euler', sensitivity='adjoint', solver_adjoint='euler')
    x = H.tensor('x', (n, 3), -2, 2).requires_grad_(True)
    ts = increasing(H, 't', 2, -1, 1, gap=0.05)
    dt = ts[1] - ts[0]
    _, sol = ode(x, torch.stack(ts))
    w = H.tensor('w', (n, 3), -2, 2)
    got = torch.autograd.grad((w * sol[-1]).sum(), [net.p, x])
    H.check(len(dist.drawn) == (1 if how == 'hutch' else 0), 'number of noise samples after the backward pass')
    p = net.p.detach().clone().requires_grad_(True)
    v = dist.drawn[-1] if dist.drawn else None
    y = x.detach() + dt * exact_poly(p.detach(), x.detach(), v)
    y.requires_grad_(True)
    want = torch.autograd.grad((w * exact_poly(p, y, v)).sum(), [p, y])
    H.check_eq(got[0], dt * want[0], 'adjoint gradient of the parameters')
    H.check_eq(got[1], w + dt * want[1], 'adjoint gradient of the initial state')


for how in ('default', 'hutch'):
    for n in (1, 2):
        SUITE.case(f'adjoint-{how}-{n}', bounds='quadratic field with symbolic parameters, one step')(lambda H, h=how, n=n: train_adjoint(H, h, n))


for how in ('default', 'hutch'):
    SUITE.case(f'flow-{how}-mixed', bounds='three integrations of other batch sizes, forward and trajectory')(lambda H, h=how: flow(H, 2, 2, 2, h, calls=3, mixed=True))


def parameters(H, how):
    """After an optimiser step in place, the divergence is that of the current network, on the same batch."""
    w = nn.Parameter(H.tensor('w', (2, 2), -2, 2))

    class Net(nn.Module):
        def __init__(self):
            super().__init__()
            self.w = w

        def forward(self, x):
            a, b = x[:, 0], x[:, 1]
            return torch.stack([w[0, 0] * a * b + w[0, 1] * b, w[1, 0] * a + w[1, 1] * b ** 2], 1)
    m = CNF(Net(), trace_estimator=hutch_trace, noise_dist=Dist(H, 2)) if how == 'hutch' else CNF(Net())
    x = H.tensor('x', (2, 3), -2, 2)
    v = H.tensor('v', (2, 2), -2, 2)
    m.noise = v if how == 'hutch' else None
    for i in range(2):
        if i:
            with torch.no_grad():
                w.add_(H.tensor('d', (2, 2), -1, 1))
        p = w.detach()
        out = m(x.clone()).detach()
        a, b = x[:, 1], x[:, 2]
        J = torch.stack([torch.stack([p[0, 0] * b, p[0, 0] * a + p[0, 1]], 1), torch.stack([p[1, 0] + 0 * a, 2 * p[1, 1] * b], 1)], 1)
        tr = J[:, 0, 0] + J[:, 1, 1] if how != 'hutch' else torch.einsum('bi,bij,bj->b', v, J, v)
        H.check_eq(out[:, 0], -tr, f'call {i}: divergence')
        H.check_eq(out[:, 1:], torch.stack([p[0, 0] * a * b + p[0, 1] * b, p[1, 0] * a + p[1, 1] * b ** 2], 1), f'call {i}: field')


for how in ('default', 'hutch'):
    SUITE.case(f'parameters-{how}', bounds='bilinear network, symbolic parameters changed in place between two calls')(lambda H, h=how: parameters(H, h))


# larger structures
for d, n in ((17, 2), (2, 9)):
    for how in ('default', 'hutch'):
        SUITE.case(f'field-{how}-{d}x{n}', bounds='any differentiable network, states, noise')(lambda H, d=d, n=n, h=how: pointwise(H, d, n, h))
SUITE.case('flow-default-euler-9', bounds='any network, 9 symbolic times')(lambda H: flow(H, 1, 1, 9, 'default', 'euler'))
