"""Shared by C14-C16: parametrised fields with closed-form flows, trajectory losses, gradients."""
from .common import *


def param(H, name, shape=(), lo=-2, hi=2):
    return nn.Parameter(H.tensor(name, shape, lo, hi))


class Field(nn.Module):
    """vector field of (t, x) with the given parameters; fn(params dict, t, x)."""
    def __init__(self, fn, **ps):
        super().__init__()
        for k, v in ps.items():
            setattr(self, k, v)
        self.fn = fn

    def forward(self, t, x):
        return self.fn(self, t, x)


class FieldX(nn.Module):
    def __init__(self, fn, **ps):
        super().__init__()
        for k, v in ps.items():
            setattr(self, k, v)
        self.fn = fn

    def forward(self, x):
        return self.fn(self, None, x)


# ---- systems that every fourth-order method integrates exactly, with their adjoints ----
# each: fn(p, t, x), flow(p, t0, x0, t) closed form, params {name: shape}, dim
def poly_f(p, t, x):
    return p.a + p.b * t + p.c * t * t + 0 * x


def poly_flow(p, t0, x0, t):
    return x0 + p.a * (t - t0) + p.b * (t ** 2 - t0 ** 2) / 2 + p.c * (t ** 3 - t0 ** 3) / 3


def nil_f(p, t, x):
    # x1' = w0 x2 + w1 t, x2' = w2
    return torch.stack([p.w[0, 0] * x[..., 1] + p.w[0, 1] * t, p.w[1, 0] + 0 * x[..., 1]], -1)


def nil_flow(p, t0, x0, t):
    h = t - t0
    a, b, c = p.w[0, 0], p.w[0, 1], p.w[1, 0]
    return torch.stack([x0[..., 0] + a * (x0[..., 1] * h + c * h ** 2 / 2) + b * (t ** 2 - t0 ** 2) / 2, x0[..., 1] + c * h], -1)


def quad_f(p, t, x):
    # x1' = a x2^2, x2' = b
    return torch.stack([p.a * x[..., 1] ** 2, p.b + 0 * x[..., 1]], -1)


def quad_flow(p, t0, x0, t):
    h = t - t0
    q = x0[..., 1]
    return torch.stack([x0[..., 0] + p.a * (q ** 2 * h + q * p.b * h ** 2 + p.b ** 2 * h ** 3 / 3), q + p.b * h], -1)


def chain_f(p, t, x):
    # x1' = a x2, x2' = b x3, x3' = 0
    return torch.stack([p.a * x[..., 1], p.b * x[..., 2], 0 * x[..., 2]], -1)


def chain_flow(p, t0, x0, t):
    h = t - t0
    return torch.stack([x0[..., 0] + p.a * (x0[..., 1] * h + p.b * x0[..., 2] * h ** 2 / 2), x0[..., 1] + p.b * x0[..., 2] * h, x0[..., 2]], -1)


def time_f(p, t, x):
    # x1' = a t x2, x2' = 0
    return torch.stack([p.a * t * x[..., 1], 0 * x[..., 1]], -1)


def time_flow(p, t0, x0, t):
    return torch.stack([x0[..., 0] + p.a * x0[..., 1] * (t ** 2 - t0 ** 2) / 2, x0[..., 1]], -1)


SYSTEMS = {
    'poly': dict(f=poly_f, flow=poly_flow, params=dict(a=(), b=(), c=()), dim=1),
    'nil': dict(f=nil_f, flow=nil_flow, params=dict(w=(2, 2)), dim=2),
    'quad': dict(f=quad_f, flow=quad_flow, params=dict(a=(), b=()), dim=2),
    'chain': dict(f=chain_f, flow=chain_flow, params=dict(a=(1,), b=(1, 1)), dim=3),
    'time': dict(f=time_f, flow=time_flow, params=dict(a=()), dim=2),
}
SYSTEMS['chain'] = dict(SYSTEMS['chain'], f=lambda p, t, x: chain_f(_sq(p), t, x), flow=lambda p, *a: chain_flow(_sq(p), *a))


class _sq:
    def __init__(self, p):
        self.a, self.b = p.a.reshape(()), p.b.reshape(())


def grid(H, n, rev, uniform=False, gap=0.05):
    if uniform:
        t0, h = H.scalar('t0', -1, 1), H.scalar('h', 0.1, 1)
        ts = [t0 + k * h for k in range(n)]
    else:
        ts = increasing(H, 't', n, -1, 1, gap=gap)
    return torch.stack(ts[::-1] if rev else ts).detach()


def closed(sysm, p, x, span):
    """The exact trajectory as a differentiable function of x, the parameters and the times."""
    return torch.stack([x] + [sysm['flow'](p, span[0], x, span[k]) for k in range(1, len(span))])


def grads(loss, wrt):
    gs = torch.autograd.grad(loss, wrt, allow_unused=True)
    return [torch.zeros_like(w) if g is None else g.detach() for g, w in zip(gs, wrt)]


def compare(H, got, want, names, tag=''):
    for g, w, n in zip(got, want, names):
        H.check_shape(g, tuple(w.shape), f'{tag}gradient of {n}')
        H.check_eq(g, w, f'{tag}gradient with respect to {n}')


def interleaved(H, sens, sysn, api, order, spec):
    """Several integrations through one model before any backward pass; each gradient belongs to its own integration."""
    from torchdyn.core import ODEProblem, NeuralODE
    S = SYSTEMS[sysn]
    ps = {k: param(H, k, s) for k, s in S['params'].items()}
    m = Field(S['f'], **ps)
    kw = dict(sensitivity=sens, solver_adjoint='rk4')
    prob = (NeuralODE if api == 'node' else ODEProblem)(m, 'rk4', **kw)
    runs = []
    for i, (n, batch, rev) in enumerate(spec):
        x = H.tensor(f'x{i}', (batch, S['dim']), -2, 2).requires_grad_(True)
        ts = increasing(H, f't{i}_', n, -1, 1, gap=0.05)
        span = torch.stack(ts[::-1] if rev else ts).detach()
        te, sol = prob(x, span)
        g = H.tensor(f'g{i}', (n, batch, S['dim']), -2, 2)
        xs = closed(S, m, x, span)
        H.check_eq(sol.detach(), xs.detach(), f'trajectory of run {i}')
        runs.append((x, sol, g, xs))
    wrt = list(ps.values())
    if order == 'joint':
        got = grads(sum((g * sol).sum() for x, sol, g, xs in runs), [r[0] for r in runs] + wrt)
        want = grads(sum((g * xs).sum() for x, sol, g, xs in runs), [r[0] for r in runs] + wrt)
        compare(H, got, want, [f'x{i}' for i in range(len(runs))] + list(ps))
        return
    seq = list(enumerate(runs))
    for rep in range(2 if order == 'again' else 1):
        for i, (x, sol, g, xs) in (seq[::-1] if order == 'reversed' else seq):
            gs = torch.autograd.grad((g * sol).sum(), [x] + wrt, allow_unused=True, retain_graph=order == 'again')
            gs = [torch.zeros_like(w) if q is None else q.detach() for q, w in zip(gs, [x] + wrt)]
            want = torch.autograd.grad((g * xs).sum(), [x] + wrt, allow_unused=True, retain_graph=True)
            want = [torch.zeros_like(w) if q is None else q.detach() for q, w in zip(want, [x] + wrt)]
            compare(H, gs, want, ['x0'] + list(ps), f'run {i}, pass {rep}: ')


def updated(H, sens, sysn, api):
    """An optimiser step in place between two integrations; gradients accumulate in the parameters' `.grad` as usual."""
    from torchdyn.core import ODEProblem, NeuralODE
    S = SYSTEMS[sysn]
    ps = {k: param(H, k, s) for k, s in S['params'].items()}
    m = Field(S['f'], **ps)
    prob = (NeuralODE if api == 'node' else ODEProblem)(m, 'rk4', sensitivity=sens, solver_adjoint='rk4')
    for i in range(2):
        x = H.tensor(f'x{i}', (1, S['dim']), -2, 2).requires_grad_(True)
        span = torch.stack(increasing(H, f't{i}_', 2 + i, -1, 1, gap=0.05)).detach()
        te, sol = prob(x, span)
        g = H.tensor(f'g{i}', (2 + i, 1, S['dim']), -2, 2)
        got = grads((g * sol).sum(), [x] + list(ps.values()))
        xs = closed(S, m, x, span)
        H.check_eq(sol.detach(), xs.detach(), f'trajectory of run {i}')
        compare(H, got, grads((g * xs).sum(), [x] + list(ps.values())), ['x0'] + list(ps), f'run {i}: ')
        with torch.no_grad():
            for k, p in ps.items():
                p.add_(H.tensor(f'd{k}', tuple(p.shape), -1, 1))


def add_sens(SUITE, sens, systems):
    for order in ('forward', 'reversed', 'joint', 'again'):
        for j, (sysn, api) in enumerate(systems):
            spec = [(3, 1, False), (2, 2, True)] if j % 2 == 0 else [(2, 1, False), (2, 1, False), (3, 2, False)]
            SUITE.case(f'interleaved-{order}-{sysn}-{api}', bounds=f'integrations {spec} (times, batch, decreasing) before any backward pass; order of the backward passes: {order}')(
                lambda H, a=(sens, sysn, api, order, spec): interleaved(H, *a))
    for sysn, api in systems:
        SUITE.case(f'updated-{sysn}-{api}', bounds='two integrations with a change of the parameters in between')(lambda H, a=(sens, sysn, api): updated(H, *a))
