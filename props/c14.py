"""C14: adjoint gradients are the gradients of the integrated system."""
from symtorch.runner import Suite
from torchdyn.core import ODEProblem, NeuralODE
from torchdyn.core.problems import MultipleShootingProblem
from .sens import *

SUITE = Suite('C14', assumptions=['exactness: on the polynomial systems used the fourth-order solver has no truncation error in the forward and in the backward pass; '
                                  'for arbitrary fields the right-hand side of the adjoint system is decided pointwise through a recording solver'])


def exact(H, sysn, n, batch, rev=False, api='problem', pick=None, tgrad=False, solver='rk4', extra=False, uniform=False, save=None):
    S = SYSTEMS[sysn]
    ps = {k: param(H, k, s) for k, s in S['params'].items()}
    if extra:
        ps['unused'] = param(H, 'unused', (2,))
    m = Field(S['f'], **ps)
    x = H.tensor('x', tuple(batch) + (S['dim'],), -2, 2).requires_grad_(True)
    span = grid(H, n, rev, uniform)
    if tgrad:
        span.requires_grad_(True)
    if api == 'problem':
        prob = ODEProblem(m, solver, sensitivity='adjoint', solver_adjoint='rk4')
    elif api == 'default':
        prob = ODEProblem(m, solver, sensitivity='adjoint')
    else:
        prob = NeuralODE(m, solver, sensitivity='adjoint', solver_adjoint='rk4')
    ids = range(n) if pick is None else pick
    if save is not None:
        te, sol = prob(x, span, save_at=span.detach()[list(save)])
        H.check_shape(sol, (len(save),) + tuple(x.shape), 'solution')
        ids, pos = save, {k: i for i, k in enumerate(save)}
    else:
        te, sol = prob(x, span)
        pos = {k: k for k in range(n)}
        H.check_shape(sol, (n,) + tuple(x.shape), 'solution')
    g = {k: H.tensor(f'g{k}', tuple(x.shape), -2, 2) for k in ids}
    c = {k: H.scalar(f'c{k}', -2, 2) for k in ids} if tgrad and save is None else {}
    wrt, names = [x] + list(ps.values()), ['x0'] + list(ps)
    if tgrad:
        wrt, names = wrt + [span], names + ['t_span']
    loss = sum((g[k] * sol[pos[k]]).sum() for k in ids) + sum(c[k] * te[pos[k]] for k in c)
    got = grads(loss, wrt)
    xs = closed(S, m, x, span)
    want = grads(sum((g[k] * xs[k]).sum() for k in ids) + sum(c[k] * span[k] for k in c), wrt)
    H.check_eq(sol.detach()[pos[ids[0]]], xs.detach()[ids[0]], 'trajectory')
    compare(H, got, want, names)


def E(name, bounds, **kw):
    t = kw.pop('tier', 'quick')
    SUITE.case(name, bounds=bounds, tier=t)(lambda H: exact(H, **kw))


E('poly-2', '2 times, time-polynomial field', sysn='poly', n=2, batch=(1,))
E('poly-3-t', '3 times, gradients of the times too', sysn='poly', n=3, batch=(2,), tgrad=True)
E('nil-3', 'linear nilpotent system with forcing, 3 times', sysn='nil', n=3, batch=(1,))
E('nil-3-last', 'loss on the last state only', sysn='nil', n=3, batch=(1,), pick=[2], tgrad=True)
E('nil-3-mid', 'loss on an interior state only', sysn='nil', n=3, batch=(1,), pick=[1], tgrad=True)
E('nil-3-first', 'loss on the first state only', sysn='nil', n=3, batch=(1,), pick=[0], tgrad=True)
E('nil-2-rev', 'decreasing times', sysn='nil', n=2, batch=(2,), rev=True, tgrad=True)
E('nil-3-rev', '3 decreasing times', sysn='nil', n=3, batch=(1,), rev=True, tgrad=True)
E('quad-2', 'quadratic system', sysn='quad', n=2, batch=(1,), tgrad=True)
E('quad-3', 'quadratic system, 3 times', sysn='quad', n=3, batch=(1,), tgrad=True)
E('quad-2-rev', 'quadratic system, decreasing times', sysn='quad', n=2, batch=(2,), rev=True)
E('quad-2-extra', 'an unused parameter', sysn='quad', n=2, batch=(1,), extra=True)
E('chain-3', '3-state chain, parameters of shape (1,) and (1,1)', sysn='chain', n=3, batch=(1,), tgrad=True)
E('chain-2-2d', 'state with two batch dimensions', sysn='chain', n=2, batch=(2, 1), tgrad=True)
E('chain-flat', 'state without batch dimension', sysn='chain', n=3, batch=())
E('time-3', 'time-varying linear field', sysn='time', n=3, batch=(1,), tgrad=True)
E('time-3-rev', 'time-varying linear field, decreasing times', sysn='time', n=3, batch=(1,), rev=True, tgrad=True)
E('time-4', '4 non-uniform times', sysn='time', n=4, batch=(1,), tgrad=True, pick=[1, 3])
E('node-nil', 'NeuralODE', sysn='nil', n=3, batch=(1,), api='node', tgrad=True)
E('node-time-rev', 'NeuralODE, decreasing times', sysn='time', n=3, batch=(2,), api='node', rev=True)
E('default-quad', 'adjoint solver left out: the forward solver is used', sysn='quad', n=2, batch=(1,), api='default')
E('save-time', 'loss on requested times in another order', sysn='time', n=4, batch=(1,), save=[3, 1], tgrad=True)
E('node-save-nil', 'loss on requested times, NeuralODE', sysn='nil', n=3, batch=(1,), save=[1, 0], api='node')


# ---- the adjoint right-hand side for arbitrary fields
class Probe(nn.Module):
    """A solver that evaluates the field it is given at an arbitrary state and adds an arbitrary increment."""
    order, stepping_class = 1, 'fixed'

    def __init__(self, H):
        super().__init__()
        self.H, self.seen, self.tableau = H, [], None

    def sync_device_dtype(self, x, t_span):
        return x, t_span

    def step(self, f, x, t, dt, k1=None, args=None):
        H, n = self.H, len(self.seen)
        z = H.tensor(f'A{n}', tuple(x.shape), -2, 2)
        tz = H.scalar(f's{n}', -2, 2)
        out = H.tensor(f'B{n}', tuple(x.shape), -2, 2)
        self.seen.append(dict(x=x.detach().clone(), t=t, dt=dt, z=z, tz=tz, dz=f(tz, z.clone()).detach(), out=out))
        return None, out.clone(), None


class UModule(nn.Module):
    """An arbitrary field of (t, x, theta), differentiable: an uninterpreted function of the time, the row and the parameters."""
    def __init__(self, H, dim, **ps):
        super().__init__()
        for k, v in ps.items():
            setattr(self, k, v)
        self.u, self.names = H.uf('f', dim), list(ps)

    def forward(self, t, x):
        ps = [getattr(self, k).reshape(-1) for k in self.names if k != 'unused']
        rows = x.reshape(-1, x.shape[-1])
        th = torch.cat(ps) if ps else x.new_zeros(0)
        return self.u(t, torch.cat([rows, th[None].expand(rows.shape[0], -1)], 1)).reshape(x.shape)


def rhs(H, batch, dim, n=2, extra=False, tgrad=True, rev=False, api='problem'):
    """The adjoint system of an arbitrary field: state, slope, boundary values and jumps at the requested times."""
    ps = dict(p=param(H, 'p'))
    if extra:
        ps['unused'] = param(H, 'unused', (2,))
    ps['w'] = param(H, 'w', (2, 1))
    m = UModule(H, dim, **ps)
    x = H.tensor('x', tuple(batch) + (dim,), -2, 2).requires_grad_(True)
    span = grid(H, n, rev)
    span.requires_grad_(tgrad)
    probe = Probe(H)
    prob = (ODEProblem if api == 'problem' else NeuralODE)(m, 'euler', sensitivity='adjoint', solver_adjoint=probe)
    te, sol = prob(x, span)
    g = [H.tensor(f'g{k}', tuple(x.shape), -2, 2) for k in range(n)]
    wrt = [x] + list(ps.values()) + ([span] if tgrad else [])
    got = grads(sum((g[k] * sol[k]).sum() for k in range(n)), wrt)
    sol, sp = sol.detach(), span.detach()
    nx, npar = x.numel(), sum(p.numel() for p in ps.values())
    H.check(len(probe.seen) == n - 1, 'one backward integration per subinterval')
    lam, mu = g[n - 1].reshape(-1), 0 * torch.cat([p.detach().reshape(-1) for p in ps.values()])
    xs = sol[n - 1].reshape(-1)
    for e, k in zip(probe.seen, range(n - 1, 0, -1)):
        H.check_shape(e['x'], (2 * nx + npar + 1,), 'adjoint state')
        H.check_eq(e['t'], sp[k], 'backward step starts at the later time')
        H.check_eq(e['dt'], sp[k - 1] - sp[k], 'backward step covers the subinterval')
        H.check_eq(e['x'][:nx], xs, 'state of the adjoint system')
        H.check_eq(e['x'][nx:2 * nx], lam, 'costate of the adjoint system')
        H.check_eq(e['x'][2 * nx:-1], mu, 'accumulated parameter gradient')
        # the field of the adjoint system
        z, zl = e['z'][:nx].reshape(x.shape).detach().requires_grad_(True), e['z'][nx:2 * nx].reshape(x.shape)
        tz = e['tz'].detach().requires_grad_(True)
        with torch.enable_grad():
            fz = m(tz, z)
            vj = grads((zl * fz).sum(), [z, tz] + list(ps.values()))
        H.check_eq(e['dz'][:nx], fz.detach().reshape(-1), 'adjoint system: state slope')
        H.check_eq(e['dz'][nx:2 * nx], -vj[0].reshape(-1), 'adjoint system: costate slope')
        H.check_eq(e['dz'][2 * nx:-1], -torch.cat([v.reshape(-1) for v in vj[2:]]), 'adjoint system: parameter slope')
        H.check_eq(e['dz'][-1:], -vj[1].reshape(1), 'adjoint system: time slope')
        xs, lam, mu = e['out'][:nx], e['out'][nx:2 * nx] + g[k - 1].reshape(-1), e['out'][2 * nx:-1]
    H.check_eq(got[0], lam.reshape(x.shape), 'gradient of the initial state')
    i = 0
    for p, gg, nm in zip(ps.values(), got[1:], ps):
        H.check_eq(gg.reshape(-1), mu[i:i + p.numel()], f'gradient of parameter {nm}')
        i += p.numel()
    if tgrad:
        f = [m(sp[k], sol[k]).detach() for k in range(n)]
        for k in range(1, n - 1):
            # states along the backward pass of a general solver need not be those of the forward pass
            xk = probe.seen[n - 1 - k]['x'][:nx].reshape(x.shape)
            H.check_eq(got[-1][k], (g[k] * m(sp[k], xk).detach()).sum(), f'gradient of time {k}')
        H.check_eq(got[-1][n - 1], (g[n - 1] * f[n - 1]).sum(), 'gradient of the last time')
        # the first time: minus the costate before the jump times the slope
        e = probe.seen[-1]
        x0 = e['out'][:nx].reshape(x.shape)
        H.check_eq(got[-1][0], -(e['out'][nx:2 * nx].reshape(x.shape) * m(sp[0], x0).detach()).sum(), 'gradient of the first time')


for nm, kw in {'1x1': dict(batch=(1,), dim=1), '1x2': dict(batch=(1,), dim=2), '2x1': dict(batch=(2,), dim=1), '2x2-extra': dict(batch=(2,), dim=2, extra=True),
               '3times': dict(batch=(1,), dim=2, n=3), 'rev': dict(batch=(1,), dim=1, n=3, rev=True), 'node': dict(batch=(2,), dim=1, n=2, api='node', extra=True),
               'notime': dict(batch=(1,), dim=2, n=3, tgrad=False), '4times': dict(batch=(1,), dim=1, n=4)}.items():
    SUITE.case(f'system-{nm}', bounds=f'any field of time, state and parameters; any state of the adjoint system; {kw}')(lambda H, kw=kw: rhs(H, **kw))


def noparams(H, how):
    """Fields without parameters and parameters passed explicitly."""
    x = H.tensor('x', (1, 2), -2, 2).requires_grad_(True)
    span = grid(H, 3, False)
    g = [H.tensor(f'g{k}', (1, 2), -2, 2) for k in range(3)]
    ps = {}
    if how == 'none':
        p = H.tensor('a', (), -2, 2)
        prob = ODEProblem(lambda t, x: time_f(_A(p), t, x), 'rk4', sensitivity='adjoint', solver_adjoint='rk4')
    elif how == 'stateonly':
        ps['a'], ps['b'] = param(H, 'a'), param(H, 'b')
        p = ps['a']
        prob = ODEProblem(FieldX(quad_f, **ps), 'rk4', sensitivity='adjoint', solver_adjoint='rk4')
    else:
        p = ps['a'] = param(H, 'a')
        prob = (NeuralODE if how == 'optnode' else ODEProblem)(lambda t, x: time_f(_A(p), t, x), 'rk4', sensitivity='adjoint', solver_adjoint='rk4',
                                                         optimizable_params={'optgen': (q for q in [p]), 'optdict': {'a': p}.values(), 'opttuple': (p,)}.get(how, [p]))
    te, sol = prob(x, span)
    got = grads(sum((g[k] * sol[k]).sum() for k in range(3)), [x] + list(ps.values()))
    if how == 'stateonly':
        xs = closed(SYSTEMS['quad'], prob.vf.vf, x, span)
    else:
        xs = closed(SYSTEMS['time'], _A(p), x, span)
    want = grads(sum((g[k] * xs[k]).sum() for k in range(3)), [x] + list(ps.values()))
    compare(H, got, want, ['x0'] + list(ps))


class _A:
    def __init__(self, a):
        self.a = a


for how in ('none', 'stateonly', 'opt', 'optnode', 'optgen', 'optdict', 'opttuple'):
    SUITE.case(f'params-{how}', bounds='3 times')(lambda H, h=how: noparams(H, h))


def shooting(H):
    S = SYSTEMS['nil']
    m = Field(S['f'], w=param(H, 'w', (2, 2)))
    m.fn = lambda p, t, x: torch.stack([p.w[0, 0] * x[..., 1] + p.w[0, 1], p.w[1, 0] + 0 * x[..., 1]], -1)
    x = H.tensor('x', (1, 2), -2, 2).requires_grad_(True)
    span = grid(H, 3, False, uniform=True)
    prob = MultipleShootingProblem(m, 'mszero', sensitivity='adjoint', maxiter=2, fine_steps=2, solver_adjoint='rk4')
    te, sol = prob(x, span)
    g = [H.tensor(f'g{k}', (1, 2), -2, 2) for k in range(3)]
    got = grads(sum((g[k] * sol[k]).sum() for k in range(3)), [x, m.w])
    def flow(t0, x0, t):
        h, (a, b, c) = t - t0, (m.w[0, 0], m.w[0, 1], m.w[1, 0])
        return torch.stack([x0[..., 0] + (a * x0[..., 1] + b) * h + a * c * h ** 2 / 2, x0[..., 1] + c * h], -1)
    xs = [flow(span[0], x, span[k]) for k in range(3)]
    want = grads(sum((g[k] * xs[k]).sum() for k in range(3)), [x, m.w])
    compare(H, got, want, ['x0', 'w'])


SUITE.case('shooting', bounds='parallel-in-time forward pass, 3 uniform times')(shooting)


def twice(H):
    """Gradients accumulate over two integrations through the same model (two backward passes)."""
    S = SYSTEMS['nil']
    m = Field(S['f'], w=param(H, 'w', (2, 2)))
    prob = NeuralODE(m, 'rk4', sensitivity='adjoint', solver_adjoint='rk4')
    xs, wants = [], []
    x = H.tensor('x', (1, 2), -2, 2)
    span = grid(H, 2, False)
    g = H.tensor('g', (1, 2), -2, 2)
    _, a = prob(x, span)
    _, b = prob(a[-1], span + 1)
    got = grads((g * b[-1]).sum(), [m.w])
    y = S['flow'](m, span[0], x, span[1])
    y = S['flow'](m, span[0] + 1, y, span[1] + 1)
    compare(H, got, grads((g * y).sum(), [m.w]), ['w'])


SUITE.case('composed', bounds='two chained integrations through one model')(twice)


def tolerances(H, which):
    """The backward pass of an adaptive adjoint solver accepts steps by the adjoint tolerances, on the state and costate only."""
    at, rt = 0.25, 0.
    x = H.tensor('x', (1, 1), -2, 2).requires_grad_(True)
    span = torch.stack(increasing(H, 't', 2, -1, 1, gap=0.05)).detach()
    m = Field(lambda p, t, x: 0 * x + p.a, a=param(H, 'a'))
    g = H.tensor('g', (1, 1), -2, 2)
    e = H.tensor('e', (4,), -2, 2)
    acc = []

    def script(n, f, A, t, dt, k1):
        if n >= 2:
            H.truncate('two steps')
        acc.append((t, dt))
        return f(t, A), A.clone(), e if n == 0 else 0 * e, (k1,) * 7
    s = Script(H, script)
    s.min_factor = H.const([0.5])
    prob = ODEProblem(m, 'euler', sensitivity='adjoint', solver_adjoint=s, atol_adjoint=at, rtol_adjoint=rt, atol=1e3, rtol=1e3)
    te, sol = prob(x, span)
    ratio2 = (e[0] ** 2 + e[1] ** 2) / 2 / at ** 2
    H.margin(ratio2, torch.ones_like(ratio2))
    try:
        with StartStep(H):
            grads((g * sol[1]).sum(), [x])
    except BaseException as ex:
        if type(ex).__name__ != 'Truncated':
            raise
    if len(acc) < 2 and H.symbolic is None:
        return
    if len(acc) >= 2:
        retried = (acc[1][0] == acc[0][0]).all()
        if H.decide(ratio2 > 1):
            H.check(retried, 'a step with an error above the adjoint tolerances is accepted')
        else:
            H.check(~retried, 'a step with an error within the adjoint tolerances is rejected')
    else:
        H.check(ratio2 <= 1, 'a step with an error above the adjoint tolerances is accepted')


SUITE.case('tolerances', bounds='first backward step, any error estimate')(lambda H: tolerances(H, 0))

add_sens(SUITE, 'adjoint', [('quad', 'problem'), ('time', 'node'), ('nil', 'node')])
