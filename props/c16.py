"""C16: integral losses are accumulated along the flow and differentiated consistently."""
from symtorch.runner import Suite
from torchdyn.core import ODEProblem, NeuralODE
from torchdyn.core.defunc import DEFunc
from torchdyn.numerics import odeint
from .sens import *
from .c14 import Probe, UModule
from .c15 import Knots

SUITE = Suite('C16', assumptions=['adjoint sensitivities: systems and losses for which the fourth-order solver (and the spline) is exact, and the right-hand side of the adjoint system for arbitrary fields and losses'])


# ---- autograd: propagation in the first dimension
def forward(H, batch, dim, solver, n=2, order=1, lshape=1, takes_time=True, rev=False, traj=False):
    f = H.uf('f', dim // order)
    l = H.uf('l', 1)
    if lshape == 1:
        loss = lambda t, x: l(t, x)
    elif lshape == 0:
        loss = lambda t, x: l(t, x)[:, 0]
    vf = (lambda t, x: f(t, x)) if takes_time else (lambda x: f(0., x))
    m = NeuralODE(vf, solver, order=order, integral_loss=loss)
    full = (lambda t, x: torch.cat([x[:, dim // order:], vf(t, x) if takes_time else vf(x)], 1)) if order == 2 else (lambda t, x: vf(t, x) if takes_time else vf(x))
    x = H.tensor('x', (batch, 1 + dim), -2, 2)
    span = grid(H, n, rev)
    if traj:
        sol = m.trajectory(x, span)
    else:
        te, sol = m(x, span)
        H.check_eq(te, span, 'times')
    H.check_shape(sol, (n, batch, 1 + dim), 'solution')
    _, want = odeint(full, x[:, 1:], span, solver)
    H.check_eq(sol[:, :, 1:], want, 'the integral loss influences the dynamics')
    # the loss is integrated by the same method on the same stages
    aug = lambda t, z: torch.cat([l(t, z[:, 1:]), full(t, z[:, 1:])], 1)
    y, got = x, [x]
    for k in range(n - 1):
        y = rk_step(H, solver, aug, span[k], y, span[k + 1] - span[k])
        got.append(y)
    H.check_eq(sol[:, :, :1], torch.stack(got)[:, :, :1], 'accumulated integral loss')


for nm, kw in {'euler': dict(batch=1, dim=2, solver='euler', n=3), 'rk4': dict(batch=1, dim=1, solver='rk4'), 'midpoint-2': dict(batch=2, dim=2, solver='midpoint', n=3),
               'flat-loss': dict(batch=2, dim=1, solver='midpoint', lshape=0), 'order2': dict(batch=2, dim=2, solver='euler', order=2, n=3),
               'order2-rk4': dict(batch=1, dim=2, solver='rk4', order=2), 'order2-flat': dict(batch=1, dim=4, solver='midpoint', order=2, lshape=0), 'stateonly': dict(batch=2, dim=2, solver='midpoint', takes_time=False),
               'rev': dict(batch=1, dim=1, solver='midpoint', n=3, rev=True), 'trajectory': dict(batch=2, dim=1, solver='midpoint', n=3, traj=True)}.items():
    SUITE.case(f'forward-{nm}', bounds=f'any field, any loss, any start value of the loss; {kw}')(lambda H, kw=kw: forward(H, **kw))


def exact_integral(H):
    """Losses that the method integrates exactly: the first dimension is the integral along the closed-form trajectory."""
    S = SYSTEMS['quad']
    m = Field(S['f'], a=param(H, 'a'), b=param(H, 'b'))
    node = NeuralODE(m, 'rk4', integral_loss=lambda t, x: x[:, 1] * t)
    x = H.tensor('x', (2, 3), -2, 2)
    span = grid(H, 3, False)
    _, sol = node(x, span)
    for k in range(3):
        H.check_eq(sol[k, :, 0], x[:, 0] + integral_t(m, span[0], x[:, 1:], span[k]), 'integral of the loss')
        H.check_eq(sol[k, :, 1:], S['flow'](m, span[0], x[:, 1:], span[k]), 'trajectory')


def integral_t(p, t0, x0, t):
    q = x0[..., 1]
    return q * (t ** 2 - t0 ** 2) / 2 + p.b * ((t ** 3 - t0 ** 3) / 3 - t0 * (t ** 2 - t0 ** 2) / 2)


def integral_sq(p, t0, x0, t):
    q, h = x0[..., 1], t - t0
    return (q * q * h + q * p.b * h ** 2 + p.b ** 2 * h ** 3 / 3) / 2


def integral_lin(p, t0, x0, t):
    # of 2 x1 + x2 along x1' = w0 x2 + w1 t, x2' = w2
    h, (a, b, c) = t - t0, (p.w[0, 0], p.w[0, 1], p.w[1, 0])
    i1 = x0[..., 0] * h + a * (x0[..., 1] * h ** 2 / 2 + c * h ** 3 / 6) + b * ((t ** 3 - t0 ** 3) / 6 - t0 ** 2 * h / 2)
    return 2 * i1 + x0[..., 1] * h + c * h ** 2 / 2


SUITE.case('forward-exact', bounds='3 symbolic times, quadratic system')(exact_integral)

LOSSES = {'t': ('quad', lambda t, x: x[:, 1] * t, integral_t), 'sq': ('quad', lambda t, x: x[:, 1] ** 2 / 2, integral_sq),
          'lin': ('nil', lambda t, x: 2 * x[:, 0] + x[:, 1], integral_lin), 'lin2d': ('nil', lambda t, x: 2 * x[:, :1] + x[:, 1:], integral_lin)}


def adjoint(H, which, sens, n, batch=1, api='problem', lossful=True):
    sysn, l, I = LOSSES[which]
    S = SYSTEMS[sysn]
    m = Field(S['f'], **{k: param(H, k, s) for k, s in S['params'].items()})
    x = H.tensor('x', (batch, 2), -2, 2).requires_grad_(True)
    span = grid(H, n, False)
    prob = (NeuralODE if api == 'node' else ODEProblem)(m, 'rk4', sensitivity=sens, solver_adjoint='rk4', integral_loss=l)
    te, sol = prob(x, span)
    H.check_shape(sol, (n, batch, 2), 'solution')
    g = [H.tensor(f'g{k}', (batch, 2), -2, 2) if lossful else torch.zeros(batch, 2, dtype=torch.float64) for k in range(n)]
    wrt = [x] + list(m.parameters())
    got = grads(sum((g[k] * sol[k]).sum() for k in range(n)), wrt)
    xs = closed(S, m, x, span)
    H.check_eq(sol.detach(), xs.detach(), 'trajectory')
    want = grads(sum((g[k] * xs[k]).sum() for k in range(n)) + I(m, span[0], x, span[-1]).sum(), wrt)
    compare(H, got, want, ['x0'] + [k for k, _ in m.named_parameters()])


def repeated(H, sens, order, api, rev=False):
    """Two integrations of one problem with an integral loss: backward passes in any order, or an optimiser step in between."""
    sysn, l, I = LOSSES['sq']
    S = SYSTEMS[sysn]
    m = Field(S['f'], **{k: param(H, k, s) for k, s in S['params'].items()})
    prob = (NeuralODE if api == 'node' else ODEProblem)(m, 'rk4', sensitivity=sens, solver_adjoint='rk4', integral_loss=l)
    wrt = list(m.parameters())

    def backward(i, x, span, sol, g):
        got = grads((g * sol).sum(), [x] + wrt)
        xs = closed(S, m, x, span)
        want = grads((g * xs).sum() + I(m, span[0], x, span[-1]).sum(), [x] + wrt)
        compare(H, got, want, ['x0'] + [k for k, _ in m.named_parameters()], f'run {i}: ')
    runs = []
    for i in range(2):
        x = H.tensor(f'x{i}', (1 + i, 2), -2, 2).requires_grad_(True)
        span = torch.stack(increasing(H, f't{i}_', 2, -1, 1, gap=0.05)).detach()
        if rev:
            span = span.flip(0)
        sol = prob(x, span)[1]
        runs.append((i, x, span, sol, H.tensor(f'g{i}', tuple(sol.shape), -2, 2)))
        if order == 'updated':
            backward(*runs[-1])
            with torch.no_grad():
                for k, p in m.named_parameters():
                    p.add_(H.tensor(f'd{i}{k}', tuple(p.shape), -1, 1))
    if order != 'updated':
        for r in (runs if order == 'forward' else runs[::-1]):
            backward(*r)


for sens in ('adjoint', 'interpolated_adjoint'):
    s = sens[:3]
    for nm, kw in {'t-2': dict(which='t', n=2), 'sq-2': dict(which='sq', n=2), 'sq-3': dict(which='sq', n=3, batch=2), 'node': dict(which='sq', n=2, api='node'),
                   'only': dict(which='t', n=3, lossful=False)}.items():
        SUITE.case(f'{s}-{nm}', bounds=f'exact system and loss; {kw}')(lambda H, kw=kw, se=sens: adjoint(H, sens=se, **kw))
for nm, kw in {'lin-2': dict(which='lin', n=2), 'lin-3': dict(which='lin2d', n=3, batch=2)}.items():
    SUITE.case(f'adj-{nm}', bounds=f'exact system and loss; {kw}')(lambda H, kw=kw: adjoint(H, sens='adjoint', **kw))


def rhs(H, sens, batch, dim):
    m = UModule(H, dim, p=param(H, 'p'))
    l = H.uf('l', 1)
    x = H.tensor('x', (batch, dim), -2, 2).requires_grad_(True)
    span = grid(H, 2, False)
    adj = sens == 'adjoint'
    probe = (Probe if adj else Knots)(H)
    prob = NeuralODE(m, 'euler', sensitivity=sens, solver_adjoint=probe, integral_loss=lambda t, x: l(t, x))
    te, sol = prob(x, span)
    H.check_eq(sol.detach()[1], rk_step(H, 'euler', m, span[0], x, span[1] - span[0]).detach(), 'trajectory')
    g = H.tensor('g', (batch, dim), -2, 2)
    grads((g * sol[1]).sum(), [x, m.p])
    e, nx = probe.seen[0], x.numel()

    def lam_slope(t, y, lam):
        y = y.clone().requires_grad_(True)
        with torch.enable_grad():
            return -grads((lam * m(t, y)).sum() + l(t, y).sum(), [y])[0].reshape(-1)

    def par_slope(t, y, lam):
        with torch.enable_grad():
            return -grads((lam * m(t, y.clone())).sum(), [m.p])[0].reshape(-1)
    if adj:
        y, lam = e['z'][:nx].reshape(x.shape), e['z'][nx:2 * nx].reshape(x.shape)
        H.check_eq(e['dz'][:nx], m(e['tz'], y).detach().reshape(-1), 'state slope')
        H.check_eq(e['dz'][nx:2 * nx], lam_slope(e['tz'], y, lam), 'costate slope with integral loss')
        H.check_eq(e['dz'][2 * nx:-1], par_slope(e['tz'], y, lam), 'parameter slope')
    else:
        lam = e['z'][:nx].reshape(x.shape)
        for d, j in (('d0', 1), ('d1', 0)):
            H.check_eq(e[d][:nx], lam_slope(span[j], sol.detach()[j], lam), 'costate slope with integral loss')
            H.check_eq(e[d][nx:], par_slope(span[j], sol.detach()[j], lam), 'parameter slope')


for sens in ('adjoint', 'interpolated_adjoint'):
    for b, d in ((1, 1), (2, 1), (1, 2)):
        SUITE.case(f'{sens[:3]}-system-{b}x{d}', bounds='any field, any loss, any state of the adjoint system')(lambda H, se=sens, b=b, d=d: rhs(H, se, b, d))


def field_args(H, order):
    """The wrapped field with an integral loss hands its extra arguments to the user's field."""
    d = 2
    f, l = H.uf('f', d // order), H.uf('l', 1)
    m = NeuralODE(lambda t, x, args: f(t, x) * args['b'], 'euler', order=order, integral_loss=lambda t, x: l(t, x))
    t, b, c = H.scalar('t', -2, 2), H.scalar('b', -2, 2), H.scalar('c', -2, 2)
    x = H.tensor('x', (2, 1 + d), -2, 2)
    for v in (b, c):
        got = m.vf(t, x, args={'b': v})
        y = f(t, x[:, 1:]) * v
        want = torch.cat([l(t, x[:, 1:])] + ([x[:, 2:], y] if order == 2 else [y]), 1)
        H.check_eq(got, want, 'field with integral loss and args')


for o in (1, 2):
    SUITE.case(f'field-args-{o}', bounds=f'order {o}, any field, loss and argument')(lambda H, o=o: field_args(H, o))


def forward_history(H):
    """Two models with different losses, called alternately on different batches."""
    f, l, k = H.uf('f', 1), H.uf('l', 1), H.uf('k', 1)
    a = NeuralODE(lambda t, x: f(t, x), 'euler', integral_loss=lambda t, x: l(t, x))
    b = NeuralODE(lambda t, x: f(t, x), 'euler', integral_loss=lambda t, x: k(t, x)[:, 0])
    c = NeuralODE(lambda t, x: f(t, x), 'euler')
    for i, (m, q, batch) in enumerate([(a, l, 1), (b, k, 2), (c, None, 1), (a, l, 2)]):
        x = H.tensor(f'x{i}', (batch, 1 if q is None else 2), -2, 2)
        ts = increasing(H, f't{i}_', 3, -2, 2, gap=0.05)
        _, sol = m(x, torch.stack(ts))
        F = (lambda t, z: f(t, z)) if q is None else (lambda t, z: torch.cat([q(t, z[:, 1:]), f(t, z[:, 1:])], 1))
        y = x
        for j in range(2):
            y = rk_step(H, 'euler', F, ts[j], y, ts[j + 1] - ts[j])
            H.check_eq(sol[j + 1], y, f'call {i}: state {j + 1}')


SUITE.case('forward-history', bounds='four calls of three models, any field and losses')(forward_history)

for sens in ('adjoint', 'interpolated_adjoint'):
    for order, api, rev in [('forward', 'problem', False), ('reversed', 'problem', False), ('reversed', 'node', False), ('updated', 'node', False), ('updated', 'problem', True)]:
        SUITE.case(f'{sens[:3]}-twice-{order}-{api}{"-rev" * rev}', bounds='two integrations of one problem, an exact system and loss' + ', decreasing times' * rev)(
            lambda H, a=(sens, order, api, rev): repeated(H, *a))
