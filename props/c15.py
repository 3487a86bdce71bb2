"""C15: interpolated-adjoint gradients agree with the true sensitivities."""
from symtorch.runner import Suite
from torchdyn.core import ODEProblem, NeuralODE
from torchdyn.core.problems import MultipleShootingProblem
from torchdyn.numerics import odeint
from .sens import *
from .c14 import Probe, UModule, _A

SUITE = Suite('C15', assumptions=['exactness: on the polynomial systems used the fourth-order solver and the natural spline of the components the sensitivities depend on are exact; '
                                  'for arbitrary fields the right-hand side of the adjoint system is decided at the knots of the trajectory'])


def exact(H, sysn, n, batch, rev=False, api='problem', pick=None, uniform=False, extra=False, save=None, solver='rk4'):
    S = SYSTEMS[sysn]
    ps = {k: param(H, k, s) for k, s in S['params'].items()}
    if extra:
        ps['unused'] = param(H, 'unused', (2,))
    m = Field(S['f'], **ps)
    x = H.tensor('x', tuple(batch) + (S['dim'],), -2, 2).requires_grad_(True)
    span = grid(H, n, rev, uniform)
    kw = {} if api == 'default' else dict(solver_adjoint='rk4')
    prob = (NeuralODE if api == 'node' else ODEProblem)(m, solver, sensitivity='interpolated_adjoint', **kw)
    ids = list(range(n)) if pick is None else pick
    if save is not None:
        te, sol = prob(x, span, save_at=span[list(save)])
        ids, pos = save, {k: i for i, k in enumerate(save)}
    else:
        te, sol = prob(x, span)
        pos = {k: k for k in range(n)}
        H.check_eq(te.detach(), span, 'times')
        tr = odeint(m, x, span, solver)[1].detach()
        H.check_eq(sol.detach(), tr, 'trajectory differs from the one of the functional interface')
    H.check_shape(sol, (len(pos),) + tuple(x.shape), 'solution')
    g = {k: H.tensor(f'g{k}', tuple(x.shape), -2, 2) for k in ids}
    wrt, names = [x] + list(ps.values()), ['x0'] + list(ps)
    got = grads(sum((g[k] * sol[pos[k]]).sum() for k in ids), wrt)
    xs = closed(S, m, x, span)
    want = grads(sum((g[k] * xs[k]).sum() for k in ids), wrt)
    compare(H, got, want, names)


def E(name, bounds, **kw):
    t = kw.pop('tier', 'quick')
    SUITE.case(name, bounds=bounds, tier=t)(lambda H: exact(H, **kw))


E('poly-2', '2 times', sysn='poly', n=2, batch=(1,))
E('poly-3', '3 non-uniform times', sysn='poly', n=3, batch=(1,))
E('nil-2', 'linear nilpotent system with forcing', sysn='nil', n=2, batch=(1,))
E('nil-3', '3 non-uniform times', sysn='nil', n=3, batch=(1,))
E('nil-3-uniform', '3 uniform times', sysn='nil', n=3, batch=(1,), uniform=True)
E('nil-3-mid', 'loss on an interior state', sysn='nil', n=3, batch=(1,), pick=[1])
E('nil-3-first', 'loss on the first state', sysn='nil', n=3, batch=(1,), pick=[0])
E('nil-3-rev', '3 decreasing times', sysn='nil', n=3, batch=(1,), rev=True)
E('quad-2', 'quadratic system, 2 samples', sysn='quad', n=2, batch=(2,))
E('quad-2-rev', 'decreasing times', sysn='quad', n=2, batch=(1,), rev=True)
E('quad-3', 'quadratic system, 3 times', sysn='quad', n=3, batch=(1,))
E('quad-3-last', 'loss on the last state only', sysn='quad', n=3, batch=(1,), pick=[2])
E('quad-extra', 'an unused parameter', sysn='quad', n=2, batch=(1,), extra=True)
E('chain-3', '3-state chain', sysn='chain', n=3, batch=(1,))
E('time-3', 'time-varying linear field', sysn='time', n=3, batch=(2,))
E('time-3-rev', 'time-varying linear field, decreasing times', sysn='time', n=3, batch=(1,), rev=True)
E('time-4', '4 non-uniform times', sysn='time', n=4, batch=(1,), pick=[1, 3])
E('node-nil-3', 'NeuralODE', sysn='nil', n=3, batch=(1,), api='node')
E('node-time-rev', 'NeuralODE, decreasing times', sysn='time', n=2, batch=(2,), api='node', rev=True)
E('default-quad', 'adjoint solver left out', sysn='quad', n=2, batch=(1,), api='default')
E('save-time', 'loss on requested times', sysn='time', n=3, batch=(1,), save=[2, 1])
E('node-save', 'loss on requested times, NeuralODE', sysn='nil', n=3, batch=(1,), save=[1, 0], api='node')


class Knots(Probe):
    """Evaluates the adjoint field at the ends of the step."""
    def step(self, f, x, t, dt, k1=None, args=None):
        H, n = self.H, len(self.seen)
        z = H.tensor(f'A{n}', tuple(x.shape), -2, 2)
        out = H.tensor(f'B{n}', tuple(x.shape), -2, 2)
        self.seen.append(dict(x=x.detach().clone(), t=t, dt=dt, z=z, d0=f(t.clone(), z.clone()).detach(), d1=f((t + dt).clone(), z.clone()).detach(), out=out))
        return None, out.clone(), None


def rhs(H, batch, dim, n=2, extra=False, rev=False, api='problem'):
    ps = dict(p=param(H, 'p'))
    if extra:
        ps['unused'] = param(H, 'unused', (2,))
    ps['w'] = param(H, 'w', (2, 1))
    m = UModule(H, dim, **ps)
    x = H.tensor('x', tuple(batch) + (dim,), -2, 2).requires_grad_(True)
    span = grid(H, n, rev)
    probe = Knots(H)
    prob = (ODEProblem if api == 'problem' else NeuralODE)(m, 'euler', sensitivity='interpolated_adjoint', solver_adjoint=probe)
    te, sol = prob(x, span)
    g = [H.tensor(f'g{k}', tuple(x.shape), -2, 2) for k in range(n)]
    got = grads(sum((g[k] * sol[k]).sum() for k in range(n)), [x] + list(ps.values()))
    sol = sol.detach()
    H.check_eq(te.detach(), span, 'times')
    ref = odeint(m, x, span, 'euler')[1].detach()
    H.check_eq(sol, ref, 'trajectory')
    nx, npar = x.numel(), sum(p.numel() for p in ps.values())
    H.check(len(probe.seen) == n - 1, 'one backward integration per subinterval')
    lam, mu = g[n - 1].reshape(-1), 0 * torch.cat([p.detach().reshape(-1) for p in ps.values()])
    for e, k in zip(probe.seen, range(n - 1, 0, -1)):
        H.check_shape(e['x'], (nx + npar,), 'adjoint state')
        H.check_eq(e['t'], span[k], 'backward step starts at the later time')
        H.check_eq(e['dt'], span[k - 1] - span[k], 'backward step covers the subinterval')
        H.check_eq(e['x'][:nx], lam, 'costate of the adjoint system')
        H.check_eq(e['x'][nx:], mu, 'accumulated parameter gradient')
        zl = e['z'][:nx].reshape(x.shape)
        for d, j in (('d0', k), ('d1', k - 1)):
            z = sol[j].clone().requires_grad_(True)
            with torch.enable_grad():
                vj = grads((zl * m(span[j], z)).sum(), [z] + list(ps.values()))
            H.check_eq(e[d][:nx], -vj[0].reshape(-1), 'adjoint system: costate slope at a knot')
            H.check_eq(e[d][nx:], -torch.cat([v.reshape(-1) for v in vj[1:]]), 'adjoint system: parameter slope at a knot')
        lam, mu = e['out'][:nx] + g[k - 1].reshape(-1), e['out'][nx:]
    H.check_eq(got[0], lam.reshape(x.shape), 'gradient of the initial state')
    i = 0
    for p, gg, nm in zip(ps.values(), got[1:], ps):
        H.check_eq(gg.reshape(-1), mu[i:i + p.numel()], f'gradient of parameter {nm}')
        i += p.numel()


for nm, kw in {'1x1': dict(batch=(1,), dim=1), '1x2': dict(batch=(1,), dim=2), '2x1': dict(batch=(2,), dim=1), '2x2-extra': dict(batch=(2,), dim=2, extra=True),
               'rev': dict(batch=(1,), dim=1, rev=True), 'node': dict(batch=(2,), dim=1, api='node', extra=True)}.items():
    SUITE.case(f'system-{nm}', bounds=f'any field of time, state and parameters; {kw}')(lambda H, kw=kw: rhs(H, **kw))


def adaptive(H, rev=False, n=3, accepted=3):
    """An adaptive forward solver whose evaluated points are more than the requested times: the trajectory has one state per requested time."""
    a = param(H, 'a')
    m = Field(lambda p, t, x: p.a + 0 * x, a=a)
    x = H.tensor('x', (1, 1), -2, 2).requires_grad_(True)
    ts = increasing(H, 't', n, -1, 1, gap=0.05)
    span = torch.stack(ts[::-1] if rev else ts).detach()

    def script(k, f, y, t, dt, k1):
        s = f(t, y)
        return s, y + dt * s, 0 * y, (s,) * 7
    s = Script(H, script, bound=accepted)
    s.max_factor = H.const([1.5])
    prob = ODEProblem(m, s, sensitivity='interpolated_adjoint', solver_adjoint='rk4')
    te, sol = prob(x, span)
    H.check_eq(te.detach(), span, 'times')
    H.check_shape(sol, (n, 1, 1), 'solution')
    H.check_eq(sol.detach(), torch.stack([x + a * (t - span[0]) for t in span]).detach(), 'trajectory')
    g = H.tensor('g', (n, 1, 1), -2, 2)
    got = grads((g * sol).sum(), [x, a])
    want = grads(sum((g[k] * (x + a * (span[k] - span[0]))).sum() for k in range(n)), [x, a])
    compare(H, got, want, ['x0', 'a'])


SUITE.case('adaptive', bounds='adaptive forward solver, up to 3 steps, 2 times')(lambda H: adaptive(H, n=2))
SUITE.case('adaptive-rev', bounds='adaptive forward solver, decreasing times')(lambda H: adaptive(H, True, n=2))


def tolerances(H):
    at = 0.25
    x = H.tensor('x', (1, 1), -2, 2).requires_grad_(True)
    span = torch.stack(increasing(H, 't', 2, -1, 1, gap=0.05)).detach()
    m = Field(lambda p, t, x: 0 * x + p.a, a=param(H, 'a'))
    g, e = H.tensor('g', (1, 1), -2, 2), H.tensor('e', (2,), -2, 2)
    acc = []

    def script(n, f, A, t, dt, k1):
        if n >= 2:
            H.truncate('two steps')
        acc.append(t)
        return f(t, A), A.clone(), e if n == 0 else 0 * e, (k1,) * 7
    s = Script(H, script)
    s.min_factor = H.const([0.5])
    prob = ODEProblem(m, 'euler', sensitivity='interpolated_adjoint', solver_adjoint=s, atol_adjoint=at, rtol_adjoint=0., atol=1e3, rtol=1e3)
    te, sol = prob(x, span)
    r2 = (e ** 2).sum() / 2 / at ** 2
    H.margin(r2, torch.ones_like(r2))
    try:
        with StartStep(H):
            grads((g * sol[1]).sum(), [x])
    except BaseException as ex:
        if type(ex).__name__ != 'Truncated':
            raise
    if len(acc) >= 2:
        again = (acc[1] == acc[0]).all()
        if H.decide(r2 > 1):
            H.check(again, 'a step with an error above the adjoint tolerances is accepted')
        else:
            H.check(~again, 'a step with an error within the adjoint tolerances is rejected')
    else:
        H.check(r2 <= 1, 'a step with an error above the adjoint tolerances is accepted')


SUITE.case('tolerances', bounds='first backward step, any error estimate')(tolerances)


def shooting(H):
    m = Field(lambda p, t, x: torch.stack([p.w[0] * x[..., 1] + p.w[1], 0 * x[..., 1]], -1), w=param(H, 'w', (2,)))
    x = H.tensor('x', (1, 2), -2, 2).requires_grad_(True)
    span = grid(H, 3, False, uniform=True)
    prob = MultipleShootingProblem(m, 'mszero', sensitivity='interpolated_adjoint', maxiter=2, fine_steps=2, solver_adjoint='rk4')
    te, sol = prob(x, span)
    g = [H.tensor(f'g{k}', (1, 2), -2, 2) for k in range(3)]
    got = grads(sum((g[k] * sol[k]).sum() for k in range(3)), [x, m.w])
    xs = [x + (span[k] - span[0]) * torch.stack([m.w[0] * x[..., 1] + m.w[1], 0 * x[..., 1]], -1) for k in range(3)]
    want = grads(sum((g[k] * xs[k]).sum() for k in range(3)), [x, m.w])
    compare(H, got, want, ['x0', 'w'])


SUITE.case('shooting', bounds='parallel-in-time forward pass, 3 uniform times')(shooting)


def interior(H, batch=(1,), dim=1, n=2, accepted=3):
    """The backward pass reads the state from a curve through every step of the forward solver, not only the requested times."""
    ps = dict(p=param(H, 'p'), w=param(H, 'w', (2, 1)))
    m = UModule(H, dim, **ps)
    x = H.tensor('x', tuple(batch) + (dim,), -2, 2).requires_grad_(True)
    span = grid(H, n, False)
    knots = []

    def script(k, f, y, t, dt, k1):
        knots.append((t.detach().reshape(()), y.detach().clone()))
        s = f(t, y)
        return s, y + dt * s, 0 * y, (s,) * 7
    s = Script(H, script, bound=accepted)
    s.max_factor = H.const([1.5])

    seen = []

    class Back(Probe):
        def step(self, f, A, t, dt, k1=None, args=None):
            z = H.tensor(f'A{len(seen)}', tuple(A.shape), -2, 2)
            seen.append((z, [(tk, f(tk.clone(), z.clone()).detach()) for tk, _ in knots]))
            return None, A.clone(), None
    prob = ODEProblem(m, s, sensitivity='interpolated_adjoint', solver_adjoint=Back(H))
    te, sol = prob(x, span)
    grads((H.tensor('g', tuple(sol.shape), -2, 2) * sol).sum(), [x])
    nx = x.numel()
    H.check(len(seen) == n - 1, 'one backward integration per subinterval')
    for z, evs in seen:
        zl = z[:nx].reshape(x.shape)
        for (tk, d), (_, xk) in zip(evs, knots):
            q = xk.clone().requires_grad_(True)
            with torch.enable_grad():
                v = grads((zl * m(tk, q)).sum(), [q] + list(ps.values()))
            H.check_eq(d[:nx], -v[0].reshape(-1), 'costate slope at an evaluated point of the forward pass')
            H.check_eq(d[nx:], -torch.cat([w.reshape(-1) for w in v[1:]]), 'parameter slope at an evaluated point of the forward pass')


SUITE.case('interior', bounds='any field, adaptive forward solver with up to 2 accepted steps, 2 times')(lambda H: interior(H, (1,), 1, 2, 2))
SUITE.case('interior-3', bounds='any field, 3 times, up to 3 steps', tier='thorough')(lambda H: interior(H, (1,), 1, 3, 3))

add_sens(SUITE, 'interpolated_adjoint', [('quad', 'problem'), ('time', 'node'), ('nil', 'node')])
