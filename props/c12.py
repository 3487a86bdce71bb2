"""C12: implicit Euler solvers minimise the residual of the implicit equation."""
from symtorch.runner import Suite
from torchdyn.numerics import odeint
from torchdyn.numerics.odeint import odeint_mshooting
from torchdyn.numerics.solvers.ode import str_to_solver, str_to_ms_solver, ImplicitEuler, ParallelImplicitEuler
from torchdyn.core.problems import MultipleShootingProblem
from torchdyn.core import ODEProblem
from .common import *

SUITE = Suite('C12', assumptions=['the optimiser (torch.optim.LBFGS) is replaced by one that evaluates the objective it is given at an arbitrary point '
                                  'and returns that point: what is decided is the objective, its gradient, the start and the use of the result, not the convergence of LBFGS'])
REAL = torch.optim.LBFGS


class Optimiser:
    """Stands in for torch.optim.LBFGS."""
    H = None
    runs = []
    ncand = 1

    def __init__(self, params, **kw):
        self.params = list(params)
        Optimiser.runs.append(self)
        self.evals = []

    def zero_grad(self, set_to_none=True):
        for p in self.params:
            p.grad = None

    def step(self, closure):
        H, k = Optimiser.H, len(Optimiser.runs) - 1
        p = self.params[0]
        self.start = p.detach().clone()
        for j in range(Optimiser.ncand):
            z = H.tensor(f'z{k}_{j}', tuple(p.shape), -3, 3)
            p.data = z.clone()
            with torch.enable_grad():
                r = closure()
            self.evals.append((z, r.detach() if isinstance(r, torch.Tensor) else r, None if p.grad is None else p.grad.detach().clone()))
        return r


class Stub:
    def __init__(self, H, ncand=1):
        Optimiser.H, Optimiser.runs, Optimiser.ncand = H, [], ncand

    def __enter__(self):
        torch.optim.LBFGS = Optimiser
        return Optimiser.runs

    def __exit__(self, *a):
        torch.optim.LBFGS = REAL


def wire(s):
    for n in ('opt', 'solver'):
        if getattr(s, n, None) is REAL:
            setattr(s, n, Optimiser)
    return s


def objective(f, z, x, t1, dt):
    z = z.detach().clone().requires_grad_(True)
    with torch.enable_grad():
        r = z - x - dt * f(t1, z)
        v = (r * r).sum()
        g, = torch.autograd.grad(v, z)
    return v.detach(), g.detach(), r.detach()


def verify(H, run, f, x, t, dt, out, tag):
    H.check_eq(run.start, x, f'{tag}: the search does not start from the current state')
    for z, v, g in run.evals:
        wv, wg, r = objective(f, z, x, t + dt, dt)
        H.check_eq(v, wv, f'{tag}: objective is not the squared residual of x1 = x + dt f(t + dt, x1)')
        H.check(g is not None, f'{tag}: no gradient given to the optimiser')
        H.check_eq(g, wg, f'{tag}: gradient of the objective')
    H.check_eq(out.detach(), run.evals[-1][0], f'{tag}: the step does not return the minimiser found')


def step(H, shape, how, k1=False):
    x = H.tensor('x', shape, -2, 2)
    t, dt = H.scalar('t', -2, 2), H.scalar('dt', -2, 2)
    f = H.uf('f', shape[-1])
    with Stub(H, 2) as runs:
        s = wire(str_to_solver(how, torch.float64) if isinstance(how, str) else how(torch.float64))
        s.sync_device_dtype(x, torch.stack([t, t + 1]))
        out = s.step(f, x, t, dt, k1=f(t, x) if k1 else None)
        H.check(len(out) == 3, 'fixed steppers return three values')
        H.check(len(runs) == 1, 'one minimisation per step')
        verify(H, runs[0], f, x, t, dt, out[1], 'step')
    # a zero of the objective solves the implicit equation, and conversely
    z, v, _ = runs[0].evals[0]
    r = objective(f, z, x, t + dt, dt)[2].reshape(-1)
    zero = (r == 0).all()
    if H.decide(v == 0):
        H.check(zero, 'the objective vanishes but the implicit equation does not hold')
    else:
        H.check(~zero, 'the implicit equation holds but the objective does not vanish')


for shape, how in [((1, 1), 'ieuler'), ((1, 2), 'implicit_euler'), ((2, 1), ImplicitEuler), ((2, 2), 'ieuler'), ((2,), 'ieuler')]:
    SUITE.case(f'step-{"x".join(map(str, shape))}', bounds=f'one step of either sign, any time-varying field, any two candidate states, state {shape}')(
        lambda H, s=shape, h=how: step(H, s, h))
SUITE.case('step-k1', bounds='first slope supplied')(lambda H: step(H, (1, 1), 'ieuler', True))


def linear(H, dim):
    """On x' = lam x the objective vanishes exactly at x / (1 - dt lam)."""
    x, lam = H.tensor('x', (1, dim), -2, 2), H.scalar('lam', -3, 0)
    t, dt = H.scalar('t', -2, 2), H.scalar('dt', 0.01, 2)
    with Stub(H) as runs:
        s = wire(str_to_solver('ieuler', torch.float64))
        s.step(lambda t, y: lam * y, x, t, dt)
    z, v, g = runs[0].evals[0]
    sol = x / (1 - dt * lam)
    if H.decide((z == sol).all()):
        H.check_eq(v, 0 * v, 'objective at the implicit Euler solution')
        H.check_eq(g, 0 * g, 'gradient at the implicit Euler solution')
    else:
        H.check(v > 0, 'objective away from the implicit Euler solution')


SUITE.case('linear', bounds='decaying linear fields')(lambda H: linear(H, 1))


def grid(H, n, shape, api, rev=False):
    x = H.tensor('x', shape, -2, 2)
    ts = increasing(H, 't', n, gap=0.01)
    if rev:
        ts = ts[::-1]
    f = H.uf('f', shape[-1])
    span = torch.stack(ts)
    with Stub(H) as runs:
        if api == 'odeint':
            te, sol = odeint(f, x, span, 'ieuler')
        else:
            te, sol = ODEProblem(f, 'ieuler')(x, span)
        H.check_eq(te, span, 'times')
        H.check_shape(sol, (n,) + shape, 'solution')
        H.check(len(runs) == n - 1, 'one minimisation per step')
        H.check_eq(sol[0].detach(), x, 'first state')
        for k in range(n - 1):
            verify(H, runs[k], f, sol[k].detach(), ts[k], ts[k + 1] - ts[k], sol[k + 1], f'step {k}')


SUITE.case('grid-odeint', bounds='3 symbolic times, any field')(lambda H: grid(H, 3, (1, 1), 'odeint'))
SUITE.case('grid-odeint-rev', bounds='3 decreasing symbolic times, any field')(lambda H: grid(H, 3, (1, 2), 'odeint', True))
SUITE.case('grid-problem', bounds='3 symbolic times, any field')(lambda H: grid(H, 3, (2, 1), 'problem'))


def parallel(H, n, shape, guess, api='odeint'):
    x = H.tensor('x', shape, -2, 2)
    ts = increasing(H, 't', n, gap=0.01)
    span = torch.stack(ts)
    F = H.uf('f', shape[-1], time=False)
    f = lambda t, y, args=None: F(y)
    B0 = torch.cat([x[None], H.tensor('B', (n - 1,) + shape)], 0) if guess else None
    with Stub(H) as runs:
        if api == 'odeint':
            te, B = odeint_mshooting(f, x, span, wire(str_to_ms_solver('ieuler')), B0=B0)
        else:
            class Field(nn.Module):
                def forward(self, t, x, args=None):
                    return F(x)
            te, B = MultipleShootingProblem(Field(), wire(str_to_ms_solver('parallel-implicit-euler')))(x, span, B0)
        H.check(len(runs) == 1, 'one minimisation')
    run = runs[0]
    if B0 is None:
        B0 = [x]
        for a, b in zip(ts, ts[1:]):
            B0.append(B0[-1] + (b - a) * F(B0[-1]))
        B0 = torch.stack(B0)
    H.check_eq(run.start, B0, 'the search does not start from the initial guess')
    z, v, g = run.evals[0]
    zz = z.detach().clone().requires_grad_(True)
    with torch.enable_grad():
        tot, prev = 0, x
        for k in range(1, n):
            r = zz[k] - prev - (ts[k] - ts[k - 1]) * F(zz[k])
            tot = tot + (r * r).sum()
            prev = zz[k]
        want, = torch.autograd.grad(tot, zz)
    H.check_eq(v, tot.detach(), 'objective is not the sum of squared residuals of the chained implicit Euler equations')
    H.check(g is not None, 'no gradient given to the optimiser')
    H.check_eq(g, want, 'gradient of the objective')
    H.check_eq(B.detach(), z, 'the minimiser found is not returned')
    H.check_eq(te, span, 'times')


for n, shape, guess, api in [(2, (1, 1), True, 'odeint'), (3, (1, 2), True, 'odeint'), (4, (2, 1), True, 'odeint'), (3, (1, 1), False, 'odeint'), (3, (1, 1), True, 'problem'),
                               (4, (2,), True, 'odeint'), (4, (2, 1, 1), True, 'odeint'), (5, (2, 2, 1), False, 'odeint'), (4, (3, 2, 1), True, 'problem')]:
    SUITE.case(f'parallel-{n}-{"x".join(map(str, shape))}-{"guess" if guess else "default"}-{api}', bounds=f'{n} symbolic times, any autonomous field, any candidate, state {shape}')(
        lambda H, n=n, s=shape, g=guess, a=api: parallel(H, n, s, g, a))


def history(H):
    """Two calls with the same parallel and the same sequential solver object."""
    F, G = H.uf('f', 1, time=False), H.uf('g', 2, time=False)
    s = wire(str_to_ms_solver('ieuler'))
    for i, (shape, U) in enumerate([((1, 1), F), ((2, 2), G)]):
        x = H.tensor(f'x{i}', shape, -2, 2)
        ts = increasing(H, f't{i}_', 3, gap=0.01)
        B0 = torch.cat([x[None], H.tensor(f'B{i}', (2,) + shape)], 0)
        b0 = B0.clone()
        with Stub(H) as runs:
            _, B = odeint_mshooting(lambda t, y, args=None: U(y), x, torch.stack(ts), s, B0=B0)
        z, v, g = runs[0].evals[0]
        H.check_eq(runs[0].start, b0, f'call {i}: start')
        tot, prev = 0, x
        for k in range(1, 3):
            r = z[k] - prev - (ts[k] - ts[k - 1]) * U(z[k])
            tot, prev = tot + (r * r).sum(), z[k]
        H.check_eq(v, tot.detach(), f'call {i}: objective')
        H.check_eq(B.detach(), z, f'call {i}: result')
        H.check_eq(B0, b0, f'call {i}: the guess of the caller was modified')


SUITE.case('history', bounds='two calls of one parallel solver, other field, state and times')(history)
SUITE.case('grid-odeint-1d', bounds='3 symbolic times, any field, one-dimensional state')(lambda H: grid(H, 3, (2,), 'odeint'))
SUITE.case('grid-odeint-3d', bounds='3 symbolic times, any field, state (2,1,1)')(lambda H: grid(H, 3, (2, 1, 1), 'odeint'))


# larger structures
for n, shape in [(9, (1, 1)), (3, (17, 2)), (4, (2, 9))]:
    SUITE.case(f'parallel-{n}-{"x".join(map(str, shape))}-guess-odeint', bounds=f'{n} symbolic times, any autonomous field, any candidate, state {shape}')(lambda H, a=(n, shape): parallel(H, *a, True, 'odeint'))

contexts(SUITE, r'step-(1x2|2|k1)|linear|grid-.*|parallel-3-.*|history')
