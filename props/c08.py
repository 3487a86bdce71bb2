"""C08: integrating over a decreasing t_span is integration backward in time."""
from symtorch.runner import Suite
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.ode import str_to_solver
from torchdyn.numerics.solvers.hyper import HyperEuler, HyperMidpoint, HyperRungeKutta4
from torchdyn.core import NeuralODE, ODEProblem
from .common import *
from . import c07

SUITE = Suite('C08')


def decreasing(H, n, gap=0.01):
    return list(reversed(increasing(H, 't', n, gap=gap)))


class Probe:
    """Records the times at which the field is evaluated."""
    def __init__(self, F):
        self.F, self.times = F, []

    def __call__(self, t, x, args=None):
        self.times.append(t.reshape(()) if t.ndim == 1 else t)
        return self.F(t, x)


def back(H, solver, n, shape, how='odeint'):
    x = H.tensor('x', shape)
    ts = decreasing(H, n)
    F = H.uf('f', shape[-1])
    f = Probe(F)
    span = torch.stack(ts)
    s = solver
    if how == 'list':
        te, sol = odeint(f, x, [span], s)
    elif how == 'instance':
        te, sol = odeint(f, x, span, str_to_solver(s, torch.float64))
    elif how == 'all':
        te, sol = odeint(f, x, span, s, return_all_eval=True)
    elif how == 'model':
        te, sol = NeuralODE(f, solver=s)(x, span)
    elif how == 'trajectory':
        te, sol = span, NeuralODE(f, solver=s).trajectory(x, span)
    elif how == 'problem':
        te, sol = ODEProblem(f, s)(x, span)
    else:
        te, sol = odeint(f, x, span, s)
    H.check_shape(te, (n,), 'returned times')
    H.check_eq(te, torch.stack(ts), 'returned times are not the caller\'s')
    H.check_eq(span, torch.stack(ts), 'the t_span of the caller was modified')
    H.check_shape(sol, (n,) + shape, 'solution')
    for t in f.times:
        H.check((t <= ts[0]) & (t >= ts[-1]), 'the field is evaluated outside the interval of the caller')
    y = x
    H.check_eq(sol[0], x, 'first state')
    for k in range(n - 1):
        y = rk_step(H, solver, F, ts[k], y, ts[k + 1] - ts[k])
        H.check_eq(sol[k + 1], y, f'{solver}: state at t_span[{k + 1}]')


for solver, n, shape, how in [('euler', 2, (1, 1), 'odeint'), ('euler', 4, (1, 2), 'odeint'), ('midpoint', 3, (2, 1), 'odeint'), ('rk4', 3, (1, 1), 'odeint'),
                              ('euler', 3, (1, 1), 'list'), ('midpoint', 3, (1, 1), 'instance'), ('midpoint', 3, (1, 1), 'all'),
                              ('euler', 3, (1, 1), 'model'), ('midpoint', 3, (1, 1), 'trajectory'), ('rk4', 2, (1, 1), 'problem')]:
    SUITE.case(f'{how}-{solver}-{n}-{"x".join(map(str, shape))}', bounds=f'{n} strictly decreasing times, any field')(
        lambda H, solver=solver, n=n, shape=shape, how=how: back(H, solver, n, shape, how))


def hyper(H, cls, name, order):
    shape = (1, 2)
    x = H.tensor('x', shape)
    ts = decreasing(H, 3)
    F, g = H.uf('f', 2), H.uf('g', 2)

    class Net(nn.Module):
        def forward(self, t, x):
            return g(t, x)
    te, sol = odeint(F, x, torch.stack(ts), cls(Net(), dtype=torch.float64))
    H.check_eq(te, torch.stack(ts), 'returned times')
    y = x
    for k in range(2):
        dt = ts[k + 1] - ts[k]
        y = rk_step(H, name, F, ts[k], y, dt) + dt ** (order + 1) * g(ts[k], y)
        H.check_eq(sol[k + 1], y, f'{cls.__name__}: state at t_span[{k + 1}]')


for cls, name, order in [(HyperEuler, 'euler', 1), (HyperMidpoint, 'midpoint', 2), (HyperRungeKutta4, 'rk4', 4)]:
    SUITE.case(f'hyper-{name}', bounds='3 decreasing times, any field and hypernetwork')(lambda H, c=cls, nm=name, o=order: hyper(H, c, nm, o))


def saveat(H, n, sel, kind):
    x = H.tensor('x', (1, 1))
    ts = decreasing(H, n)
    F = H.uf('f', 1)
    at = [ts[i] for i in sel]
    te, sol = odeint(F, x, torch.stack(ts), 'euler', save_at=torch.stack(at) if kind == 'tensor' else at)
    want = [x]
    for a, b in zip(ts, ts[1:]):
        want.append(rk_step(H, 'euler', F, a, want[-1], b - a))
    H.check_shape(te, (len(sel),), 'returned times')
    H.check_eq(te, torch.stack(at), 'returned times are not those of save_at')
    for j, i in enumerate(sel):
        H.check_eq(sol[j], want[i], f'state saved at t_span[{i}]')


for n, sel, kind in [(3, (2,), 'tensor'), (3, (0, 2), 'list'), (4, (3, 1), 'tensor'), (4, (0, 1, 2, 3), 'list'), (3, (1,), 'list')]:
    SUITE.case(f'saveat-{n}-{"".join(map(str, sel))}-{kind}', bounds=f'{n} decreasing times, save_at at positions {sel}')(
        lambda H, n=n, sel=sel, kind=kind: saveat(H, n, sel, kind))


def adaptive(H, npts, K, rejects, all_eval=False):
    """The adaptive loop over decreasing times with a method that uses the field it is given."""
    ts = decreasing(H, npts)
    F = H.uf('f', 1, lo=-2, hi=2)
    h = Histories(H, ts, K, rejects=rejects, sign=-1)
    field = lambda t, x, args=None: f_probe(t, x)
    state = {'n': 0}

    def f_probe(t, x):
        # the starting slope and the probe of the starting step see a constant slope, the steps the field itself
        state['n'] += 1
        return h.field(t, x) if state['n'] <= 2 else F(t, x)

    def xnew(n, f, x, t, dt, k1):
        # one explicit midpoint step of the field given to the solver
        half = f(t + dt / 2, x)
        H.check_eq(half, -F(-(t + dt / 2), x), 'field given to the solver')
        y = x + dt * half
        # in the caller's time
        H.check_eq(y, x + (-dt) * F(-t - dt / 2, x), 'step with a negative increment')
        H.check((-t - dt / 2 <= ts[0]) & (-t - dt / 2 >= ts[-1]), 'evaluation outside the interval')
        return y
    h.xnew = xnew
    te, sol = odeint(field, h.x0, torch.stack(ts), h.solver, atol=h.atol, rtol=h.rtol, return_all_eval=all_eval)
    te = te.reshape(-1)
    acc = h.accepted
    if all_eval:
        H.check(len(te) == len(acc) + 1 and len(sol) == len(te), f'{len(te)} points for {len(acc)} accepted steps')
        for k, a in enumerate(acc):
            H.check_eq(te[k + 1], -a['end'], f'time of accepted step {k}')
            H.check_eq(sol[k + 1], a['x'], f'state of accepted step {k}')
        H.check_eq(te[0], ts[0], 'first time')
        return
    H.check(len(te) == npts and len(sol) == npts, f'{len(te)} points returned, {npts} requested')
    H.check_eq(te, torch.stack(ts), 'returned times are not the caller\'s')
    H.check_eq(sol[0], h.x0, 'first state')
    for i in range(1, npts):
        want = [a for a in acc if H.decide(a['end'] == -ts[i])]
        H.check(len(want) >= 1, f'no accepted step ends at t_span[{i}]')
        H.check_eq(sol[i], want[-1]['x'], f'state at t_span[{i}]')


SUITE.case('adaptive-2pts', bounds='2 decreasing times, at most 3 steps, any history', budget=240)(lambda H: adaptive(H, 2, 3, 3))
SUITE.case('adaptive-3pts', bounds='3 decreasing times, at most 4 steps, at most 1 rejected', budget=240, shards=2)(lambda H: adaptive(H, 3, 4, 1))
SUITE.case('adaptive-all', bounds='3 decreasing times, at most 3 steps, all points requested', budget=240)(lambda H: adaptive(H, 3, 3, 1, True))
SUITE.case('adaptive-interp', bounds='3 decreasing times, at most 2 steps, interpolation', budget=240)(lambda H: c07.histories(H, 3, 2, 1, sign=-1))


def tableau(H, name, n, how):
    """Real dopri5 / tsit5 on a field that is linear in time, which they integrate exactly."""
    b = H.scalar('b', -0.1, 0.1)
    t0, d = H.scalar('t0', -1, 1), H.scalar('d', 0.1, 0.5)
    t1 = t0 - d
    # starting slope 0.1: the starting step, about 0.76, covers the interval
    f = Probe(lambda t, x: H.const(0.1) + b * (t - t0) + 0 * x)
    span = torch.stack([t0, t1])
    x = H.const([[1.]])
    if how == 'odeint':
        te, sol = odeint(f, x, span, name, atol=1., rtol=1.)
    else:
        te, sol = NeuralODE(f, solver=name, atol=1., rtol=1., sensitivity='autograd')(x, span)
    H.check_eq(te.reshape(-1), span, 'returned times')
    H.check(len(sol) == 2, 'two states')
    H.check_eq(sol[1].reshape(()), 1 - d / 10 + b * d * d / 2, f'{name}: solution at the end', tol=1e-6)
    for t in f.times[2:]:
        H.check((t <= t0) & (t >= t1 - 1e-9), 'a step evaluates the field outside the interval of the caller')


for nm in ('dopri5', 'tsit5'):
    for how in ('odeint', 'model'):
        SUITE.case(f'{how}-{nm}', bounds='2 decreasing times 0.1 to 0.5 apart, fields linear in time', budget=240)(lambda H, nm=nm, how=how: tableau(H, nm, 2, how))


def history(H, solver, how):
    """Backward, forward and backward again over the same times with the same objects."""
    shape = (1, 2)
    F = H.uf('f', 2)
    f = Probe(F)
    ts = decreasing(H, 3)
    span, up = torch.stack(ts), torch.stack(ts[::-1])
    s = solver if how in ('name', 'model') else str_to_solver(solver, torch.float64)
    m = NeuralODE(f, solver=s) if how == 'model' else None
    call = (lambda x, sp: m(x, sp)) if m is not None else (lambda x, sp: odeint(f, x, sp, s))
    x = H.tensor('x', shape)
    keeps = []
    for i, (sp, tt) in enumerate([(span, ts), (up, ts[::-1]), (span, ts), (up, ts[::-1])]):
        te, sol = call(x, sp)
        H.check_eq(te, torch.stack(tt), f'call {i}: times')
        y = x
        H.check_eq(sol[0], y, f'call {i}: first state')
        for k in range(2):
            y = rk_step(H, solver, F, tt[k], y, tt[k + 1] - tt[k])
            H.check_eq(sol[k + 1], y, f'call {i}: state at t_span[{k + 1}]')
        keeps.append((sol, sol.clone()))
    for a, b in keeps:
        H.check_eq(a, b, 'a solution returned earlier changed')


def there_and_back(H, solver):
    """The backward call starts where the forward one ended: the adaptive steppers' field has no memory of the direction."""
    f = H.uf('f', 1)
    t, dt = H.scalar('t', -2, 2), H.scalar('dt', 0.01, 1)
    s = str_to_solver(solver, torch.float64)
    x = H.tensor('x', (1, 1))
    s.sync_device_dtype(x, torch.stack([t, t + dt]))
    g = lambda t, x, args=None: -f(-t, x)
    a = s.step(f, x, t, dt)[1]
    H.check_eq(a, rk_step(H, solver, f, t, x, dt), 'forward step', tol=1e-9)
    b = s.step(g, a, -(t + dt), dt)[1]
    H.check_eq(b, rk_step(H, solver, g, -(t + dt), a, dt), 'step of the reversed field', tol=1e-9)
    H.check_eq(b, rk_step(H, solver, f, t + dt, a, -dt), 'step backward in time', tol=1e-9)


for nm in ('euler', 'midpoint', 'rk4'):
    for how in ('name', 'object', 'model'):
        SUITE.case(f'history-{nm}-{how}', bounds='four calls over the same three times in alternating direction')(lambda H, nm=nm, how=how: history(H, nm, how))
for nm in ('dopri5', 'tsit5'):
    SUITE.case(f'there-and-back-{nm}', bounds='one step forward, one backward, one solver object')(lambda H, nm=nm: there_and_back(H, nm))


def alias(H, name, kind):
    shape = (1, 2)
    x = H.tensor('x', shape)
    x0 = x.clone()
    ts = decreasing(H, 3)
    f, g, same = alias_field(H, kind, shape)
    te, sol = odeint(f, x, torch.stack(ts), name)
    H.check_eq(x, x0, 'initial state modified')
    same(name)
    y = x0
    for k in range(2):
        y = rk_step(H, name, g, ts[k], y, ts[k + 1] - ts[k])
        H.check_eq(sol[k + 1], y, f'{name}, {kind} field: state at t_span[{k + 1}]')


for nm in ('euler', 'midpoint', 'rk4'):
    for kind in ALIAS_FIELDS:
        SUITE.case(f'alias-{nm}-{kind}', bounds='3 decreasing times; field returning its own argument, a view of it or one fixed tensor')(
            lambda H, nm=nm, kind=kind: alias(H, nm, kind))
for shape in ((3,), (2, 1, 2)):
    SUITE.case(f'odeint-midpoint-3-{"x".join(map(str, shape))}', bounds='3 strictly decreasing times, any field')(lambda H, shape=shape: back(H, 'midpoint', 3, shape))

contexts(SUITE, r'odeint-(euler-4|dopri5).*|hyper-.*|saveat-3-02.*|adaptive-(2pts|all|interp)|model-.*|trajectory-.*|list-.*|alias-euler.*')
