"""C17: model forward passes equal the functional integration they wrap."""
from symtorch.runner import Suite
from torchdyn.core import ODEProblem, NeuralODE
from torchdyn.core.problems import MultipleShootingProblem
from torchdyn.core.neuralde import MultipleShootingLayer
from torchdyn.numerics import odeint
from torchdyn.numerics.odeint import odeint_mshooting
from torchdyn.numerics.solvers.ode import str_to_solver, MSZero, MSBackward
from .sens import *

SUITE = Suite('C17')
SENS = ('autograd', 'adjoint', 'interpolated_adjoint')


def field(H, dim, kind):
    u = H.uf('f', dim)
    if kind == 'fn':
        return lambda t, x: u(t, x), u
    if kind == 'state':
        return (lambda x: u(H.const(0.), x)), (lambda t, x: u(H.const(0.), x))
    if kind == 'args':
        return (lambda t, x, args=None: u(t, x)), u
    if kind == 'module':
        return Field(lambda p, t, x: u(t, x), w=param(H, 'w')), u
    return FieldX(lambda p, t, x: u(H.const(0.), x), w=param(H, 'w')), lambda t, x: u(H.const(0.), x)


def make(H, cls, vf, solver, **kw):
    return {'problem': ODEProblem, 'node': NeuralODE}[cls](vf, solver, **kw)


def fixed(H, cls, sens, solver, kind='fn', batch=1, dim=1, n=3, rev=False, save=None, teval=True, instance=False, ref=True):
    vf, f = field(H, dim, kind)
    x = H.tensor('x', (batch, dim), -2, 2)
    span = grid(H, n, rev)
    kw = dict(sensitivity=sens)
    if not teval:
        kw['return_t_eval'] = False
    sv = str_to_solver(solver, torch.float64) if instance else solver
    m = make(H, cls, vf, sv, **kw)
    sa = () if save is None else span[list(save)]
    if save is not None and instance:
        sa = [span[k] for k in save]
    out = m(x, span, save_at=sa) if save is not None else m(x, span)
    te, sol = out if teval else (None, out)
    ids = list(range(n)) if save is None else list(save)
    # the functional interface, and the published method
    rte, rsol = odeint(lambda t, y, args=None: f(t, y), x, span, solver)
    H.check_shape(sol, (len(ids), batch, dim), 'solution')
    H.check_eq(sol.detach(), rsol[ids].detach(), 'solution differs from the functional interface')
    y = x
    for k in range(n):
        for i, j in enumerate(ids):
            if j == k:
                H.check_eq(sol[i].detach(), y.detach(), f'state at time {k}')
        if k + 1 < n:
            y = rk_step(H, solver, f, span[k], y, span[k + 1] - span[k])
    if teval:
        H.check_eq((torch.stack(list(te)) if isinstance(te, (list, tuple)) else te).detach(), span[ids], 'times')
    if cls == 'node':
        H.check_eq(m.trajectory(x, span).detach(), rsol.detach(), 'trajectory')


for sens in SENS:
    s = sens[:3]
    for nm, kw in {'problem-rk4': dict(cls='problem', solver='rk4', n=2), 'node-rk4': dict(cls='node', solver='rk4', n=2, kind='module'),
                   'node-euler': dict(cls='node', solver='euler', batch=2, dim=2, kind='state'), 'problem-euler': dict(cls='problem', solver='euler', batch=2, kind='args'),
                   'node-midpoint-rev': dict(cls='node', solver='midpoint', rev=True, kind='module'), 'problem-midpoint-rev': dict(cls='problem', solver='midpoint', rev=True),
                   'node-save': dict(cls='node', solver='euler', n=4, save=(2, 0), kind='fn'), 'problem-save': dict(cls='problem', solver='midpoint', save=(1,), kind='modulex'),
                   'node-save-rev': dict(cls='node', solver='euler', n=3, save=(1, 2), rev=True, instance=True),
                   'node-sol': dict(cls='node', solver='euler', teval=False, batch=2), 'node-sol-save': dict(cls='node', solver='euler', teval=False, save=(2,), kind='module'),
                   'problem-instance': dict(cls='problem', solver='midpoint', instance=True, kind='modulex')}.items():
        SUITE.case(f'{s}-{nm}', bounds=f'any field, any increasing or decreasing times; {kw}')(lambda H, kw=kw, se=sens: fixed(H, sens=se, **kw))


# ---- adaptive solvers: the model takes the very steps of the functional interface, with its tolerances and interpolator
class Cached:
    """An adaptive solver with arbitrary errors, states, slopes and stages, the same at every use."""
    def __init__(self, H, nsteps, shape):
        self.H, self.n, self.shape, self.c = H, nsteps, shape, {}

    def get(self, name, lo=-2, hi=2, shape=None):
        if name not in self.c:
            self.c[name] = self.H.tensor(name, self.shape if shape is None else shape, lo, hi)
        return self.c[name]

    def solver(self):
        H = self.H

        def script(n, f, x, t, dt, k1):
            if n == 0:
                # the first step decides by its error; the following ones are accepted
                e = self.get('err')
            else:
                e = 0 * x
            k = k1 if k1 is not None else f(t, x)
            st = tuple(self.get(f'k{n}_{i}') for i in range(6))
            return self.get(f'sl{n}'), self.get(f'xn{n}'), e, (k,) + st
        s = Script(H, script, bound=self.n)
        s.max_factor, s.min_factor = H.const([4.]), H.const([0.5])
        return s


def adaptive(H, cls, sens, interp=False, rev=False, n=2, kind='fn', teval=True):
    vf, f = field(H, 1, kind)
    x = H.tensor('x', (1, 1), -2, 2)
    span = torch.stack(increasing(H, 't', n, 0, 4, gap=0.3))
    if rev:
        span = span.flip(0)
    at, rt = H.scalar('atol', 0.1, 1), H.scalar('rtol', 0.1, 1)
    C = Cached(H, 3, (1, 1))
    itp = '4th' if interp else None
    with StartStep(H, 0.2, 4):
        s1 = C.solver()
        kw = dict(atol=at, rtol=rt, interpolator=itp, sensitivity=sens)
        m = make(H, cls, vf, s1, **kw, **({} if teval else {'return_t_eval': False}))
        out = m(x, span)
        te, sol = out if teval else (None, out)
        s2 = C.solver()
        rte, rsol = odeint(lambda t, y, args=None: f(t, y), x, span, s2, atol=at, rtol=rt, interpolator=itp)
        same(H, s1, s2)
        H.check_eq(sol.detach(), rsol.detach(), 'solution differs from the functional interface')
        H.check_shape(sol, (n, 1, 1), 'one state per time')
        if teval:
            H.check_eq(te.detach(), span, 'times')
        if cls == 'node':
            n1 = len(s1.log)
            s1.log.clear()
            tr = m.trajectory(x, span)
            same(H, s1, s2)
            H.check_eq(tr.detach(), rsol.detach(), 'trajectory')


def same(H, s1, s2):
    H.check(len(s1.log) == len(s2.log), 'number of steps')
    for a, b in zip(s1.log, s2.log):
        H.check_eq(a['t'], b['t'], 'time of a step')
        H.check_eq(a['dt'], b['dt'], 'size of a step')
        H.check_eq(a['x'], b['x'], 'state of a step')


for sens in SENS:
    s = sens[:3]
    for nm, kw in {'problem': dict(cls='problem'), 'node': dict(cls='node', kind='module'), 'node-rev': dict(cls='node', rev=True, kind='state'), 'node-sol': dict(cls='node', teval=False)}.items():
        SUITE.case(f'adaptive-{s}-{nm}', bounds=f'first step accepted or rejected by any error, any tolerances, up to 3 steps; {kw}')(lambda H, kw=kw, se=sens: adaptive(H, sens=se, **kw))
    if sens:
        SUITE.case(f'adaptive-{s}-interp', bounds='interpolated output')(lambda H, se=sens: adaptive(H, 'node', se, interp=True, n=3))
        SUITE.case(f'adaptive-{s}-interp-problem', bounds='interpolated output')(lambda H, se=sens: adaptive(H, 'problem', se, interp=True, n=3))


def default_span(H, how):
    u = H.uf('f', 1)
    x = H.tensor('x', (2, 1), -2, 2)
    m = NeuralODE(lambda t, y: u(t, y), 'midpoint')
    if how == 'none':
        te, sol = m(x)
        want = H.const([0., 1.])
    elif how == 'explicit':
        te, sol = m(x, None)
        want = H.const([0., 1.])
    else:
        want = grid(H, 3, False)
        m.t_span = want
        te, sol = m(x)
    H.check_eq(te, want, 'default times')
    y, ys = x, [x]
    for k in range(len(want) - 1):
        y = rk_step(H, 'midpoint', u, want[k], y, want[k + 1] - want[k])
        ys.append(y)
    H.check_eq(sol, torch.stack(ys), 'solution over the default interval')


for how in ('none', 'explicit', 'own'):
    SUITE.case(f'default-span-{how}', bounds='any field')(lambda H, h=how: default_span(H, h))


def history(H, cls, sens):
    """What a model was called with before does not change what it computes next."""
    u = H.uf('f', 1)
    vf = Field(lambda p, t, y: u(t, y), w=param(H, 'w'))
    m = make(H, cls, vf, 'euler', sensitivity=sens)
    x, y = H.tensor('x', (1, 1), -2, 2), H.tensor('y', (2, 1), -2, 2)
    s1, s2 = grid(H, 3, False), torch.stack(increasing(H, 'v', 2, -2, 2, gap=0.05))

    def go(x, span, save, msg):
        te, sol = m(x, span, save_at=save) if save is not None else m(x, span) if span is not None else m(x)
        span = H.const([0., 1.]) if span is None else span
        ys = [x]
        for k in range(len(span) - 1):
            ys.append(rk_step(H, 'euler', u, span[k], ys[-1], span[k + 1] - span[k]))
        ys = torch.stack(ys)
        if save is not None:
            ys, span = ys[[1]], save
        H.check_eq(sol.detach(), ys.detach(), 'solution of ' + msg)
        H.check_eq((torch.stack(list(te)) if isinstance(te, (list, tuple)) else te).detach(), span, 'times of ' + msg)
    go(x, s1, None, 'the first call')
    if cls == 'node':
        go(x, None, None, 'a call with the default times')
    go(y, s2, None, 'a call over other times with a larger batch')
    go(x, s1, s1[[1]], 'a call saving at one time')
    go(x, s1, None, 'a repeated call')
    if cls == 'node':
        tr = m.trajectory(x, s2)
        H.check_eq(tr[1].detach(), rk_step(H, 'euler', u, s2[0], x, s2[1] - s2[0]).detach(), 'trajectory')
        go(y, None, None, 'a last call with the default times')


for cls in ('node', 'problem'):
    for sens in SENS:
        SUITE.case(f'history-{cls}-{sens[:3]}', bounds='up to six calls of one model with other states, times, save times')(lambda H, c=cls, s=sens: history(H, c, s))


def chained(H):
    """Models that return only the solution compose like functions."""
    u, w = H.uf('f', 1), H.uf('g', 1)
    x = H.tensor('x', (1, 1), -2, 2)
    span = grid(H, 2, False)
    a = NeuralODE(lambda t, y: u(t, y), 'euler', return_t_eval=False)
    b = NeuralODE(lambda t, y: w(t, y), 'euler', return_t_eval=False)
    a.t_span, b.t_span = span, span
    y = nn.Sequential(a, b)(x)
    s = torch.stack([x, x + (span[1] - span[0]) * u(span[0], x)])
    s2 = s + (span[1] - span[0]) * w(span[0], s)
    H.check_eq(y, torch.stack([s, s2]), 'composition of two models')


SUITE.case('chained', bounds='two models in sequence')(chained)


def shooting(H, cls, kind, sens, maxiter, fine, guess, n=3):
    """Parallel-in-time problems hand their settings to the parallel solver."""
    F = H.uf('f', 1, time=False)
    vf = (lambda t, y: F(y)) if sens == 'autograd' else Field(lambda p, t, y: F(y), w=param(H, 'w'))
    x = H.tensor('x', (1, 1), -2, 2)
    span = grid(H, n, False, uniform=True)
    B0 = torch.stack([x] + [H.tensor(f'b{i}', (1, 1), -2, 2) for i in range(1, n)]) if guess else None
    sv = {'zero': lambda: MSZero('euler', 'midpoint'), 'newton': lambda: MSBackward('euler', 'euler'), 'mszero': lambda: 'mszero'}[kind]
    m = (MultipleShootingProblem if cls == 'problem' else MultipleShootingLayer)(vf, sv(), sensitivity=sens, maxiter=maxiter, fine_steps=fine)
    te, sol = m(x, span, B0) if guess else m(x, span)
    rte, rsol = odeint_mshooting(lambda t, y: F(y), x, span, sv(), B0=None if B0 is None else B0.clone(), fine_steps=fine, maxiter=maxiter)
    H.check_eq(te.detach(), span, 'times')
    H.check_eq(sol.detach(), rsol.detach(), 'solution differs from the functional interface')


for sens in SENS:
    for nm, kw in {'zero': dict(cls='problem', kind='zero', maxiter=1, fine=3, guess=True), 'layer': dict(cls='layer', kind='zero', maxiter=0, fine=2, guess=True, n=4),
                   'layer-guess': dict(cls='layer', kind='newton', maxiter=1, fine=2, guess=True, n=4), 'noguess': dict(cls='problem', kind='zero', maxiter=0, fine=3, guess=False, n=4)}.items():
        SUITE.case(f'shooting-{sens[:3]}-{nm}', bounds=f'any autonomous field; {kw}')(lambda H, kw=kw, se=sens: shooting(H, sens=se, **kw))


def changed(H, cls, sens, kind):
    """What the caller changes in place between two calls - state, times, parameters, solver - is what the next call sees."""
    u = H.uf('f', 1)
    w = param(H, 'w')
    fail = []

    def field(p, t, y):
        if fail and fail.pop():
            raise ArithmeticError
        return p.w * u(t, y)
    vf = Field(field, w=w)
    m = make(H, cls, vf, 'euler', sensitivity=sens)
    x, span = H.tensor('x', (1, 1), -2, 2), grid(H, 3, False)
    method = 'euler'

    def want(wv, x, span):
        ys = [x]
        for k in range(len(span) - 1):
            ys.append(rk_step(H, method, lambda t, y: wv * u(t, y), span[k], ys[-1], span[k + 1] - span[k]))
        return torch.stack(ys).detach()
    if kind == 'grad':
        with torch.no_grad():
            te, sol = m(x, span)
    else:
        te, sol = m(x, span)
    keep, tkeep = sol.detach().clone(), te.detach().clone()
    H.check_eq(keep, want(w.detach(), x, span), 'first call')
    if kind == 'state':
        x.add_(H.tensor('d', (1, 1), -1, 1))
    elif kind == 'times':
        span.copy_(torch.stack(increasing(H, 'v', 3, -2, 2, gap=0.05)))
    elif kind == 'parameter':
        with torch.no_grad():
            w.add_(H.scalar('d', -1, 1))
    elif kind == 'load':
        m.load_state_dict({k: H.tensor(f'n{i}', tuple(v.shape), -2, 2) for i, (k, v) in enumerate(m.state_dict().items())})
    elif kind == 'solver':
        m.solver = str_to_solver('midpoint', torch.float64)
        method = 'midpoint'
    elif kind == 'eval':
        m.eval()
    elif kind == 'result':
        with torch.no_grad():
            sol.data.mul_(2)        # the caller owns what it was given
            keep = 2 * keep
    elif kind == 'interrupted':
        fail[:] = [True, False]     # the second evaluation fails
        try:
            m(x + 1, span)
            H.check(False, 'the failure of the vector field is not reported')
        except ArithmeticError:
            pass
    elif kind == 'trained':
        sol.sum().backward()
        with torch.no_grad():
            w.sub_(0.5 * w.grad)
        w.grad = None
    elif kind == 'shape':
        x = H.tensor('y', (2, 2), -2, 2)
    elif kind == 'reversed':
        span = span.flip(0)
    te2, sol2 = m(x, span)
    H.check_eq(sol2.detach(), want(w.detach(), x, span), f'call after a change of the {kind}')
    H.check_eq(te2.detach(), span, 'times of the second call')
    H.check_eq(sol.detach(), keep, 'the solution returned earlier changed')
    if kind != 'times':
        H.check_eq(te.detach(), tkeep, 'the times returned earlier changed')
    if kind == 'grad':
        H.check(sol2.requires_grad, 'a call with gradients enabled, after one without, has no graph')


for cls in ('node', 'problem'):
    for sens in SENS:
        for kind in ('state', 'times', 'parameter', 'load', 'solver', 'eval', 'grad', 'result', 'interrupted', 'trained', 'shape', 'reversed'):
            SUITE.case(f'changed-{kind}-{cls}-{sens[:3]}', bounds='two calls of one model with a change in place in between')(lambda H, c=cls, s=sens, k=kind: changed(H, c, s, k))
