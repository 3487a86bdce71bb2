"""C20: SDE integration tiles the interval with consecutive Brownian increments."""
from symtorch.runner import Suite
from torchdyn.core.defunc import SDEFunc
from torchdyn.core import NeuralSDE
from torchdyn.core.problems import SDEProblem
from torchdyn.numerics import sdeint
from torchdyn.numerics.solvers.sde import sde_str_to_solver
from .common import *
from .c19 import Path, SOLVERS, scheme, build

SUITE = Suite('C20', assumptions=['the Brownian path is an arbitrary function of time; increments are its differences'])


class MF(nn.Module):
    def __init__(self, f):
        super().__init__()
        self.f = f

    def forward(self, t, x):
        return self.f(t, x)


class MX(nn.Module):
    def __init__(self, f):
        super().__init__()
        self.f = f

    def forward(self, x):
        return self.f(x)


class Plain:
    """An SDE given as a plain object."""


def entry(H, api, name, f, g, sde, bm, x, span, sa):
    """(times, states) and a second path, if the entry point has one."""
    if api == 'sdeint':
        return sdeint(sde, x, span, name, bm, save_at=sa)
    if api == 'instance':
        return sdeint(sde, x, span, sde_str_to_solver(name, sde, bm, torch.float64), bm, save_at=sa)
    if api == 'plain':
        s = Plain()
        s.f, s.g, s.noise_type, s.sde_type = f, g, sde.noise_type, sde.sde_type
        return sdeint(s, x, span, name, bm, save_at=sa)
    if api == 'problem':
        return SDEProblem(sde, name)(x, span, bm, save_at=sa)
    kw = dict(solver=name, sde_type=SOLVERS[name][0], noise_type=sde.noise_type, bm=bm)
    if api == 'modules':
        wrap = lambda h: (MX if h.__code__.co_argcount == 1 else MF)(h)
        return NeuralSDE(wrap(f), wrap(g), **kw)(x, span, sa)
    m = NeuralSDE(f, g, **kw, return_t_eval=api != 'solution')
    if api == 'trajectory':
        return span, m.trajectory(x, span)
    if api == 'default':
        m.t_span = span
        return m(x)
    if api == 'solution':
        return None, m(x, span, sa)
    return m(x, span, sa)


def run(H, name, api, shape, n, save=None, time=(True, True), aslist=False):
    f, g, rf, rg, sde = build(H, name, shape, 'diagonal', time)
    x = H.tensor('x', shape, -2, 2)
    ts = increasing(H, 't', n, -2, 2, gap=0.05)
    span = torch.stack(ts)
    bm = Path(H, shape)
    ids = list(range(n)) if save is None else list(save)
    sa = () if save is None else ([ts[i] for i in ids] if aslist else span[ids])
    te, sol = entry(H, api, name, f, g, sde, bm, x, span, sa)
    if te is not None:
        H.check_eq(torch.stack(list(te)) if isinstance(te, (list, tuple)) else te, span[ids], 'times')
    H.check_shape(sol, (len(ids),) + shape, 'solution')
    # the increments asked for tile the interval
    k, seen = 0, []
    for a, b in bm.asked:
        if seen and H.decide(((a == seen[-1][0]) & (b == seen[-1][1])).all()):
            continue            # the same increment used again within a step
        seen.append((a, b))
    H.check(len(seen) == n - 1, f'{len(seen)} increments for {n - 1} steps')
    for k, (a, b) in enumerate(seen):
        H.check_eq(a, ts[k], f'increment {k} starts at the wrong time')
        H.check_eq(b, ts[k + 1], f'increment {k} ends at the wrong time')
    total = sum((bm.at(b) - bm.at(a) for a, b in seen), H.const(0.))
    H.check_eq(total, bm.at(ts[-1]) - bm.at(ts[0]), 'the increments do not sum to the total increment')
    y = x
    for k in range(n):
        for i, j in enumerate(ids):
            if j == k:
                H.check_eq(sol[i], y, f'state at time {k}')
        if k + 1 < n:
            y = scheme(H, name, rf, rg, ts[k], y, ts[k + 1] - ts[k], bm.at(ts[k + 1]) - bm.at(ts[k]))


APIS = ('sdeint', 'instance', 'plain', 'problem', 'model', 'trajectory', 'solution', 'default', 'modules')
for name in SOLVERS:
    for api in APIS:
        SUITE.case(f'{name}-{api}', bounds='3 symbolic times (non-uniform), any path, drift, diffusion')(lambda H, n=name, a=api: run(H, n, a, (1, 1), 3 if n == 'euler' else 2 if 'mil' in n and a not in ('sdeint', 'model') else 3))
for api in ('sdeint', 'model', 'trajectory', 'modules', 'plain'):
    for time in ((False, False), (True, False), (False, True)):
        SUITE.case(f'time{int(time[0])}{int(time[1])}-{api}', bounds='drift and diffusion with or without time')(lambda H, a=api, q=time: run(H, 'euler', a, (2, 1), 3, time=q))
for save in ((0,), (3,), (1, 2), (2, 1), (3, 0), (0, 1, 2, 3), (3, 1, 2), (0, 2)):
    for api in ('sdeint', 'model'):
        SUITE.case(f'save-{"".join(map(str, save))}-{api}', bounds='4 symbolic times')(lambda H, s=save, a=api: run(H, 'euler', a, (1, 2), 4, s))
SUITE.case('save-list', bounds='4 symbolic times, save_at given as a list')(lambda H: run(H, 'eulerHeun', 'sdeint', (1, 1), 3, (2, 0), aslist=True))
SUITE.case('save-solution', bounds='only the solution returned')(lambda H: run(H, 'euler', 'solution', (1, 1), 3, (2, 0)))
SUITE.case('save-problem', bounds='SDEProblem')(lambda H: run(H, 'euler', 'problem', (1, 1), 3, (1,)))
SUITE.case('euler-5', bounds='5 symbolic times')(lambda H: run(H, 'euler', 'sdeint', (1, 2), 5))
SUITE.case('heun-4', bounds='4 symbolic times')(lambda H: run(H, 'eulerHeun', 'model', (2, 2), 3))


def reject(H, api):
    f, g, rf, rg, sde = build(H, 'euler', (1, 1), 'diagonal')
    x = H.tensor('x', (1, 1), -2, 2)
    ts = increasing(H, 't', 3, -2, 2, gap=0.05)
    other = H.scalar('s', -2, 2)
    for t in ts:
        H.assume((other - t).abs() > 0.01)
    expect_raise(H, lambda: entry(H, api, 'euler', f, g, sde, Path(H, (1, 1)), x, torch.stack(ts), torch.stack([ts[1], other])), 'a time outside t_span is accepted')


SUITE.case('reject-sdeint', bounds='3 times (gaps >= 0.05), any time farther than 0.01 from all of them')(lambda H: reject(H, 'sdeint'))


def history(H, name, api):
    """Repeated calls: each uses increments of its own interval only and earlier results stay as they were."""
    shape = (1, 2)
    f, g, rf, rg, sde = build(H, name, shape, 'diagonal')
    bm = Path(H, shape)
    if api == 'instance':
        s = sde_str_to_solver(name, sde, bm, torch.float64)
        call = lambda x, span: sdeint(sde, x, span, s, bm)
    elif api == 'problem':
        p = SDEProblem(sde, name)
        call = lambda x, span: p(x, span, bm)
    elif api == 'model':
        m = NeuralSDE(f, g, solver=name, sde_type=SOLVERS[name][0], noise_type='diagonal', bm=bm)
        call = lambda x, span: m(x, span)
    else:
        m = NeuralSDE(f, g, solver=name, sde_type=SOLVERS[name][0], noise_type='diagonal', bm=bm)
        call = lambda x, span: (span, m.trajectory(x, span))
    keeps = []
    for i in range(2):
        x = H.tensor(f'x{i}', shape, -2, 2)
        x0 = x.clone()
        ts = increasing(H, f't{i}_', 3, -2, 2, gap=0.05)
        bm.asked = []
        span = torch.stack(ts)
        te, sol = call(x, span)
        H.check_eq(te, torch.stack(ts), f'call {i}: times')
        H.check_eq(span, torch.stack(ts), 'the t_span of the caller was modified')
        H.check_eq(x, x0, 'the initial state was modified')
        for a, b in bm.asked:
            H.check((a >= ts[0]) & (b <= ts[-1]) & (a < b), f'call {i}: an increment outside the interval')
        y = x
        for k in range(2):
            y = scheme(H, name, rf, rg, ts[k], y, ts[k + 1] - ts[k], bm.at(ts[k + 1]) - bm.at(ts[k]))
            H.check_eq(sol[k + 1], y, f'call {i}: state {k + 1}')
        keeps.append((sol, sol.clone()))
    for a, b in keeps:
        H.check_eq(a, b, 'a solution returned earlier changed')


def gradient(H, name):
    """Drift, diffusion and initial state receive the gradient of the discretised path."""
    a, b = H.scalar('a', -2, 2).requires_grad_(True), H.scalar('b', -2, 2).requires_grad_(True)
    x = H.tensor('x', (1, 1), -2, 2).requires_grad_(True)
    ts = increasing(H, 't', 3, -2, 2, gap=0.05)
    bm = Path(H, (1, 1))
    m = NeuralSDE(lambda t, x: a * x + t, lambda t, x: b * x, solver=name, sde_type=SOLVERS[name][0], noise_type='diagonal', bm=bm)
    y = m(x, torch.stack(ts))[1][-1]
    g = torch.autograd.grad(y.sum(), [a, b, x])
    z = x
    for k in range(2):
        z = scheme(H, name, lambda t, x: a * x + t, lambda t, x: b * x, ts[k], z, ts[k + 1] - ts[k], bm.at(ts[k + 1]) - bm.at(ts[k]))
    w = torch.autograd.grad(z.sum(), [a, b, x])
    for p, q, n in zip(g, w, ('drift', 'diffusion', 'initial state')):
        H.check_eq(p, q, f'gradient of the {n}')


for name in SOLVERS:
    for api in ('instance', 'problem', 'model', 'trajectory'):
        SUITE.case(f'history-{name}-{api}', bounds='two calls, any path, drift, diffusion')(lambda H, n=name, a=api: history(H, n, a))
    SUITE.case(f'gradient-{name}', bounds='linear SDE with symbolic coefficients, 3 times, any path')(lambda H, n=name: gradient(H, n))
for shape in ((2,), (2, 1, 2)):
    for api in ('sdeint', 'model'):
        SUITE.case(f'rank-{"x".join(map(str, shape))}-{api}', bounds=f'3 symbolic times, state {shape}')(lambda H, a=api, s=shape: run(H, 'eulerHeun', a, s, 3))


def control(H):
    """Data-controlled drift: the module sees the initial state of the call at every step."""
    from torchdyn.nn import DataControl
    F, G = H.uf('f', 1), H.uf('g', 1)

    class Net(nn.Module):
        def __init__(self):
            super().__init__()
            self.dc = DataControl()

        def forward(self, t, x):
            z = self.dc(x)
            return F(t, z[:, :1] + 2 * z[:, 1:])
    bm = Path(H, (2, 1))
    m = NeuralSDE(Net(), MF(lambda t, x: G(t, x)), solver='euler', sde_type='ito', noise_type='diagonal', bm=bm)
    for i in range(2):
        x = H.tensor(f'x{i}', (2, 1), -2, 2)
        ts = increasing(H, f't{i}_', 3, -2, 2, gap=0.05)
        sol = m(x, torch.stack(ts))[1]
        y = x
        for k in range(2):
            y = scheme(H, 'euler', lambda t, z: F(t, z + 2 * x), lambda t, z: G(t, z), ts[k], y, ts[k + 1] - ts[k], bm.at(ts[k + 1]) - bm.at(ts[k]))
            H.check_eq(sol[k + 1].detach(), y, f'call {i}: state {k + 1}')


SUITE.case('control', bounds='data-controlled drift, two calls')(control)


# larger structures
SUITE.case('euler-12', bounds='12 symbolic times')(lambda H: run(H, 'euler', 'sdeint', (1, 1), 12))
SUITE.case('euler-12-model', bounds='12 symbolic times')(lambda H: run(H, 'euler', 'model', (1, 1), 12))
SUITE.case('euler-17x2', bounds='3 symbolic times, 17 samples')(lambda H: run(H, 'euler', 'sdeint', (17, 2), 3))

contexts(SUITE, r'.*-(sdeint|model|trajectory|solution|default)')
