"""C19: SDE steppers implement their schemes and refuse SDEs of another type."""
from symtorch.runner import Suite
from torchdyn.core.defunc import SDEFunc
from torchdyn.core import NeuralSDE
from torchdyn.numerics import sdeint
from torchdyn.numerics.solvers.sde import sde_str_to_solver, EulerMaruyama, EulerHeun, MilesteinIto, MilesteinStratonovich
from .common import *

SUITE = Suite('C19', assumptions=['the Brownian path is an arbitrary function of time; increments are its differences; noise acts elementwise (diagonal, scalar)'])
SOLVERS = {'euler': ('ito', EulerMaruyama), 'eulerHeun': ('stratonovich', EulerHeun), 'milstein_ito': ('ito', MilesteinIto), 'milstein_stratonovich': ('stratonovich', MilesteinStratonovich)}
NOISE = ('diagonal', 'scalar', 'additive', 'general')


class Path:
    """An arbitrary Brownian path; remembers the intervals asked for."""
    def __init__(self, H, shape):
        self.H, self.shape, self.asked = H, shape, []

    def at(self, t):
        n = 1
        for s in self.shape:
            n *= s
        return torch.stack([self.H.ufs(f'W{i}', [t.reshape(())], -2, 2) for i in range(n)]).reshape(self.shape)

    def __call__(self, ta, tb=None):
        self.asked.append((ta, tb))
        return self.at(tb) - self.at(ta)


def scheme(H, name, f, g, t, x, dt, dW):
    """The published one-step schemes (Maruyama; Euler-Heun; derivative-free Milstein of Kloeden and Platen)."""
    if name == 'euler':
        return x + f(t, x) * dt + g(t, x) * dW
    if name == 'eulerHeun':
        xp = x + g(t, x) * dW
        return x + f(t, x) * dt + (g(t, x) + g(t + dt, xp)) * dW / 2
    r = torch.sqrt(dt)
    xp = x + f(t, x) * dt + g(t, x) * r
    v = dW * dW - dt if name == 'milstein_ito' else dW * dW
    return x + f(t, x) * dt + g(t, x) * dW + (g(t, xp) - g(t, x)) * v / (2 * r)


def build(H, name, shape, noise, time=(True, True)):
    F, G = H.uf('f', shape[-1]), H.uf('g', shape[-1])
    z = H.const(0.)
    f = (lambda t, x: F(t, x)) if time[0] else (lambda x: F(z, x))
    g = (lambda t, x: G(t, x)) if time[1] else (lambda x: G(z, x))
    return f, g, (lambda t, x: F(t if time[0] else z, x)), (lambda t, x: G(t if time[1] else z, x)), SDEFunc(f=f, g=g, noise_type=noise, sde_type=SOLVERS[name][0])


def step(H, name, shape, noise='diagonal', time=(True, True), how='str'):
    f, g, rf, rg, sde = build(H, name, shape, noise, time)
    x = H.tensor('x', shape, -2, 2)
    t, dt = H.scalar('t', -2, 2), H.scalar('dt', 0.01, 2)
    bm = Path(H, shape if noise != 'scalar' else (shape[0], 1))
    s = sde_str_to_solver(name, sde, bm, torch.float64) if how == 'str' else SOLVERS[name][1](sde, bm)
    s.sync_device_dtype(x, torch.stack([t, t + dt]))
    _, y, _ = s.step(x, t, dt)
    dW = bm.at(t + dt) - bm.at(t)
    H.check(len(bm.asked) >= 1, 'no Brownian increment used')
    for a, b in bm.asked:
        H.check_eq(a, t, 'start of the increment')
        H.check_eq(b, t + dt, 'end of the increment')
    H.check_shape(y, shape, 'new state')
    H.check_eq(y, scheme(H, name, rf, rg, t, x, dt, dW), f'step of {name}')


for name in SOLVERS:
    for shape in ((1, 1), (1, 2), (2, 1), (2, 2)):
        SUITE.case(f'{name}-{shape[0]}x{shape[1]}', bounds='any drift and diffusion of time and state, any path, any positive step')(lambda H, n=name, s=shape: step(H, n, s))
    for noise in NOISE:
        SUITE.case(f'{name}-{noise}', bounds='noise type ' + noise)(lambda H, n=name, q=noise: step(H, n, (1, 2), q, how='class'))
    for time in ((False, False), (True, False), (False, True)):
        SUITE.case(f'{name}-time{int(time[0])}{int(time[1])}', bounds='fields with or without a time argument')(lambda H, n=name, q=time: step(H, n, (1, 1), time=q))


def zero(H, name):
    """Without diffusion the step is the explicit Euler step."""
    F = H.uf('f', 2)
    sde = SDEFunc(f=lambda t, x: F(t, x), g=lambda t, x: 0 * x, noise_type='diagonal', sde_type=SOLVERS[name][0])
    x, t, dt = H.tensor('x', (2, 2), -2, 2), H.scalar('t', -2, 2), H.scalar('dt', 0.01, 2)
    s = sde_str_to_solver(name, sde, Path(H, (2, 2)), torch.float64)
    H.check_eq(s.step(x, t, dt)[1], x + dt * F(t, x), 'step without diffusion')


def linear(H, name):
    """On dx = a x dt + b x dW: order-one expansions in exact arithmetic."""
    a, b = H.scalar('a', -2, 2), H.scalar('b', -2, 2)
    sde = SDEFunc(f=lambda t, x: a * x, g=lambda t, x: b * x, noise_type='diagonal', sde_type=SOLVERS[name][0])
    x, t, dt = H.tensor('x', (1, 1), -2, 2), H.scalar('t', -2, 2), H.scalar('dt', 0.01, 2)
    bm = Path(H, (1, 1))
    y = sde_str_to_solver(name, sde, bm, torch.float64).step(x, t, dt)[1]
    w = bm.at(t + dt) - bm.at(t)
    if name == 'euler':
        want = x * (1 + a * dt + b * w)
    elif name == 'eulerHeun':
        want = x * (1 + a * dt + b * w + b * b * w * w / 2)
    else:
        v = w * w - dt if name == 'milstein_ito' else w * w
        # the difference quotient of the derivative-free scheme: b (x' - x) / sqrt(dt) = b (b + a sqrt(dt)) x
        want = x * (1 + a * dt + b * w + b * (b + a * torch.sqrt(dt)) * v / 2)
    H.check_eq(y, want, f'{name} on geometric Brownian motion')


for name in SOLVERS:
    SUITE.case(f'zero-{name}', bounds='any drift')(lambda H, n=name: zero(H, n))
    SUITE.case(f'linear-{name}', bounds='geometric Brownian motion, any coefficients')(lambda H, n=name: linear(H, n))


def types(H, name):
    """Every combination of calculus and noise type."""
    cal = SOLVERS[name][0]
    st = ['ito', 'stratonovich', None, 'Ito'][H.choose('sde_type', 4)]
    nt = ['diagonal', 'scalar', 'additive', 'general', None, 'white', 'Diagonal'][H.choose('noise_type', 7)]
    sde = SDEFunc(f=lambda t, x: x, g=lambda t, x: x, noise_type=nt, sde_type=st)
    bm = Path(H, (1, 1))
    ways = [lambda: sde_str_to_solver(name, sde, bm, torch.float64), lambda: SOLVERS[name][1](sde, bm),
            lambda: sdeint(sde, H.const([[1.]]), H.const([0., 1.]), name, bm)]
    way = ways[H.choose('way', 3)]
    if st == cal and nt in NOISE:
        way()
    else:
        expect_raise(H, way, f'{name} accepts an SDE of type {st} with {nt} noise', ValueError)


for name in SOLVERS:
    SUITE.case(f'types-{name}', bounds='4 calculus names, 7 noise names, 3 entry points')(lambda H, n=name: types(H, n))


def model_types(H):
    name = list(SOLVERS)[H.choose('solver', 4)]
    st = ['ito', 'stratonovich'][H.choose('sde_type', 2)]
    nt = ['diagonal', 'scalar', 'additive', 'general', 'white'][H.choose('noise_type', 5)]
    x = H.tensor('x', (1, 1), -2, 2)
    m = NeuralSDE(lambda t, x: x, lambda t, x: 0 * x, solver=name, sde_type=st, noise_type=nt, bm=Path(H, (1, 1)))
    span = torch.stack(increasing(H, 't', 2, gap=0.01))
    if st == SOLVERS[name][0] and nt in NOISE:
        H.check_eq(m(x, span)[1][1], x + (span[1] - span[0]) * x, 'state')
    else:
        expect_raise(H, lambda: m(x, span), f'NeuralSDE with {name} accepts an SDE of type {st} with {nt} noise', ValueError)


SUITE.case('types-model', bounds='all combinations through NeuralSDE')(model_types)


def history(H, name):
    """Two steppers with their own paths, stepping alternately; results returned earlier stay as they were."""
    keeps, ss = [], []
    for i, shape in enumerate([(1, 2), (2, 1)]):
        F, G = H.uf(f'f{i}', shape[-1]), H.uf(f'g{i}', shape[-1])
        sde = SDEFunc(f=(lambda t, x, F=F: F(t, x)), g=(lambda t, x, G=G: G(t, x)), noise_type='diagonal', sde_type=SOLVERS[name][0])
        P = [Path(H, shape)]
        P[0].at = (lambda t, i=i, shape=shape: torch.stack([H.ufs(f'W{i}_{j}', [t.reshape(())], -2, 2) for j in range(2)]).reshape(shape))
        ss.append((sde_str_to_solver(name, sde, P[0], torch.float64), F, G, P[0], H.tensor(f'x{i}', shape, -2, 2)))
    for i in (0, 1, 0):
        s, F, G, bm, x = ss[i]
        k = len(keeps)
        t, dt = H.scalar(f't{k}', -2, 2), H.scalar(f'dt{k}', 0.01, 2)
        y = s.step(x, t, dt)[1]
        H.check_eq(y, scheme(H, name, lambda t, x: F(t, x), lambda t, x: G(t, x), t, x, dt, bm.at(t + dt) - bm.at(t)), f'step {k}')
        keeps.append((y, y.clone()))
        ss[i] = (s, F, G, bm, y)
    for a, b in keeps:
        H.check_eq(a, b, 'a state returned earlier changed')


def alias(H, name, kind):
    """Drift and diffusion that return their argument, a view of it or one fixed tensor; inputs stay as they were."""
    shape = (1, 2)
    x = H.tensor('x', shape, -2, 2)
    x0 = x.clone()
    t, dt = H.scalar('t', -2, 2), H.scalar('dt', 0.01, 2)
    f, v, same = alias_field(H, kind, shape)
    g, w, same2 = f, v, same
    sde = SDEFunc(f=lambda t, x: f(t, x), g=lambda t, x: g(t, x), noise_type='diagonal', sde_type=SOLVERS[name][0])
    W = H.tensor('w', shape, -2, 2)
    W0 = W.clone()
    s = sde_str_to_solver(name, sde, lambda a, b: W, torch.float64)
    y = s.step(x, t, dt)[1]
    H.check_eq(y, scheme(H, name, v, w, t, x0, dt, W0), f'step of {name} with {kind} fields')
    H.check_eq(x, x0, 'the step modified its state')
    H.check_eq(W, W0, 'the step modified the increment')
    same(name)


for name in SOLVERS:
    SUITE.case(f'history-{name}', bounds='two steppers, three steps, any fields and paths')(lambda H, n=name: history(H, n))
    for kind in ALIAS_FIELDS:
        SUITE.case(f'alias-{name}-{kind}', bounds='one step')(lambda H, n=name, k=kind: alias(H, n, k))
    for shape in ((2,), (2, 1, 2), (1, 3)):
        SUITE.case(f'{name}-{"x".join(map(str, shape))}', bounds=f'any drift and diffusion, any path, state {shape}')(lambda H, n=name, s=shape: step(H, n, s))


def related_case(H, name, kind):
    """A step right after one that shares some of its arguments."""
    F, G = H.uf('f', 2), H.uf('g', 2)
    sde = SDEFunc(f=lambda t, x: F(t, x), g=lambda t, x: G(t, x), noise_type='diagonal', sde_type=SOLVERS[name][0])
    bm = Path(H, (1, 2))
    s = sde_str_to_solver(name, sde, bm, torch.float64)
    x, t, dt = H.tensor('x', (1, 2), -2, 2), H.scalar('t', -2, 2), H.scalar('dt', 0.01, 2)
    out = s.step(x, t, dt)[1]
    _, x2, t2, dt2 = related(H, kind, None, None, x, t, dt, out)
    H.assume(dt2 > 0)
    keep, keep2 = out.clone(), x2.clone()
    y = s.step(x2, t2, dt2)[1]
    H.check_eq(y, scheme(H, name, lambda t, x: F(t, x), lambda t, x: G(t, x), t2, keep2, dt2, bm.at(t2 + dt2) - bm.at(t2)), f'step after one of the same {kind}')
    H.check_eq(out, keep, 'the state returned earlier changed')
    H.check_eq(x2, keep2, 'the input state changed')


for name in SOLVERS:
    for kind in RELATED:
        if kind != 'otherfield':
            SUITE.case(f'{name}-related-{kind}', bounds='two steps of one stepper that share arguments, any drift, diffusion and path')(lambda H, n=name, k=kind: related_case(H, n, k))


# larger structures
for name in SOLVERS:
    SUITE.case(f'{name}-17x2', bounds='any drift and diffusion, any path, state (17,2)')(lambda H, n=name: step(H, n, (17, 2)))

contexts(SUITE, r'.*-(1x2|diagonal|additive|general)|.*related-(samestate|continued|again)|zero-.*')
