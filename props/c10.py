"""C10: hypersolvers add exactly the learned residual at the next order."""
from symtorch.runner import Suite
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.hyper import HyperEuler, HyperMidpoint, HyperRungeKutta4
from torchdyn.core import NeuralODE, ODEProblem
from .common import *

SUITE = Suite('C10')
CLS = {'euler': (HyperEuler, 1), 'midpoint': (HyperMidpoint, 2), 'rk4': (HyperRungeKutta4, 4)}


class Net(nn.Module):
    def __init__(self, g):
        super().__init__()
        self.g = g

    def forward(self, t, x):
        return self.g(t, x)


def mk(H, name, g, default=False):
    cls, p = CLS[name]
    return (cls(Net(g)) if default else cls(Net(g), dtype=torch.float64)), p


def step(H, name, shape, k1given, default):
    x = H.tensor('x', shape)
    t, dt = H.scalar('t', -3, 3), H.scalar('dt', -2, 2)
    f, g = H.uf('f', shape[-1]), H.uf('g', shape[-1])
    s, p = mk(H, name, g, default)
    x, _ = s.sync_device_dtype(x, torch.stack([t, t + 1]))
    k1 = H.tensor('k1', shape) if k1given else None
    r = s.step(f, x, t, dt, k1=k1)
    H.check(len(r) == 3, 'fixed steppers return three values')
    base = rk_step(H, name, f, t, x, dt, k1=k1)
    H.check_shape(r[1], shape, 'result')
    H.check_eq(r[1], base + dt ** (p + 1) * g(t, x), f'{name}: base step plus dt^{p + 1} times the residual')
    H.check(s.order == p and s.stepping_class == 'fixed', 'order and stepping class')
    # a zero network is the base solver
    z, _ = mk(H, name, lambda t, x: 0 * x, default)
    z.sync_device_dtype(x, torch.stack([t, t + 1]))
    H.check_eq(z.step(f, x, t, dt, k1=k1)[1], base, f'{name}: zero network')


for name in CLS:
    for shape, k1, default in [((1, 1), False, False), ((2, 2), False, True), ((1, 2), True, False), ((2, 1, 2), False, False), ((3,), True, True)]:
        SUITE.case(f'step-{name}-{"x".join(map(str, shape))}{"-k1" if k1 else ""}{"-default" if default else ""}', bounds=f'one step of either sign, any field and network, state {shape}')(
            lambda H, n=name, s=shape, k=k1, d=default: step(H, n, s, k, d))


def grid(H, name, n, api, rev=False):
    shape = (1, 2)
    x = H.tensor('x', shape)
    ts = increasing(H, 't', n, gap=0.01)
    if rev:
        ts = ts[::-1]
    f, g = H.uf('f', 2), H.uf('g', 2)
    s, p = mk(H, name, g)
    span = torch.stack(ts)
    if api == 'odeint':
        te, sol = odeint(f, x, span, s)
    elif api == 'problem':
        te, sol = ODEProblem(f, s)(x, span)
    else:
        te, sol = NeuralODE(f, solver=s)(x, span)
    H.check_eq(te, span, 'times')
    y = x
    for k in range(n - 1):
        dt = ts[k + 1] - ts[k]
        y = rk_step(H, name, f, ts[k], y, dt) + dt ** (p + 1) * g(ts[k], y)
        H.check_eq(sol[k + 1], y, f'{name}: state {k + 1}')


for name in CLS:
    for api in ('odeint', 'problem', 'model'):
        SUITE.case(f'grid-{name}-{api}', bounds='3 symbolic times (any spacing), any field and network')(lambda H, n=name, a=api: grid(H, n, 3, a))
    SUITE.case(f'grid-{name}-reversed', bounds='3 decreasing times')(lambda H, n=name: grid(H, n, 3, 'odeint', True))


def orders(H, name, use_k1=False):
    """Terms up to the order of the base method are those of the exact solution, whatever the network."""
    cls, p = CLS[name]
    ts_ = trees(p)
    coefs = [H.scalar(f'c{i}', -1, 1) for i in range(len(ts_))]
    f = tree_field(H, ts_, coefs)
    g = H.uf('g', len(ts_))
    dt = H.scalar('dt', -1, 1)
    x = H.const(0.) * torch.ones(1, len(ts_), dtype=torch.float64)
    s, _ = mk(H, name, g)
    t = H.scalar('t', -1, 1)
    r = s.step(f, x, t, dt)[1] - dt ** (p + 1) * g(t, x)
    ex = tree_exact(H, ts_, coefs, dt)
    for i in range(len(ts_)):
        H.check_eq(r[0, i], ex[i], f'{name}: term {i} of order {ts_[i][0]}')


for name in CLS:
    SUITE.case(f'orders-{name}', bounds='elementary-weight system up to the base order, any network')(lambda H, n=name: orders(H, n))


def history(H, name):
    """Two hypersolvers with different networks, stepping alternately, do not influence each other."""
    p = CLS[name][1]
    g, h = H.uf('g', 2), H.uf('h', 1)
    f, e = H.uf('f', 2), H.uf('e', 1)
    a, _ = mk(H, name, g)
    b, _ = mk(H, name, h)
    x, y = H.tensor('x', (1, 2)), H.tensor('y', (3, 1))
    t, dt, u, du = H.scalar('t', -3, 3), H.scalar('dt', -2, 2), H.scalar('u', -3, 3), H.scalar('du', -2, 2)
    a.sync_device_dtype(x, torch.stack([t, t + 1]))
    b.sync_device_dtype(y, torch.stack([u, u + 1]))
    r1 = a.step(f, x, t, dt)[1]
    k1 = r1.clone()
    r2 = b.step(e, y, u, du)[1]
    H.check_eq(r2, rk_step(H, name, e, u, y, du) + du ** (p + 1) * h(u, y), 'step of the second hypersolver')
    r3 = a.step(f, r1, t + dt, du)[1]
    H.check_eq(r3, rk_step(H, name, f, t + dt, r1, du) + du ** (p + 1) * g(t + dt, r1), 'second step of the first hypersolver')
    # exchanging the network of a solver takes effect at once
    a.hypernet = Net(lambda t, x: 3 * g(t, x))
    r4 = a.step(f, x, t, dt)[1]
    H.check_eq(r4, rk_step(H, name, f, t, x, dt) + 3 * dt ** (p + 1) * g(t, x), 'step after replacing the network')
    H.check_eq(r1, k1, 'a result returned earlier changed')


def alias(H, name, kind):
    p = CLS[name][1]
    shape = (1, 2)
    x = H.tensor('x', shape)
    x0 = x.clone()
    t, dt = H.scalar('t', -3, 3), H.scalar('dt', -2, 2)
    f, v, same = alias_field(H, kind, shape)
    s, _ = mk(H, name, lambda t, x: f(t, x))
    s.sync_device_dtype(x, torch.stack([t, t + 1]))
    r = s.step(f, x, t, dt)[1]
    H.check_eq(r, rk_step(H, name, v, t, x0, dt) + dt ** (p + 1) * v(t, x0), f'{name}: {kind} network and field')
    H.check_eq(x, x0, 'the step modified its state')
    same(name)


def training(H, name, api):
    """The network receives the gradient of the whole trajectory (it is trained through the solver)."""
    p = CLS[name][1]
    w = H.tensor('w', (2,), -2, 2).requires_grad_(True)
    k = H.scalar('k', -2, 2)
    x = H.tensor('x', (1, 1), -2, 2)
    ts = increasing(H, 't', 3, -1, 1, gap=0.01)

    class N(nn.Module):
        def forward(self, t, x):
            return w[0] * x + w[1] * t
    f = lambda t, x: k * x
    s = CLS[name][0](N(), dtype=torch.float64)
    span = torch.stack(ts)
    if api == 'step':
        s.sync_device_dtype(x, span)
        y = s.step(f, x, ts[0], ts[1] - ts[0])[1]
    else:
        y = odeint(f, x, span, s)[1][-1]
    g = torch.autograd.grad(y.sum(), [w])[0]
    z = x
    for i in range(1 if api == 'step' else 2):
        dt = ts[i + 1] - ts[i]
        z = rk_step(H, name, lambda t, x: k * x, ts[i], z, dt) + dt ** (p + 1) * (w[0] * z + w[1] * ts[i])
    r = torch.autograd.grad(z.sum(), [w])[0]
    H.check_eq(g, r, 'gradient of the network')
    if api == 'step':
        d = ts[1] - ts[0]
        H.check_eq(g[0], d ** (p + 1) * x[0, 0], 'derivative of a step in the slope of the residual')
        H.check_eq(g[1], d ** (p + 1) * ts[0], 'derivative of a step in the time coefficient of the residual')


for name in CLS:
    SUITE.case(f'history-{name}', bounds='two solver objects, four steps, any fields and networks')(lambda H, n=name: history(H, n))
    for kind in ALIAS_FIELDS:
        SUITE.case(f'alias-{name}-{kind}', bounds='one step; field and network return their argument, a view of it or one fixed tensor')(lambda H, n=name, k=kind: alias(H, n, k))
    SUITE.case(f'train-{name}-step', bounds='one step, linear field, affine network with symbolic parameters')(lambda H, n=name: training(H, n, 'step'))
    if name != 'rk4':
        SUITE.case(f'train-{name}-odeint', bounds='two steps, linear field, affine network with symbolic parameters')(lambda H, n=name: training(H, n, 'odeint'))


def related_case(H, name, kind):
    """A step right after one that shares some of its arguments."""
    p = CLS[name][1]
    f, g, h = H.uf('f', 2), H.uf('g', 2), H.uf('h', 2)
    x, t, dt = H.tensor('x', (1, 2), -2, 2), H.scalar('t', -3, 3), H.scalar('dt', -2, 2)
    s, _ = mk(H, name, h)
    s.sync_device_dtype(x, torch.stack([t, t + 1]))
    out = s.step(f, x, t, dt)[1]
    f2, x2, t2, dt2 = related(H, kind, f, g, x, t, dt, out)
    keep, keep2 = out.clone(), x2.clone()
    got = s.step(f2, x2, t2, dt2)[1]
    H.check_eq(got, rk_step(H, name, f2, t2, keep2, dt2) + dt2 ** (p + 1) * h(t2, keep2), f'step after one of the same {kind}')
    H.check_eq(out, keep, 'the state returned earlier changed')
    H.check_eq(x2, keep2, 'the input state changed')


for nm in CLS:
    for kind in RELATED:
        SUITE.case(f'{nm}-related-{kind}', bounds='two steps of one hypersolver that share arguments, arbitrary field and network')(lambda H, nm=nm, kind=kind: related_case(H, nm, kind))


# larger structures
for name in CLS:
    SUITE.case(f'step-{name}-17x3', bounds='one step of either sign, any field and network, state (17,3)')(lambda H, n=name: step(H, n, (17, 3), False, False))
SUITE.case('grid-euler-odeint-12', bounds='12 symbolic times, any field and network')(lambda H: grid(H, 'euler', 12, 'odeint'))

contexts(SUITE, r'step-.*-(1x1|1x2-k1)|grid-.*-(odeint|model)|history-.*|orders-.*|alias-.*-view')
