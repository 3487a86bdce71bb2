"""C24: augmentation, depth and data-control layers place their inputs correctly."""
from symtorch.runner import Suite
from torchdyn.core import NeuralODE, ODEProblem
from torchdyn.core.defunc import DEFunc, DEFuncBase
from torchdyn.nn import Augmenter, DepthCat, DataControl
from torchdyn.models import CNF
from .common import *

SUITE = Suite('C24', assumptions=['networks between the layers act on each sample separately'])


class Net(nn.Module):
    """Any network of a row, nout outputs."""
    def __init__(self, H, nout, name='net'):
        super().__init__()
        self.u = H.uf(name, nout, time=False)

    def forward(self, x):
        return self.u(None, x)


def unet(H, nout, rows, name='net'):
    return torch.stack([torch.stack([H.ufs(f'{name}_{i}', list(r)) for i in range(nout)]) for r in rows])


SHAPES = {'1x1': (1, 1), '2x3': (2, 3), '3x2': (3, 2), '2x1x2': (2, 1, 2), '1x2x2x1': (1, 2, 2, 1), '3': (3,)}


def augment(H, shape, idx, dims, order):
    x = H.tensor('x', shape, -2, 2)
    before = x.clone()
    kw = {} if order is None else dict(order=order)
    out = Augmenter(augment_idx=idx, augment_dims=dims, **kw)(x)
    first = order in ('first', None)
    want = list(shape)
    want[idx] += dims
    H.check_shape(out, tuple(want), 'augmented data')
    n = shape[idx]
    H.check_eq(out.narrow(idx, dims if first else 0, n), before, 'the data is changed')
    z = out.narrow(idx, 0 if first else n, dims)
    H.check_eq(z, torch.zeros_like(z), 'augmented dimensions are not zero')
    H.check_eq(x, before, 'the input is modified')
    H.check(out.dtype == x.dtype, 'data type')


for nm, sh in SHAPES.items():
    for idx in range(len(sh)):
        for order in ('first', 'last'):
            for dims in (1, 2, 5):
                SUITE.case(f'zeros-{nm}-{idx}-{order}-{dims}', bounds=f'data of shape {sh}')(lambda H, a=(sh, idx, dims, order): augment(H, *a))
    SUITE.case(f'zeros-{nm}-neg', bounds='negative dimension')(lambda H, s=sh: augment(H, s, -1, 2, 'last'))
SUITE.case('zeros-default', bounds='order left out')(lambda H: augment(H, (2, 2), 1, 3, None))
SUITE.case('zeros-0', bounds='no augmented dimensions')(lambda H: augment(H, (2, 2), 1, 0, 'first'))


def augment_func(H, batch, d, a, order, module=True):
    x = H.tensor('x', (batch, d), -2, 2)
    before = x.clone()
    net = Net(H, a)
    out = Augmenter(augment_idx=1, augment_dims=7, augment_func=net if module else net.forward, order=order)(x)
    w = unet(H, a, before)
    H.check_shape(out, (batch, d + a), 'augmented data')
    H.check_eq(out, torch.cat([w, before] if order == 'first' else [before, w], 1), 'augmented data')
    H.check_eq(x, before, 'the input is modified')


for b, d, a in ((1, 1, 1), (2, 2, 1), (2, 1, 3), (3, 2, 2)):
    for order in ('first', 'last'):
        for mod in (True, False):
            SUITE.case(f'func-{b}-{d}-{a}-{order}{"" if mod else "-plain"}', bounds='any augmentation function')(lambda H, k=(b, d, a, order, mod): augment_func(H, *k))


@SUITE.case('func-gradient', bounds='linear augmentation, its parameters and the data receive gradients')
def _(H):
    x = H.tensor('x', (2, 2), -2, 2).requires_grad_(True)
    lin = nn.Linear(2, 1).double()
    lin.weight, lin.bias = nn.Parameter(H.tensor('w', (1, 2), -2, 2)), nn.Parameter(H.tensor('b', (1,), -2, 2))
    g = H.tensor('g', (2, 3), -2, 2)
    gw, gb, gx = torch.autograd.grad((g * Augmenter(augment_func=lin, order='first')(x)).sum(), [lin.weight, lin.bias, x])
    H.check_eq(gw[0], (g[:, :1] * x).sum(0).detach(), 'gradient of the weight')
    H.check_eq(gb[0], g[:, 0].sum(), 'gradient of the bias')
    H.check_eq(gx, (g[:, 1:] + g[:, :1] * lin.weight).detach(), 'gradient of the data')


def depthcat(H, shape, idx, tshape):
    x = H.tensor('x', shape, -2, 2)
    before = x.clone()
    m = DepthCat(idx)
    for k in range(2):
        t = H.tensor(f't{k}', tshape, -2, 2)
        m.t = t
        out = m(x)
        want = list(shape)
        want[idx] += 1
        H.check_shape(out, tuple(want), 'output')
        n = shape[idx]
        H.check_eq(out.narrow(idx, 0, n), before, 'the data is changed')
        c = out.narrow(idx, n, 1)
        H.check_eq(c, t.reshape(()) * torch.ones_like(c), 'appended depth')
    H.check_eq(x, before, 'the input is modified')


for nm, sh in SHAPES.items():
    for idx in range(len(sh)):
        for ts in ((), (1,)):
            SUITE.case(f'depth-{nm}-{idx}-{len(ts)}', bounds=f'data of shape {sh}, any time')(lambda H, a=(sh, idx, ts): depthcat(H, *a))


# ---------------------------------------------------------------- within models
class Scale(nn.Module):
    """Has two depth layers at different levels of nesting."""
    def __init__(self, H):
        super().__init__()
        self.inner = nn.Sequential(DepthCat(1), Net(H, 2, 'a'))
        self.out = nn.ModuleList([DepthCat(1), Net(H, 2, 'b')])

    def forward(self, x):
        return self.out[1](self.out[0](self.inner(x)))


def rk(H, solver, g, ts, x):
    out = [x]
    for k in range(len(ts) - 1):
        out.append(rk_step(H, solver, g, ts[k], out[-1], ts[k + 1] - ts[k]))
    return torch.stack(out)


def nested(H, solver, nt, api, rev=False):
    m = Scale(H)
    x = H.tensor('x', (2, 2), -2, 2)
    ts = increasing(H, 't', nt, -2, 2, gap=0.05)
    ts = ts[::-1] if rev else ts
    prob = NeuralODE(m, solver=solver) if api == 'node' else ODEProblem(DEFunc(DEFuncBase(m, has_time_arg=False)), solver)
    sol = prob(x.clone(), torch.stack(ts))[1].detach()

    def f(t, y):
        a = unet(H, 2, [list(r) + [t] for r in y], 'a')
        return unet(H, 2, [list(r) + [t] for r in a], 'b')
    H.check_eq(sol, rk(H, solver, f, ts, x), 'trajectory')


for api in ('node', 'problem'):
    SUITE.case(f'nested-euler-{api}', bounds='two depth layers, 3 symbolic times')(lambda H, a=api: nested(H, 'euler', 3, a))
    SUITE.case(f'nested-midpoint-{api}', bounds='two depth layers, 2 symbolic times')(lambda H, a=api: nested(H, 'midpoint', 2, a))
    SUITE.case(f'nested-rev-{api}', bounds='two depth layers, 3 decreasing times')(lambda H, a=api: nested(H, 'euler', 3, a, True))
SUITE.case('nested-rk4', bounds='two depth layers, one step')(lambda H: nested(H, 'rk4', 2, 'node'))


@SUITE.case('field-depth', bounds='the wrapped field called at any two times')
def _(H):
    m = nn.Sequential(DepthCat(1), Net(H, 2))
    f = DEFunc(DEFuncBase(m, has_time_arg=False))
    for k in range(2):
        x, t = H.tensor(f'x{k}', (2, 2), -2, 2), H.scalar(f't{k}', -2, 2)
        H.check_eq(f(t, x), unet(H, 2, [list(r) + [t] for r in x]), 'field')


# ---------------------------------------------------------------- data control
def control_model(H, d, depth=True, where=1):
    layers = [DataControl()]
    if depth:
        layers = layers + [DepthCat(1)]
    return nn.Sequential(*layers, Net(H, d))


def control(H, solver, nt, d, batch, entry='forward', sens='autograd', calls=2, depth=False, aug=False, rev=False):
    ode = NeuralODE(control_model(H, d, depth), solver=solver, sensitivity=sens, solver_adjoint=solver)
    for c in range(calls):
        x = H.tensor(f'x{c}', (batch, d), -2, 2)
        ts = increasing(H, f't{c}', nt, -2, 2, gap=0.05)
        ts = ts[::-1] if rev else ts
        span = torch.stack(ts)
        if aug:
            x = torch.cat([torch.zeros_like(x[:, :1]), x[:, 1:]], 1)
            ode.t_span = span
            sol = nn.Sequential(Augmenter(1, 1, order='first'), ode)(x[:, 1:])[1]
        elif entry == 'forward':
            sol = ode(x.clone(), span)[1]
        else:
            sol = ode.trajectory(x.clone(), span)

        def f(t, y):
            return unet(H, d, [list(a) + list(b) + ([t] if depth else []) for a, b in zip(y, x)])
        H.check_eq(sol.detach(), rk(H, solver, f, ts, x), f'trajectory of call {c}')


for entry in ('forward', 'trajectory'):
    for d, b in ((1, 1), (1, 2), (2, 1)):
        SUITE.case(f'control-{entry}-{d}x{b}', bounds='two integrations, 3 symbolic times')(lambda H, e=entry, d=d, b=b: control(H, 'euler', 3, d, b, e))
for sens in ('adjoint', 'interpolated_adjoint'):
    SUITE.case(f'control-{sens}', bounds='two integrations, 3 symbolic times')(lambda H, s=sens: control(H, 'euler', 3, 2, 1, sens=s))
SUITE.case('control-midpoint', bounds='2 symbolic times')(lambda H: control(H, 'midpoint', 2, 1, 2))
SUITE.case('control-depth', bounds='control and depth, 3 symbolic times')(lambda H: control(H, 'euler', 3, 1, 2, depth=True))
SUITE.case('control-rev', bounds='control and depth, 3 decreasing times')(lambda H: control(H, 'euler', 3, 1, 1, depth=True, rev=True))
SUITE.case('control-augmented', bounds='the control is the augmented initial condition')(lambda H: control(H, 'euler', 3, 2, 2, aug=True))


class Two(nn.Module):
    """Control inputs at two points of the network."""
    def __init__(self, H):
        super().__init__()
        self.a = nn.Sequential(DataControl(), Net(H, 1, 'a'))
        self.b = nn.Sequential(DataControl(), Net(H, 1, 'b'))

    def forward(self, x):
        return self.b(self.a(x))


@SUITE.case('control-two', bounds='two control layers, two integrations')
def _(H):
    ode = NeuralODE(Two(H), solver='euler')
    for c in range(2):
        x = H.tensor(f'x{c}', (2, 1), -2, 2)
        ts = increasing(H, f't{c}', 3, -2, 2, gap=0.05)
        sol = ode(x.clone(), torch.stack(ts))[1]

        def f(t, y):
            a = unet(H, 1, [list(r) + list(q) for r, q in zip(y, x)], 'a')
            return unet(H, 1, [list(r) + list(q) for r, q in zip(a, x)], 'b')
        H.check_eq(sol.detach(), rk(H, 'euler', f, ts, x), f'trajectory of call {c}')


@SUITE.case('control-loss', bounds='integral loss carried in the first dimension: the control is the data only')
def _(H):
    ode = NeuralODE(control_model(H, 2, False), solver='euler', integral_loss=lambda t, x: (x ** 2).sum(-1))
    x = H.tensor('x', (2, 3), -2, 2)
    ts = increasing(H, 't', 3, -2, 2, gap=0.05)
    sol = ode(x.clone(), torch.stack(ts))[1]

    def f(t, y):
        return torch.cat([(y[:, 1:] ** 2).sum(1, keepdim=True), unet(H, 2, [list(a[1:]) + list(b[1:]) for a, b in zip(y, x)])], 1)
    H.check_eq(sol.detach(), rk(H, 'euler', f, ts, x), 'trajectory')


@SUITE.case('control-cnf', bounds='flow with divergence in the first dimension: the control is the data only')
def _(H):
    ode = NeuralODE(CNF(control_model(H, 1, True)), solver='euler')
    x = H.tensor('x', (2, 2), -2, 2)
    ts = increasing(H, 't', 3, -2, 2, gap=0.05)
    sol = ode(x.clone(), torch.stack(ts))[1]

    def f(t, y):
        rows = [[a[1], b[1], t] for a, b in zip(y, x)]
        return torch.stack([torch.stack([-H.ufs('net_0.d0', r), H.ufs('net_0', r)]) for r in rows])
    H.check_eq(sol.detach(), rk(H, 'euler', f, ts, x), 'trajectory')


@SUITE.case('control-order2', bounds='second-order model: the control is positions and velocities')
def _(H):
    ode = NeuralODE(control_model(H, 1, False), solver='euler', order=2)
    x = H.tensor('x', (2, 2), -2, 2)
    ts = increasing(H, 't', 3, -2, 2, gap=0.05)
    sol = ode(x.clone(), torch.stack(ts))[1]

    def f(t, y):
        return torch.cat([y[:, 1:], unet(H, 1, [list(a) + list(b) for a, b in zip(y, x)])], 1)
    H.check_eq(sol.detach(), rk(H, 'euler', f, ts, x), 'trajectory')


@SUITE.case('control-plain', bounds='the layer itself')
def _(H):
    m = DataControl()
    x, c = H.tensor('x', (2, 2), -2, 2), H.tensor('c', (2, 3), -2, 2)
    m._control = c
    H.check_eq(m(x), torch.cat([x, c], 1), 'output')


def control_gradient(H, sens):
    """The control is data: it does not change while x is integrated in place elsewhere."""
    w = nn.Parameter(H.tensor('w', (2,), -2, 2))

    class Lin(nn.Module):
        def __init__(self):
            super().__init__()
            self.w = w

        def forward(self, z):
            return self.w[0] * z[:, :1] + self.w[1] * z[:, 1:2]
    ode = NeuralODE(nn.Sequential(DataControl(), Lin()), solver='euler', sensitivity=sens, solver_adjoint='euler')
    x = H.tensor('x', (2, 1), -2, 2)
    ts = increasing(H, 't', 2, -1, 1, gap=0.05)
    sol = ode(x.clone(), torch.stack(ts))[1]
    g = H.tensor('g', (2, 1), -2, 2)
    gw, = torch.autograd.grad((g * sol[-1]).sum(), [w])
    dt = ts[1] - ts[0]
    H.check_eq(sol[-1].detach(), x + dt * (w[0] + w[1]).detach() * x, 'final state')
    at = x if sens == 'autograd' else x + dt * (w[0] + w[1]).detach() * x
    H.check_eq(gw[0], dt * (g * at).sum(), 'gradient of the state weight')
    H.check_eq(gw[1], dt * (g * x).sum(), 'gradient of the control weight')


for sens in ('autograd', 'adjoint'):
    SUITE.case(f'control-gradient-{sens}', bounds='linear field, one step')(lambda H, s=sens: control_gradient(H, s))


@SUITE.case('control-mixed', bounds='four integrations of other batch sizes through forward and trajectory')
def _(H):
    ode = NeuralODE(control_model(H, 1, True), solver='euler')
    keeps = []
    for c, (batch, entry) in enumerate([(1, 'forward'), (3, 'trajectory'), (2, 'forward'), (1, 'trajectory')]):
        x = H.tensor(f'x{c}', (batch, 1), -2, 2)
        x0 = x.clone()
        ts = increasing(H, f't{c}', 3, -2, 2, gap=0.05)
        span = torch.stack(ts)
        sol = ode(x, span)[1] if entry == 'forward' else ode.trajectory(x, span)

        def f(t, y):
            return unet(H, 1, [list(a) + list(b) + [t] for a, b in zip(y, x0)])
        H.check_eq(sol.detach(), rk(H, 'euler', f, ts, x0), f'trajectory of call {c}')
        H.check_eq(x, x0, 'the data was modified')
        keeps.append((sol, sol.clone()))
    for a, b in keeps:
        H.check_eq(a.detach(), b.detach(), 'a trajectory returned earlier changed')


def augment_history(H, order):
    """One augmentation layer on several inputs."""
    a = Augmenter(1, 2, order=order)
    u = Augmenter(1, augment_func=Net(H, 2, 'a'), order=order)
    for i, shape in enumerate([(2, 1), (1, 3), (2, 1)]):
        x = H.tensor(f'x{i}', shape, -2, 2)
        x0 = x.clone()
        z = torch.zeros(shape[0], 2, dtype=torch.float64)
        H.check_eq(a(x), torch.cat([z, x0] if order == 'first' else [x0, z], 1), f'zeros, call {i}')
        n = unet(H, 2, [list(r) for r in x0], 'a')
        H.check_eq(u(x).detach(), torch.cat([n, x0] if order == 'first' else [x0, n], 1), f'function, call {i}')
        H.check_eq(x, x0, 'the input was modified')


def depth_history(H):
    m = DepthCat(1)
    for i, shape in enumerate([(2, 1), (1, 2), (2, 1)]):
        x, t = H.tensor(f'x{i}', shape, -2, 2), H.scalar(f't{i}', -2, 2)
        m.t = t
        H.check_eq(m(x), torch.cat([x, t * torch.ones(shape[0], 1, dtype=torch.float64)], 1), f'call {i}')


for o in ('first', 'last'):
    SUITE.case(f'augment-history-{o}', bounds='one layer on three inputs of other shapes')(lambda H, o=o: augment_history(H, o))
SUITE.case('depth-history', bounds='one layer on three inputs of other shapes and times')(depth_history)


@SUITE.case('defaults', bounds='layers built without optional arguments')
def _(H):
    for shape in ((2, 1), (1, 2, 2)):
        x, t = H.tensor('x' + str(len(shape)), shape, -2, 2), H.scalar('t' + str(len(shape)), -2, 2)
        m = DepthCat()
        m.t = t
        H.check_eq(m(x), torch.cat([x, t * torch.ones_like(x[:, :1])], 1), 'DepthCat(): time appended along dimension 1')
        z = torch.zeros_like(x[:, :1])
        H.check_eq(Augmenter()(x), torch.cat([z] * 5 + [x], 1), 'Augmenter(): five zeros in front along dimension 1')
        H.check_eq(Augmenter(augment_dims=2)(x), torch.cat([z] * 2 + [x], 1), 'Augmenter(augment_dims=2)')
        H.check_eq(Augmenter(order='last')(x), torch.cat([x] + [z] * 5, 1), "Augmenter(order='last')")
    x = H.tensor('x', (2, 2), -2, 2)
    u = unet(H, 3, [list(r) for r in x], 'net')
    H.check_eq(Augmenter(augment_func=Net(H, 3))(x).detach(), torch.cat([u, x], 1), 'Augmenter(augment_func=f)')

contexts(SUITE, r'zeros-2x3-.*-2|.*-neg')
