"""C18: vector-field wrapping preserves the dynamics the user wrote."""
import functools
from symtorch.runner import Suite
from torchdyn.core import ODEProblem, NeuralODE
from torchdyn.core.defunc import DEFunc, DEFuncBase
from torchdyn.core.utils import standardize_vf_call_signature
from torchdyn.nn import DepthCat
from torchdyn.numerics import odeint
from .common import *

SUITE = Suite('C18')


class MX(nn.Module):
    def __init__(self, u):
        super().__init__()
        self.u = u

    def forward(self, x):
        return self.u(x)


class MTX(nn.Module):
    def __init__(self, u):
        super().__init__()
        self.u = u

    def forward(self, t, x):
        return self.u(t, x)


class MTXA(nn.Module):
    def __init__(self, u):
        super().__init__()
        self.u = u

    def forward(self, t, x, args={}):
        return self.u(t, x) + args.get('b', 0.)


class MTXK(nn.Module):
    def __init__(self, u):
        super().__init__()
        self.u = u

    def forward(self, t, x, **kw):
        return self.u(t, x) + kw['args'].get('b', 0.)


class Obj:
    """A callable that is neither a function nor a module."""
    def __init__(self, u):
        self.u = u

    def __call__(self, t, x):
        return self.u(t, x)

    def meth(self, t, x):
        return self.u(t, x)

    def methx(self, x):
        return self.u(x)


def fdef(u):
    def f(t, x):
        return u(t, x)
    return f


def fkw(u):
    def f(t, x, *, args={}):
        return u(t, x) + args.get('b', 0.)
    return f


def fextra(u):
    def f(t, x, gain=2.):
        return gain * u(t, x)
    return f


# name -> (constructor from u(t, x), uses time, uses args, factor)
KINDS = {
    'lambda-x': (lambda u, u0: (lambda x: u0(x)), False, False, 1),
    'lambda-tx': (lambda u, u0: (lambda t, x: u(t, x)), True, False, 1),
    'lambda-txa': (lambda u, u0: (lambda t, x, args={}: u(t, x) + args.get('b', 0.)), True, True, 1),
    'lambda-kw': (lambda u, u0: (lambda t, x, **k: u(t, x) + k['args'].get('b', 0.)), True, True, 1),
    'lambda-named': (lambda u, u0: (lambda state: u0(state)), False, False, 1),
    'def': (lambda u, u0: fdef(u), True, False, 1),
    'def-kwonly': (lambda u, u0: fkw(u), True, True, 1),
    'def-extra': (lambda u, u0: fextra(u), True, False, 2),
    'object': (lambda u, u0: Obj(u), True, False, 1),
    'method': (lambda u, u0: Obj(u).meth, True, False, 1),
    'method-x': (lambda u, u0: Obj(u0).methx, False, False, 1),
    'module-x': (lambda u, u0: MX(u0), False, False, 1),
    'module-tx': (lambda u, u0: MTX(u), True, False, 1),
    'module-txa': (lambda u, u0: MTXA(u), True, True, 1),
    'module-kw': (lambda u, u0: MTXK(u), True, True, 1),
    'sequential': (lambda u, u0: nn.Sequential(MX(u0)), False, False, 1),
}


def build(H, kind, dim, log=None):
    F = H.uf('f', dim)
    z = H.const(0.)

    def u(t, x):
        if log is not None:
            log.append((t, x))
        return F(t, x)

    def u0(x):
        if log is not None:
            log.append((None, x))
        return F(z, x)
    mk, time, args, fac = KINDS[kind]
    vf = mk(u, u0)
    ref = lambda t, x, b=0.: fac * F(t if time else z, x) + (b if args else 0.)
    return vf, ref


def wrap(H, kind, dim, how, order=1):
    """Direct calls of the wrapped field, twice."""
    vf, ref = build(H, kind, dim)
    uses = KINDS[kind][2]
    if how == 'std':
        w = standardize_vf_call_signature(vf)
    elif how == 'defunc':
        w = standardize_vf_call_signature(vf, order, defunc_wrap=True)
    elif how == 'problem':
        w = ODEProblem(vf, 'euler').vf
    else:
        w = NeuralODE(vf, 'euler').vf
    n0 = getattr(w, 'nfe', None)
    wrapped = isinstance(w, (DEFunc, DEFuncBase))
    for i in range(2):
        t, x = H.scalar(f't{i}', -2, 2), H.tensor(f'x{i}', (2, dim), -2, 2)
        b = H.tensor(f'b{i}', (2, dim), -2, 2)
        if i == 0 and not (isinstance(vf, nn.Module) and not wrapped and kind == 'module-kw'):
            H.check_eq(w(t, x), ref(t, x), f'wrapped field without args, call {i}')
        elif wrapped or uses:
            H.check_eq(w(t, x, args={'b': b}), ref(t, x, b), f'wrapped field with args, call {i}')
        else:
            H.check_eq(w(t, x), ref(t, x), f'wrapped field, call {i}')
    if wrapped:
        H.check(w.nfe == n0 + 2, 'number of evaluations')


for kind in KINDS:
    for how in ('std', 'defunc', 'problem', 'node'):
        SUITE.case(f'{how}-{kind}', bounds='any field, times, states, args; two calls')(lambda H, k=kind, h=how: wrap(H, k, 2, h))


def calls(H, kind, cls, solver, rev=False):
    """The field is evaluated at the stage times and states of the method, and every evaluation is counted."""
    log = []
    vf, ref = build(H, kind, 1, log)
    x = H.tensor('x', (2, 1), -2, 2)
    ts = increasing(H, 't', 3, -2, 2, gap=0.05)
    span = torch.stack(ts[::-1] if rev else ts)
    b = H.tensor('b', (2, 1), -2, 2)
    m = {'problem': ODEProblem, 'node': NeuralODE}[cls](vf, solver)
    n0 = getattr(m.vf, 'nfe', None)
    te, sol = m(x, span)
    y, n = x, 0
    stages = {'euler': 1, 'midpoint': 2, 'rk4': 4}[solver]
    for k in range(2):
        H.check_eq(sol[k], y, f'state {k}')
        y = rk_step(H, solver, ref, span[k], y, span[k + 1] - span[k])
    H.check_eq(sol[2], y, 'last state')
    H.check(len(log) == 2 * stages, f'{len(log)} evaluations for two steps')
    if n0 is not None:
        H.check(m.vf.nfe - n0 == len(log), 'evaluations are not counted')


for kind, cls, solver, rev in [('lambda-x', 'problem', 'midpoint', False), ('lambda-tx', 'node', 'rk4', False), ('def', 'problem', 'midpoint', True), ('def-kwonly', 'node', 'midpoint', False),
                               ('lambda-txa', 'problem', 'euler', False), ('module-x', 'node', 'midpoint', False), ('module-tx', 'node', 'midpoint', True), ('module-tx', 'problem', 'rk4', False),
                               ('module-txa', 'node', 'euler', False), ('sequential', 'problem', 'euler', False), ('sequential', 'node', 'midpoint', False), ('object', 'node', 'midpoint', False),
                               ('method', 'problem', 'midpoint', False), ('method-x', 'node', 'euler', True), ('lambda-kw', 'node', 'midpoint', False), ('def-extra', 'node', 'midpoint', False)]:
    SUITE.case(f'calls-{cls}-{solver}-{kind}{"-rev" if rev else ""}', bounds='any field, 3 symbolic times')(lambda H, a=(kind, cls, solver, rev): calls(H, *a))


def higher(H, order, size, batch, time=True, args=False, api='defunc'):
    """y^(order) = f(t, y, y', ..): the derivative of block i is block i+1, that of the last block is f of the whole state."""
    d = order * size
    F = H.uf('f', size)
    z = H.const(0.)
    vf = (lambda t, x, args={}: F(t, x) + args.get('b', 0.)) if args else (lambda t, x: F(t, x)) if time else (lambda x: F(z, x))
    x, t = H.tensor('x', (batch, d), -2, 2), H.scalar('t', -2, 2)
    b = H.tensor('b', (batch, size), -2, 2)
    if api == 'defunc':
        w = standardize_vf_call_signature(vf, order, defunc_wrap=True)
    else:
        w = (ODEProblem if api == 'problem' else NeuralODE)(vf, 'midpoint', order=order).vf
    def ref(t, x, b=0.):
        return torch.cat([x[:, size:], F(t if time else z, x) + (b if args else 0.)], 1)
    H.check_eq(w(t, x), ref(t, x), 'higher-order field')
    if args:
        H.check_eq(w(t, x, args={'b': b}), ref(t, x, b), 'higher-order field with args')
    if api != 'defunc':
        span = torch.stack(increasing(H, 's', 3, -2, 2, gap=0.05))
        _, sol = (ODEProblem if api == 'problem' else NeuralODE)(vf, 'midpoint', order=order)(x, span)
        y = x
        for k in range(2):
            y = rk_step(H, 'midpoint', ref, span[k], y, span[k + 1] - span[k])
            H.check_eq(sol[k + 1], y, f'solution of the higher-order problem at time {k + 1}')


for o, s, b, kw in [(2, 1, 1, {}), (2, 2, 2, {}), (3, 1, 2, {}), (3, 2, 1, {}), (4, 1, 1, {}), (2, 1, 2, dict(time=False)), (2, 2, 1, dict(args=True)), (3, 1, 1, dict(args=True)),
                    (2, 1, 1, dict(api='node')), (2, 2, 2, dict(api='node', time=False)), (3, 1, 1, dict(api='node')), (2, 1, 1, dict(api='problem')), (3, 1, 2, dict(api='problem', time=False)),
                    (2, 2, 1, dict(api='problem', args=True))]:
    SUITE.case(f'order-{o}-{s}-{b}' + ''.join(f'-{k}' for k in kw) + ('-problem' if kw.get('api') == 'problem' else ''), bounds=f'order {o}, blocks of {s}, batch of {b}, any field')(lambda H, a=(o, s, b), kw=kw: higher(H, *a, **kw))


class T(nn.Module):
    """A module that needs the depth variable."""
    def __init__(self, u):
        super().__init__()
        self.t, self.u = None, u

    def forward(self, x):
        return self.u(self.t, x)


def depth(H, kind, solver, n=3, rev=False):
    """Modules with an attribute `t` see the time of every evaluation."""
    F, G = H.uf('f', 1), H.uf('g', 1)
    x = H.tensor('x', (2, 1), -2, 2)
    ts = increasing(H, 's', n, -2, 2, gap=0.05)
    span = torch.stack(ts[::-1] if rev else ts)
    if kind == 'seq':
        vf, ref = nn.Sequential(T(F), T(G)), lambda t, y: G(t, F(t, y))
    elif kind == 'nested':
        vf, ref = nn.Sequential(nn.Sequential(T(F)), MX(lambda y: G(H.const(0.), y))), lambda t, y: G(H.const(0.), F(t, y))
    elif kind == 'depthcat':
        U = H.uf('u', 1, time=False)
        vf, ref = nn.Sequential(DepthCat(1), MX(lambda y: U(y))), lambda t, y: U(torch.cat([y, t * torch.ones_like(y)], 1))
    else:
        m = T(F)
        vf, ref = (lambda t, y: m(y)), None
        w = MTX(None)
        w.inner = m
        w.u = lambda t, y: w.inner(y)
        vf, ref = w, F
    node = NeuralODE(vf, solver)
    for rep in range(2):
        _, sol = node(x, span)
        y = x
        for k in range(n - 1):
            y = rk_step(H, solver, ref, span[k], y, span[k + 1] - span[k])
            H.check_eq(sol[k + 1], y, f'run {rep}: state at time {k + 1}')
        span = span + H.scalar('shift', -1, 1)
    # direct calls
    t2 = H.scalar('t2', -2, 2)
    H.check_eq(node.vf(t2, x), ref(t2, x), 'direct call')


for kind in ('seq', 'nested', 'depthcat', 'inner'):
    for solver in ('euler', 'midpoint', 'rk4'):
        SUITE.case(f'depth-{kind}-{solver}', bounds='any modules, 2-3 symbolic times')(lambda H, k=kind, s=solver: depth(H, k, s, n=2 if s == 'rk4' else 3, rev=s == 'midpoint'))


def higher_3d(H, order, api):
    """Higher-order states with further dimensions: the blocks are slices of dimension 1."""
    F = H.uf('f', 2)
    mix = lambda x: sum((i + 1) * x[:, i:i + 1] for i in range(order))
    vf = lambda t, x: F(t, mix(x))
    x, t = H.tensor('x', (2, order, 2), -2, 2), H.scalar('t', -2, 2)
    ref = lambda t, x: torch.cat([x[:, 1:], F(t, mix(x))], 1)
    if api == 'defunc':
        w = standardize_vf_call_signature(vf, order, defunc_wrap=True)
        H.check_eq(w(t, x), ref(t, x), 'higher-order field')
    else:
        span = torch.stack(increasing(H, 's', 2, -2, 2, gap=0.05))
        _, sol = (NeuralODE if api == 'node' else ODEProblem)(vf, 'midpoint', order=order)(x, span)
        H.check_eq(sol[1], rk_step(H, 'midpoint', ref, span[0], x, span[1] - span[0]), 'solution of the higher-order problem')


for o, api in [(2, 'defunc'), (3, 'defunc'), (2, 'node'), (2, 'problem')]:
    SUITE.case(f'order3d-{o}-{api}', bounds=f'order {o}, state (2,{o},2), any field')(lambda H, o=o, a=api: higher_3d(H, o, a))


def shared(H, kind):
    """One user field in two models: what one does does not show in the other, and the field itself keeps its meaning."""
    F = H.uf('f', 1)
    inner = MX(lambda y: F(H.const(0.), y)) if kind == 'module-x' else MTX(F) if kind == 'module-tx' else (lambda t, x: F(t, x)) if kind == 'lambda' else nn.Sequential(T(F))
    at = (lambda t: H.const(0.)) if kind == 'module-x' else (lambda t: t)
    ref = lambda t, x: F(at(t), x)
    a, b = NeuralODE(inner, 'euler'), NeuralODE(inner, 'midpoint')
    c = NeuralODE(a.vf, 'euler')            # a field that is wrapped already
    keeps = []
    for i, (m, nm) in enumerate([(a, 'euler'), (b, 'midpoint'), (c, 'euler'), (a, 'euler')]):
        x = H.tensor(f'x{i}', (1 + i % 2, 1), -2, 2)
        ts = increasing(H, f's{i}_', 3, -2, 2, gap=0.05)
        _, sol = m(x, torch.stack(ts))
        y = x
        for k in range(2):
            y = rk_step(H, nm, ref, ts[k], y, ts[k + 1] - ts[k])
            H.check_eq(sol[k + 1], y, f'call {i}: state {k + 1}')
        keeps.append((sol, sol.clone()))
    for p, q in keeps:
        H.check_eq(p, q, 'a solution returned earlier changed')
    t, x = H.scalar('t', -2, 2), H.tensor('x', (1, 1), -2, 2)
    if kind == 'module-x':
        H.check_eq(inner(x), F(H.const(0.), x), 'the user module itself')
    elif kind != 'seq':
        H.check_eq(inner(t, x), F(t, x), 'the user field itself')
    H.check_eq(b.vf(t, x), ref(t, x), 'direct call')


for kind in ('lambda', 'module-x', 'module-tx', 'seq'):
    SUITE.case(f'shared-{kind}', bounds='three models over one field, four calls, any field')(lambda H, k=kind: shared(H, k))

contexts(SUITE, r'(defunc|problem|node)-(lambda-tx|def|module-x).*')
