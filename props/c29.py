"""C29: samples of a batch do not influence each other under fixed-step integration; inputs are left alone."""
from symtorch.runner import Suite
from torchdyn.numerics import odeint
from torchdyn.numerics.odeint import odeint_symplectic, odeint_mshooting
from torchdyn.numerics.sdeint import sdeint
from torchdyn.core import ODEProblem, NeuralODE
from torchdyn.core.problems import MultipleShootingProblem
from torchdyn.models import CNF, HNN, LNN, GNF
from torchdyn.nn import GalLinear, Fourier, Polynomial, DepthCat, Augmenter, DataControl
from .sens import *
from .common import contexts

SUITE = Suite('C29', assumptions=['vector fields, networks and losses act on each sample separately'])


class Sym:
    """A rowwise first-order symplectic field."""
    order = 1

    def __init__(self, H, d):
        self.u = H.uf('f', d)

    def __call__(self, t, x):
        return self.u(t, x)


class Sde:
    noise_type, sde_type = 'diagonal', 'ito'

    def __init__(self, H, d):
        self.a, self.b = H.uf('drift', d), H.uf('diff', d)

    def f(self, t, x):
        return self.a(t, x)

    def g(self, t, x):
        return self.b(t, x)


def separate(H, run, shape, n, perm=None, rev=False, axis=1, uniform=False):
    """run(x, span) on the batch, on each sample alone and on the batch in another order."""
    x, span = H.tensor('x', shape, -2, 2), grid(H, n, rev, uniform=uniform)
    x0, s0 = x.clone(), span.clone()
    y = run(x, span)
    H.check_eq(x, x0, 'the initial state is modified')
    H.check_eq(span, s0, 'the time grid is modified')
    for b in range(shape[0]):
        H.check_eq(y.select(axis, b), run(x0[b:b + 1].clone(), s0.clone()).select(axis, 0), f'sample {b} of the batch differs from its own integration')
    p = list(perm or range(shape[0] - 1, -1, -1))
    H.check_eq(run(x0[p].clone(), s0.clone()), y.index_select(axis, torch.tensor(p)), 'permuting the batch does not permute the result')


def C(name, run, shape=(2, 1), n=3, tier='quick', bounds='', **kw):
    SUITE.case(name, tier=tier, bounds=f'{shape[0]} samples of shape {shape[1:]}, {n} times{", decreasing" if kw.get("rev") else ""}; {bounds or "any field"}')(
        lambda H: separate(H, run(H, shape), shape, n, **kw))


# ---------------------------------------------------------------- integration
def plain(solver):
    def mk(H, shape):
        u = H.uf('f', shape[-1])
        return lambda x, s: odeint(u, x, s, UStep(H, shape[-1]) if solver == 'any' else solver)[1]
    return mk


for sv in ('any', 'euler', 'midpoint', 'rk4'):
    C(f'ode-{sv}', plain(sv), (2, 2))
    C(f'ode-{sv}-rev', plain(sv), (3, 1), n=2, rev=True, perm=(1, 2, 0))
    C(f'ode-{sv}-3d', plain(sv), (2, 2, 1), n=2)
C('ode-any-long', plain('any'), (4, 2), n=5, tier='thorough', perm=(2, 0, 3, 1))
C('ode-rk4-long', plain('rk4'), (3, 2), n=4, tier='thorough', perm=(2, 0, 1))


def saved(H, shape):
    u = H.uf('f', shape[-1])
    return lambda x, s: odeint(u, x, s, 'midpoint', save_at=s[[2, 0]])[1]


C('ode-save', saved, (2, 1), n=3)


def sympl(H, shape):
    f = Sym(H, shape[-1] // 2)
    return lambda x, s: odeint_symplectic(f, x, s, 'alf')[1]


C('alf', sympl, (2, 2), n=3)
C('alf-4', sympl, (2, 4), n=2)


def mshoot(kind, **kw):
    def mk(H, shape):
        u = H.uf('f', shape[-1], time=False)

        def run(x, s):
            B = torch.stack([x] * len(s)) * torch.stack([H.scalar(f'g{k}', .5, 2) for k in range(len(s))]).reshape(-1, *[1] * x.ndim)
            return odeint_mshooting(lambda t, z: u(None, z), x, s, kind, B, fine_steps=2, maxiter=kw.get('maxiter', 1))[1]
        return mk2(run)

    def mk2(run):
        return run
    return mk


C('mszero', mshoot('mszero'), (2, 1), n=3, uniform=True)


def problem(cls, **kw):
    def mk(H, shape):
        u = H.uf('f', shape[-1])

        class M(nn.Module):
            def forward(self, t, x):
                return u(t, x)
        m = cls(M(), **kw)
        return lambda x, s: m(x, s)[1]
    return mk


for nm, cls in (('problem', ODEProblem), ('node', NeuralODE)):
    for sens in ('autograd', 'adjoint', 'interpolated_adjoint'):
        C(f'{nm}-{sens}', problem(cls, solver='midpoint', sensitivity=sens), (2, 2), n=2)
C('node-trajectory', lambda H, shape: (lambda m: lambda x, s: m.trajectory(x, s))(NeuralODE(_wrapm(H, shape[-1]), 'rk4')), (2, 1), n=2)


def _wrapm(H, d):
    u = H.uf('f', d)

    class M(nn.Module):
        def forward(self, t, x):
            return u(t, x)
    return M()


# ---------------------------------------------------------------- gradients
def gradient(H, sysn, sens, batch, n, api, rev=False):
    """Gradients of a sum of per-sample losses: per-sample for the states, summed for the parameters."""
    S = SYSTEMS[sysn]
    ps = {k: param(H, k, s) for k, s in S['params'].items()}
    m = Field(S['f'], **ps)
    prob = api(m, 'rk4', sensitivity=sens, solver_adjoint='rk4')
    x, span = H.tensor('x', (batch, S['dim']), -2, 2), grid(H, n, rev)
    g = H.tensor('g', (n, batch, S['dim']), -2, 2)
    x0, s0 = x.clone(), span.clone()

    def run(idx):
        xi = x0[idx].clone().requires_grad_(True)
        y = prob(xi, s0.clone())[1]
        return grads((g[:, idx] * y).sum(), [xi] + list(ps.values()))
    full = run(list(range(batch)))
    alone = [run([b]) for b in range(batch)]
    for b in range(batch):
        H.check_eq(full[0][b], alone[b][0][0], f'gradient of sample {b} depends on the rest of the batch')
    for k, nm in enumerate(ps):
        H.check_eq(full[1 + k], sum(a[1 + k] for a in alone), f'gradient of {nm} is not the sum over the samples')
    H.check_eq(span, s0, 'the time grid is modified')


for sens in ('autograd', 'adjoint', 'interpolated_adjoint'):
    for sysn, api, b, n in (('quad', ODEProblem, 2, 2), ('time', NeuralODE, 3, 2), ('nil', ODEProblem, 2, 3)):
        if sens == 'interpolated_adjoint' and n == 3:
            continue
        SUITE.case(f'gradient-{sens}-{sysn}', bounds=f'{b} samples, {n} times, any parameters, states, times and loss weights', budget=240)(
            lambda H, a=(sysn, sens, b, n, api): gradient(H, *a))
    SUITE.case(f'gradient-{sens}-rev', bounds='2 samples, decreasing times', budget=240)(lambda H, s=sens: gradient(H, 'quad', s, 2, 2, ODEProblem, True))


# ---------------------------------------------------------------- models
class Poly2(nn.Module):
    """A quadratic map of a row, all coefficients symbolic."""
    def __init__(self, H, d, nout, name='q'):
        super().__init__()
        self.Q, self.l = H.tensor(name + 'Q', (nout, d, d), -1, 1), H.tensor(name + 'l', (nout, d), -1, 1)

    def forward(self, x):
        return torch.stack([((x @ q) * x).sum(-1) + (x * v).sum(-1) for q, v in zip(self.Q, self.l)], -1)


def rows(H, f, shape, grad=True):
    x = H.tensor('x', shape, -2, 2)
    x0 = x.clone()

    def call(z):
        z = z.clone()
        if grad:
            z.requires_grad_(True)
        return f(z).detach()
    y = call(x)
    for b in range(shape[0]):
        H.check_eq(y[b], call(x0[b:b + 1])[0], f'sample {b} of the batch differs from its own evaluation')
    p = list(range(1, shape[0])) + [0]
    H.check_eq(call(x0[p]), y[p], 'permuting the batch does not permute the result')
    H.check_eq(x, x0, 'the input is modified')


def M(name, f, shape, bounds='any quadratic network', **kw):
    SUITE.case('model-' + name, bounds=f'{shape[0]} samples, {bounds}', **kw)(lambda H: rows(H, f(H), shape))


M('hnn', lambda H: (lambda m: lambda z: m(z))(HNN(Poly2(H, 2, 1))), (2, 2))
M('hnn-4', lambda H: (lambda m: lambda z: m(z))(HNN(Poly2(H, 4, 1))), (2, 4))
M('lnn', lambda H: (lambda m: lambda z: m(z))(LNN(Poly2(H, 2, 1))), (2, 2))
M('gnf', lambda H: (lambda m: lambda z: m(z))(GNF(Poly2(H, 2, 1))), (3, 2))
M('cnf', lambda H: (lambda m: lambda z: m(0., z))(_cnf(H, 2)), (3, 3))


def _cnf(H, d):
    m = CNF(Poly2(H, d, d))
    return lambda t, z: m(z) if not _takes_time(m) else m(t, z)


def _takes_time(m):
    import inspect
    return len([p for p in inspect.signature(m.forward).parameters.values() if p.default is p.empty and p.kind == p.POSITIONAL_OR_KEYWORD]) > 1


@SUITE.case('model-galerkin', bounds='depth-varying linear layer, any coefficients')
def _(H):
    l = GalLinear(2, 2, expfunc=Polynomial(2)).double()
    for k, p in list(l.named_parameters()):
        if k in ('weight', 'bias', 'coeffs'):
            setattr(l, k, nn.Parameter(H.tensor(k, tuple(p.shape), -1, 1)))
    t = H.scalar('t', -1, 1)
    rows(H, lambda z: l(torch.cat([z, t * torch.ones(len(z), 1, dtype=z.dtype)], 1)), (3, 2))


# ---------------------------------------------------------------- adaptive integration leaves its inputs alone
def adaptive(H, n, K, rejects, sign, interp, tensor=True):
    ts = increasing(H, 't', n, gap=0.01)
    ts = [-t for t in ts] if sign < 0 else ts
    h = Histories(H, ts, K, rejects=rejects, sign=sign, interp=interp)
    span = torch.stack(ts)
    x0, s0 = h.x0.clone(), span.clone()
    odeint(h.field, h.x0, span, h.solver, atol=h.atol, rtol=h.rtol, interpolator='4th' if interp else None)
    H.check_eq(h.x0, x0, 'the initial state is modified')
    H.check_eq(span, s0, 'the time grid is modified')


for sign in (1, -1):
    for interp in (False, True):
        SUITE.case(f'adaptive-inputs{"-rev" if sign < 0 else ""}{"-interp" if interp else ""}', bounds='3 times, at most 2 steps, any history', budget=240)(
            lambda H, s=sign, i=interp: adaptive(H, 3, 2, 1, s, i))


# larger structures
C('ode-any-17', plain('any'), (17, 2), n=3, perm=tuple(reversed(range(17))))
C('ode-any-12', plain('any'), (2, 1), n=12)
C('ode-rk4-9', plain('rk4'), (9, 1), n=2, perm=tuple(reversed(range(9))))

contexts(SUITE, r'ode-(any|midpoint-rev)|alf|mszero|(problem|node)-.*|model-.*|adaptive-inputs.*')
