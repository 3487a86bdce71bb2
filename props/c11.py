"""C11: parallel-in-time solvers converge to the sequential fine solution."""
from symtorch.runner import Suite
from torchdyn.numerics.odeint import odeint_mshooting
from torchdyn.numerics.solvers.ode import MSZero, MSBackward
from torchdyn.core.problems import MultipleShootingProblem
from .common import *

SUITE = Suite('C11')
CLS = {'mszero': MSZero, 'msbackward': MSBackward}


def mk(kind, coarse, fine, default):
    return kind if default else CLS[kind](coarse, fine)


def uniform(H, n, rev=False):
    t0, d = H.scalar('t0', -1, 1), H.scalar('d', 0.1, 1)
    return torch.stack([t0 + i * d for i in range(n)]), d


def seq(H, f, x, n, d, method, steps):
    out = [x]
    h = d / (steps - 1)
    z = H.const(0.)
    for _ in range(n - 1):
        y = out[-1]
        for j in range(steps - 1):
            y = rk_step(H, method, f, z, y, h)
        out.append(y)
    return out


def guess(H, x, n, shape):
    return torch.cat([x[None], H.tensor('B', (n - 1,) + shape)], 0)


def sweeps(H, kind, n, k, shape, coarse, fine, steps, default=False, via='odeint', field='uf'):
    x = H.tensor('x', shape)
    span, d = uniform(H, n)
    if field == 'uf':
        F = H.uf('f', shape[-1], time=False)
        f = lambda t, y, args=None: F(y)
    elif field == 'poly':
        a, b, c = [H.scalar(v, -1, 1) for v in 'abc']
        f = lambda t, y, args=None: a + b * y + c * y * y
    B0 = guess(H, x, n, shape)
    if via == 'odeint':
        te, B = odeint_mshooting(f, x, span, mk(kind, coarse, fine, default), B0=B0, fine_steps=steps, maxiter=k)
    else:
        te, B = MultipleShootingProblem(Field(f), mk(kind, coarse, fine, default), maxiter=k, fine_steps=steps)(x, span, B0)
    H.check_shape(B, (n,) + shape, 'shooting states')
    H.check_eq(te, span, 'times')
    want = seq(H, f, x, n, d, fine, steps)
    H.check_eq(B[0], x, 'the first state is not x0')
    for i in range(min(k + 2, n)):
        H.check_eq(B[i], want[i], f'after {k + 1} sweeps: shooting state {i} is not the sequential fine solution')


class Field(nn.Module):
    def __init__(self, f):
        super().__init__()
        self.f = f

    def forward(self, t, x, args=None):
        return self.f(t, x)


Q = [('mszero', 4, 0, (1, 1), 'euler', 'rk4', 2, True), ('mszero', 4, 1, (1, 1), 'euler', 'rk4', 3, False), ('mszero', 4, 2, (1, 2), 'euler', 'midpoint', 2, False),
     ('mszero', 4, 5, (1, 1), 'euler', 'euler', 3, False), ('mszero', 5, 2, (2, 1), 'euler', 'euler', 2, False), ('mszero', 2, 0, (1, 1), 'euler', 'midpoint', 2, False),
     ('mszero', 3, 9, (1, 1), 'midpoint', 'rk4', 2, False), ('mszero', 5, 1, (1, 1), 'midpoint', 'euler', 4, False),
     ('msbackward', 4, 0, (1, 1), 'euler', 'euler', 2, False), ('msbackward', 4, 1, (1, 1), 'euler', 'euler', 3, False), ('msbackward', 3, 4, (1, 2), 'euler', 'euler', 2, False),
     ('msbackward', 4, 2, (2, 1), 'euler', 'midpoint', 2, False), ('msbackward', 3, 1, (1, 1), 'euler', 'rk4', 2, True)]
for q in Q:
    SUITE.case(f'sweeps-{q[0]}-{q[1]}-{q[2]}-{q[4]}-{q[5]}-{q[6]}', bounds=f'{q[1]} times on a uniform grid, {q[2] + 1} sweeps, any guess, any autonomous field, state {q[3]}, {q[6]} fine points')(
        lambda H, q=q: sweeps(H, *q))
SUITE.case('problem-mszero', bounds='through MultipleShootingProblem')(lambda H: sweeps(H, 'mszero', 4, 1, (1, 1), 'euler', 'rk4', 3, True, via='problem'))
SUITE.case('problem-msbackward', bounds='through MultipleShootingProblem')(lambda H: sweeps(H, 'msbackward', 3, 1, (1, 1), 'euler', 'rk4', 2, True, via='problem'))
SUITE.case('deep-mszero', tier='thorough', bounds='7 times, 4 sweeps', budget=900)(lambda H: sweeps(H, 'mszero', 7, 3, (1, 2), 'euler', 'rk4', 3))
SUITE.case('deep-msbackward', tier='thorough', bounds='5 times, 3 sweeps', budget=900)(lambda H: sweeps(H, 'msbackward', 5, 2, (1, 2), 'euler', 'midpoint', 2))


def fixed_point(H, kind, n, k, fine, steps, shape=(1, 1)):
    x = H.tensor('x', shape)
    span, d = uniform(H, n)
    F = H.uf('f', shape[-1], time=False)
    f = lambda t, y, args=None: F(y)
    want = torch.stack(seq(H, f, x, n, d, fine, steps))
    _, B = odeint_mshooting(f, x, span, CLS[kind]('euler', fine), B0=want.clone(), fine_steps=steps, maxiter=k)
    H.check_eq(B, want, 'the sequential fine solution is not a fixed point')


for q in [('mszero', 4, 0, 'rk4', 2), ('mszero', 4, 2, 'midpoint', 3), ('msbackward', 4, 0, 'euler', 3), ('msbackward', 4, 1, 'midpoint', 2)]:
    SUITE.case('fixed-' + '-'.join(map(str, q)), bounds='any autonomous field')(lambda H, q=q: fixed_point(H, *q))


def parareal(H, n, k, coarse, fine, steps):
    """Beyond the exact prefix: the states after each sweep are those of the parareal iteration."""
    shape = (1, 1)
    x = H.tensor('x', shape)
    span, d = uniform(H, n)
    F = H.uf('f', 1, time=False)
    f = lambda t, y, args=None: F(y)
    B0 = guess(H, x, n, shape)
    _, B = odeint_mshooting(f, x, span, MSZero(coarse, fine), B0=B0, fine_steps=steps, maxiter=k)
    G = lambda y: seq(H, f, y, 2, d, coarse, steps)[1]
    Fi = lambda y: seq(H, f, y, 2, d, fine, steps)[1]
    cur = list(B0)
    for _ in range(k + 1):
        new = [cur[0]]
        for m in range(1, n):
            new.append(Fi(cur[m - 1]) + G(new[m - 1]) - G(cur[m - 1]))
        cur = new
    for i in range(n):
        H.check_eq(B[i], cur[i], f'parareal update of state {i} after {k + 1} sweeps')


for q in [(4, 0, 'euler', 'rk4', 2), (4, 1, 'euler', 'midpoint', 2), (5, 1, 'euler', 'euler', 3)]:
    SUITE.case('parareal-' + '-'.join(map(str, q)), bounds='any guess, any autonomous field')(lambda H, q=q: parareal(H, *q))


def newton(H, n, k, shape, steps=2):
    """MSBackward: the update is the Newton step of the matching conditions, with the exact Jacobian of the fine solver."""
    x = H.tensor('x', shape)
    span, d = uniform(H, n)
    F = H.uf('f', shape[-1], time=False)
    f = lambda t, y, args=None: F(y)
    B0 = guess(H, x, n, shape)
    _, B = odeint_mshooting(f, x, span, MSBackward('euler', 'euler'), B0=B0, fine_steps=steps, maxiter=k)
    cur = [b.detach() for b in B0]
    h = d / (steps - 1)
    for _ in range(k + 1):
        new = [cur[0]]
        for m in range(1, n):
            y = cur[m - 1].detach().clone().requires_grad_(True)
            v = (new[m - 1] - cur[m - 1]).detach()
            z = y
            for j in range(steps - 1):
                z = z + h * f(0, z)
            # directional derivative, by accumulating v through the chain rule with full Jacobians
            J = []
            for i in range(z.numel()):
                J.append((torch.autograd.grad(z.reshape(-1)[i], y, retain_graph=True)[0] * v).sum())
            new.append((z.detach() + torch.stack(J).reshape(shape)))
        cur = new
    for i in range(n):
        H.check_eq(B[i], cur[i], f'Newton update of state {i} after {k + 1} sweeps')


for q in [(3, 0, (1, 1), 2), (4, 0, (1, 2), 2), (3, 0, (2, 1), 3), (4, 1, (1, 1), 2)]:
    SUITE.case('newton-' + '-'.join(str(v).replace(' ', '') for v in q), bounds='any guess, any autonomous field')(lambda H, q=q: newton(H, *q))


def affine(H, n, dim, fine, steps):
    shape = (1, dim)
    x = H.tensor('x', shape)
    span, d = uniform(H, n)
    A, b = H.tensor('A', (dim, dim)), H.tensor('b', (dim,))
    f = lambda t, y, args=None: y @ A.T + b
    B0 = guess(H, x, n, shape)
    _, B = odeint_mshooting(f, x, span, MSBackward('euler', fine), B0=B0, fine_steps=steps, maxiter=0)
    want = seq(H, f, x, n, d, fine, steps)
    for i in range(n):
        H.check_eq(B[i], want[i], f'one Newton sweep is not exact for an affine field: state {i}')


for q in [(3, 1, 'rk4', 2), (4, 2, 'euler', 2), (4, 1, 'midpoint', 3)]:
    SUITE.case('affine-' + '-'.join(map(str, q)), bounds='any affine field, any guess')(lambda H, q=q: affine(H, *q))


def default_guess(H, kind, n):
    x = H.tensor('x', (1, 1))
    span, d = uniform(H, n)
    F = H.uf('f', 1, time=False)
    f = lambda t, y, args=None: F(y)
    s = CLS[kind]('euler', 'midpoint')
    _, B = odeint_mshooting(f, x, span, s, fine_steps=2, maxiter=0)
    B0 = torch.stack(seq(H, f, x, n, d, 'euler', 2))
    _, B2 = odeint_mshooting(f, x, span, CLS[kind]('euler', 'midpoint'), B0=B0, fine_steps=2, maxiter=0)
    H.check_eq(B, B2, 'the default guess is not the coarse solution')
    want = seq(H, f, x, n, d, 'midpoint', 2)
    for i in range(2):
        H.check_eq(B[i], want[i], f'state {i}')


for kind in CLS:
    SUITE.case(f'default-{kind}', bounds='3 times, default guess')(lambda H, k=kind: default_guess(H, k, 3))


def history(H, kind):
    """Calls with one solver object do not influence each other, and the caller's guess is left alone."""
    s = CLS[kind]('euler', 'midpoint' if kind == 'mszero' else 'euler')
    fine = 'midpoint' if kind == 'mszero' else 'euler'
    keeps = []
    for i, (shape, n, k) in enumerate([((1, 2), 3, 1), ((2, 1), 4, 0), ((1, 2), 3, 0)]):
        x, U = H.tensor(f'x{i}', shape), H.uf(f'f{i}', shape[-1], time=False)
        span, d = uniform_(H, n, i)
        f = lambda t, y, args=None: U(y)
        B0 = torch.cat([x[None], H.tensor(f'B{i}_', (n - 1,) + shape)], 0)
        b0 = B0.clone()
        te, B = odeint_mshooting(f, x, span, s, B0=B0, fine_steps=3 - i % 2, maxiter=k)
        want = seq(H, f, x, n, d, fine, 3 - i % 2)
        for j in range(min(k + 2, n)):
            H.check_eq(B[j], want[j], f'call {i}: shooting state {j}')
        H.check_eq(B0.detach(), b0, f'call {i}: the guess of the caller was modified')
        H.check_eq(te, span, f'call {i}: times')
        keeps.append((B, B.detach().clone()))
    for a, b in keeps:
        H.check_eq(a.detach(), b, 'states returned earlier changed')


def uniform_(H, n, i):
    t0, d = H.scalar(f't0_{i}', -1, 1), H.scalar(f'd_{i}', 0.1, 1)
    return torch.stack([t0 + j * d for j in range(n)]), d


def twice(H, kind):
    """Going on from the result of a first call with one sweep gives one more exact state."""
    x = H.tensor('x', (1, 1))
    span, d = uniform(H, 4)
    F = H.uf('f', 1, time=False)
    f = lambda t, y, args=None: F(y)
    s = CLS[kind]('euler', 'euler')
    B0 = guess(H, x, 4, (1, 1))
    _, B = odeint_mshooting(f, x, span, s, B0=B0, fine_steps=3, maxiter=0)
    _, C = odeint_mshooting(f, x, span, s, B0=B.detach(), fine_steps=3, maxiter=0)
    want = seq(H, f, x, 4, d, 'euler', 3)
    for j in range(2):
        H.check_eq(C[j], want[j], f'state {j} after two calls')
    if kind == 'mszero':
        # the first state was exact already, so the second sweep makes the next one exact
        H.check_eq(C[2], want[2] - coarse(H, F, want[1], d) + coarse(H, F, C[1], d) - fine(H, F, B[1], d) + fine(H, F, want[1], d), 'second state after two calls')


def coarse(H, F, y, d):
    return y + d / 2 * F(y) + d / 2 * F(y + d / 2 * F(y))


fine = coarse
for kind in CLS:
    SUITE.case(f'history-{kind}', bounds='three calls of one solver object, other field, state shape, grid and sweeps')(lambda H, k=kind: history(H, k))
    SUITE.case(f'twice-{kind}', bounds='two calls of one sweep each, the second starting from the result of the first')(lambda H, k=kind: twice(H, k))
for q in [('mszero', 3, 1, (2,), 'euler', 'midpoint', 2), ('mszero', 4, 1, (2, 1, 2), 'euler', 'rk4', 2), ('mszero', 3, 0, (1, 3, 1), 'midpoint', 'rk4', 3),
          ('msbackward', 3, 1, (2,), 'euler', 'euler', 2), ('msbackward', 3, 1, (2, 1, 2), 'euler', 'euler', 2)]:
    SUITE.case(f'rank-{q[0]}-{"x".join(map(str, q[3]))}', bounds=f'{q[1]} times, {q[2] + 1} sweeps, any guess, any autonomous field, state {q[3]}')(lambda H, q=q: sweeps(H, *q))


# larger structures
for q in [('mszero', 9, 1, (1, 1), 'euler', 'midpoint', 2), ('mszero', 7, 3, (1, 1), 'euler', 'euler', 2), ('mszero', 4, 1, (17, 2), 'euler', 'midpoint', 2), ('mszero', 3, 1, (1, 1), 'euler', 'midpoint', 7),
          ('msbackward', 7, 0, (1, 1), 'euler', 'euler', 2), ('msbackward', 3, 0, (5, 2), 'euler', 'euler', 2)]:
    SUITE.case(f'large-{q[0]}-{q[1]}-{q[2]}-{"x".join(map(str, q[3]))}-{q[6]}', bounds=f'{q[1]} times, {q[2] + 1} sweeps, any guess, any autonomous field, state {q[3]}, {q[6]} fine points')(lambda H, q=q: sweeps(H, *q))

contexts(SUITE, r'sweeps-mszero-4-[01]-.*|sweeps-msbackward-4-[01]-euler-euler.*|problem-.*|parareal-4-.*|twice-.*|default-.*|history-.*')
