"""C09: asynchronous leapfrog is time-reversible and integrates the pair (x, v)."""
from symtorch.runner import Suite
from torchdyn.numerics import odeint, odeint_symplectic
from torchdyn.numerics.solvers.ode import AsynchronousLeapfrog, str_to_solver
from torchdyn.core import ODEProblem
from .common import *

SUITE = Suite('C09')


def ref(f, xv, t, dt):
    n = xv.shape[-1] // 2
    x, v = xv[..., :n], xv[..., n:]
    v1 = 2 * f(t + dt / 2, x + dt / 2 * v) - v
    return torch.cat([x + dt / 2 * v + dt / 2 * v1, v1], -1)


def mk(kind):
    if kind == 'str':
        return str_to_solver('alf', torch.float64)
    if kind == 'adaptive':
        return AsynchronousLeapfrog(stepping_class='adaptive', dtype=torch.float64)
    return AsynchronousLeapfrog(dtype=torch.float64)


def step(H, kind, shape, k1given=False):
    n = shape[-1] // 2
    xv = H.tensor('xv', shape)
    t, dt = H.scalar('t', -3, 3), H.scalar('dt', -3, 3)
    f = H.uf('f', n)
    s = mk(kind)
    s.sync_device_dtype(xv, torch.stack([t, t + dt]))
    out = s.step(f, xv, t, dt, k1=f(t, xv[..., :n]) if k1given else None)[1]
    H.check_shape(out, shape, 'result')
    H.check_eq(out, ref(f, xv, t, dt), 'asynchronous leapfrog update')
    back = s.step(f, out, t + dt, -dt)[1]
    H.check_eq(back, xv, 'a step of -dt from the result does not return the original pair')
    # and the other way round
    b2 = s.step(f, s.step(f, xv, t, -dt)[1], t - dt, dt)[1]
    H.check_eq(b2, xv, 'a step forward after one backward')


for kind, shape in [('str', (1, 2)), ('inst', (2, 4)), ('adaptive', (1, 4)), ('inst', (2, 2, 2)), ('str', (6,)),
                    ('str', (1, 4, 2)), ('adaptive', (2, 1, 2)), ('inst', (1, 3, 1, 2))]:
    SUITE.case(f'step-{kind}-{"x".join(map(str, shape))}', bounds=f'one step forth and back, any field, state {shape}')(
        lambda H, k=kind, s=shape: step(H, k, s))
SUITE.case('step-k1', bounds='first slope supplied')(lambda H: step(H, 'inst', (1, 2), True))


def symp(H, n, shape, api, rev=False, kind='inst'):
    ts = increasing(H, 't', n, gap=0.01)
    if rev:
        ts = ts[::-1]
    m = shape[-1] // 2
    F = H.uf('f', m)

    class Field(nn.Module):
        order = 1

        def forward(self, t, x, args=None):
            return F(t, x)
    xv = H.tensor('xv', shape)
    x0 = xv.clone()
    span = torch.stack(ts)
    solver = 'alf' if kind == 'str' else mk(kind)
    at = None
    if api == 'symplectic':
        te, sol = odeint_symplectic(Field(), xv, span, solver)
    elif api == 'save_at':
        at = [0, n - 1]
        te, sol = odeint_symplectic(Field(), xv, span, solver, save_at=torch.stack([ts[i] for i in at]))
    elif api == 'list':
        te, sol = odeint_symplectic(Field(), xv, [span], solver)
    else:
        te, sol = odeint(Field(), xv, span, solver)
    want = [x0]
    for a, b in zip(ts, ts[1:]):
        want.append(ref(F, want[-1], a, b - a))
    at = at if at is not None else range(n)
    H.check_shape(sol, (len(at),) + shape, 'solution')
    H.check_eq(te, torch.stack([ts[i] for i in at]), 'returned times')
    for j, i in enumerate(at):
        H.check_eq(sol[j], want[i], f'pair at t_span[{i}]')
    # and back over the reversed grid
    if api == 'symplectic':
        _, b = odeint_symplectic(Field(), sol[-1], torch.stack(ts[::-1]), solver)
        for i in range(n):
            H.check_eq(b[i], want[n - 1 - i], f'integrating back over the reversed grid: pair {i}')


for n, shape, api, rev, kind in [(3, (1, 2), 'symplectic', False, 'str'), (3, (2, 4), 'symplectic', False, 'inst'), (3, (1, 2), 'symplectic', True, 'inst'),
                                 (4, (1, 2), 'save_at', False, 'inst'), (3, (1, 2), 'save_at', True, 'str'), (3, (1, 2), 'list', False, 'inst'),
                                 (3, (1, 2), 'odeint', False, 'str'), (3, (2, 2), 'odeint', True, 'inst'), (4, (1, 4), 'symplectic', False, 'str'), (3, (1, 4, 2), 'odeint', False, 'str'), (3, (2,), 'symplectic', False, 'inst')]:
    SUITE.case(f'{api}-{n}-{"x".join(map(str, shape))}-{kind}{"-rev" if rev else ""}', bounds=f'{n} symbolic times, any field')(
        lambda H, n=n, s=shape, a=api, r=rev, k=kind: symp(H, n, s, a, r, k))


def guards(H):
    x = H.tensor('x', (1, 2))

    def f(t, x):
        return x
    expect_raise(H, lambda: odeint_symplectic(f, x, H.const([0., 1.]), 'alf'), 'a field without an order is accepted', RuntimeError)
    f.order = 2
    expect_raise(H, lambda: odeint_symplectic(f, x, H.const([0., 1.]), 'alf'), 'a second-order field is accepted by ALF', RuntimeError)
    H.check_eq(x, x, 'x')


SUITE.case('guards', bounds='refusals')(guards)


def related_case(H, kind):
    """A step right after one that shares some of its arguments."""
    f, g = H.uf('f', 1), H.uf('g', 1)
    x, t, dt = H.tensor('x', (1, 2), -2, 2), H.scalar('t', -3, 3), H.scalar('dt', -2, 2)
    s = mk('inst')
    s.sync_device_dtype(x, torch.stack([t, t + dt]))
    out = s.step(f, x, t, dt)[1]
    f2, x2, t2, dt2 = related(H, kind, f, g, x, t, dt, out)
    keep, keep2 = out.clone(), x2.clone()
    got = s.step(f2, x2, t2, dt2)[1]
    H.check_eq(got, ref(f2, keep2, t2, dt2), f'step after one of the same {kind}')
    H.check_eq(out, keep, 'the result returned earlier changed')
    H.check_eq(x2, keep2, 'the input pair changed')


for kind in RELATED:
    SUITE.case(f'related-{kind}', bounds='two steps of one solver object that share arguments, any field')(lambda H, kind=kind: related_case(H, kind))


# larger structures
for kind, shape in [('inst', (17, 2)), ('str', (2, 12)), ('inst', (2, 1, 2, 1, 4))]:
    SUITE.case(f'step-{kind}-{"x".join(map(str, shape))}', bounds=f'one step forth and back, any field, state {shape}')(lambda H, k=kind, s=shape: step(H, k, s))
SUITE.case('odeint-12-1x2-inst', bounds='12 symbolic times, any field')(lambda H: symp(H, 12, (1, 2), 'odeint', False, 'inst'))

contexts(SUITE, r'step-(str-1x2|adaptive-1x4|k1)|.*-3-1x2-.*|related-(samestate|continued|again)')
