"""C03: fixed-step integration returns the right state at every requested time."""
import itertools
from symtorch.runner import Suite
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.ode import str_to_solver
from .common import *

SUITE = Suite('C03')


def chain(H, stepf, f, x, ts):
    out = [x]
    for a, b in zip(ts, ts[1:]):
        out.append(stepf(f, out[-1], a, b - a))
    return out


def stepper(H, solver, shape):
    if solver == 'any':
        s = UStep(H, shape[-1])
        return s, s.apply_step
    return solver, lambda f, x, t, dt: rk_step(H, solver, f, t, x, dt)


def grid(H, solver, n, shape):
    x = H.tensor('x', shape)
    x0 = x.clone()
    ts = increasing(H, 't', n)
    f = H.uf('f', shape[-1])
    s, ref = stepper(H, solver, shape)
    span = torch.stack(ts)
    te, sol = odeint(f, x, span, s)
    H.check_eq(span, torch.stack(ts), 'the t_span of the caller was modified')
    want = chain(H, ref, f, x0, ts)
    H.check_shape(te, (n,), 'returned times')
    H.check_shape(sol, (n,) + shape, 'solution')
    H.check_eq(te, torch.stack(ts), 'returned times are t_span')
    for k in range(n):
        H.check_eq(sol[k], want[k], f'{solver}: state at t_span[{k}]')
    H.check_eq(x, x0, 'initial state modified')


for solver, n, shape, tier in [('any', 2, (1, 1), 'quick'), ('any', 4, (2,), 'quick'), ('any', 5, (1, 1), 'quick'), ('any', 3, (2, 1, 2), 'quick'),
                               ('euler', 3, (2, 2), 'quick'), ('midpoint', 3, (1, 2), 'quick'), ('rk4', 3, (1, 1), 'quick'),
                               ('euler', 4, (1, 2), 'quick'), ('any', 8, (1, 1), 'thorough'), ('rk4', 4, (1, 2), 'thorough'),
                               ('midpoint', 5, (2, 1), 'thorough'), ('any', 4, (2, 2, 2), 'thorough')]:
    SUITE.case(f'grid-{solver}-{n}-{"x".join(map(str, shape))}', tier=tier, bounds=f'{n} strictly increasing symbolic times in [-3,3], state shape {shape}, arbitrary f')(
        lambda H, solver=solver, n=n, shape=shape: grid(H, solver, n, shape))


def saveat(H, solver, n, sel, kind):
    """save_at: any selection (in any order) of the grid."""
    shape = (1, 1)
    x = H.tensor('x', shape)
    ts = increasing(H, 't', n, gap=0.01)
    f = H.uf('f', 1)
    s, ref = stepper(H, solver, shape)
    at = [ts[i] for i in sel]
    want_at = list(at)
    at = torch.stack(at) if kind == 'tensor' else at
    te, sol = odeint(f, x, torch.stack(ts), s, save_at=at)
    H.check(len(at) == len(want_at), 'the save_at of the caller changed length')
    for a, b in zip(at, want_at):
        H.check_eq(a, b, 'the save_at of the caller was modified')
    want = chain(H, ref, f, x, ts)
    H.check_shape(te, (len(sel),), 'returned times')
    H.check_shape(sol, (len(sel),) + shape, 'solution')
    for j, i in enumerate(sel):
        H.check_eq(te[j], ts[i], f'save_at {sel}: time {j}')
        H.check_eq(sol[j], want[i], f'save_at {sel}: state {j} (time t_span[{i}])')


def saveat_all(H, solver, n, m, kind):
    perms = list(itertools.permutations(range(n), m))
    saveat(H, solver, n, perms[H.choose('selection', len(perms))], kind)


for n, m, kind, tier in [(2, 1, 'tensor', 'quick'), (2, 2, 'tensor', 'quick'), (3, 1, 'list', 'quick'), (3, 2, 'tensor', 'quick'), (3, 3, 'tensor', 'quick'),
                         (4, 2, 'list', 'quick'), (4, 3, 'tensor', 'thorough'), (4, 4, 'tensor', 'thorough'), (5, 2, 'tensor', 'thorough')]:
    SUITE.case(f'save_at-{n}-{m}-{kind}', tier=tier, budget=300, bounds=f'every ordered selection of {m} of {n} grid times (gaps >= 0.01)')(
        lambda H, n=n, m=m, kind=kind: saveat_all(H, 'any', n, m, kind))


def reject_missing(H, n):
    ts = increasing(H, 't', n, gap=0.1)
    s = H.scalar('s', -4, 4)
    for t in ts:
        H.assume((s - t).abs() > 0.01)
    sel = H.choose('with', 2)
    at = torch.stack([s] if sel == 0 else [ts[0], s])
    expect_raise(H, lambda: odeint(H.uf('f', 1), H.tensor('x', (1, 1)), torch.stack(ts), UStep(H, 1), save_at=at),
                 'a save_at time that is not in t_span was accepted')


def reject_repeated(H, n):
    ts = increasing(H, 't', n, gap=0.1)
    i = H.choose('i', n)
    j = H.choose('j', n)
    at = [ts[i], ts[j], ts[i]] if i != j else [ts[i], ts[i]]
    expect_raise(H, lambda: odeint(H.uf('f', 1), H.tensor('x', (1, 1)), torch.stack(ts), UStep(H, 1), save_at=torch.stack(at)),
                 'a repeated save_at time was accepted')


SUITE.case('save_at-missing', bounds='3 grid times (gaps >= 0.1), any requested time farther than 0.01 from all of them')(lambda H: reject_missing(H, 3))
SUITE.case('save_at-repeated', bounds='3 grid times, every repeated selection')(lambda H: reject_repeated(H, 3))


@SUITE.case('dict-state', bounds='state given as a dict of two tensors, 3 times, euler')
def _(H):
    x = {'a': H.tensor('a', (2,)), 'b': H.tensor('b', (1, 2))}
    ts = increasing(H, 't', 3)

    class S(UStep):
        def step(self, f, x, t, dt, k1=None, args=None):
            fx = f(t, x)
            return None, {k: x[k] + dt * fx[k] for k in x}, None
    fa, fb = H.uf('fa', 2), H.uf('fb', 2)

    def f(t, x):
        return {'a': fa(t, x['b']).reshape(2), 'b': fb(t, x['a']).reshape(1, 2)}
    te, sol = odeint(f, x, torch.stack(ts), S(H, 2))
    cur = x
    H.check_eq(te, torch.stack(ts), 'times')
    for k in range(3):
        for key in x:
            H.check_eq(sol[key][k], cur[key], f'dict state {key} at {k}')
        if k < 2:
            dt = ts[k + 1] - ts[k]
            fx = f(ts[k], cur)
            cur = {q: cur[q] + dt * fx[q] for q in cur}


@SUITE.case('uniform-linspace', bounds='uniform grid of 4 points built with torch.linspace, symbolic state, rk4 and euler')
def _(H):
    x = H.tensor('x', (1, 1))
    nm = ['euler', 'rk4'][H.choose('solver', 2)]
    f = H.uf('f', 1)
    tsp = torch.linspace(0, 1.5, 4, dtype=torch.float64)
    te, sol = odeint(f, x, tsp, nm)
    want = chain(H, lambda f, x, t, dt: rk_step(H, nm, f, t, x, dt), f, x, [H.const(Fr(k, 2)) for k in range(4)])
    H.check_eq(te, tsp, 'times')
    for k in range(4):
        H.check_eq(sol[k], want[k], f'{nm} at {k}')


def alias(H, name, kind):
    shape = (1, 2)
    x = H.tensor('x', shape)
    x0 = x.clone()
    ts = increasing(H, 't', 3)
    f, g, same = alias_field(H, kind, shape)
    te, sol = odeint(f, x, torch.stack(ts), name)
    want = chain(H, lambda f, x, t, dt: rk_step(H, name, f, t, x, dt), g, x0, ts)
    H.check_eq(x, x0, 'initial state modified')
    same(name)
    for k in range(3):
        H.check_eq(sol[k], want[k], f'{name}, {kind} field: state at t_span[{k}]')


def history(H, solver, named):
    """A call does not depend on the calls made before with the same solver object, nor changes what they returned."""
    sa, sb = (1, 2), (2, 1)
    f, g = H.uf('f', 2), H.uf('g', 1)
    s = str_to_solver(solver, torch.float64)
    ref = lambda f, x, t, dt: rk_step(H, solver, f, t, x, dt)
    x, y = H.tensor('x', sa), H.tensor('y', sb)
    ts, us = increasing(H, 't', 3, gap=0.01), increasing(H, 'u', 4, gap=0.01)
    te, sol = odeint(f, x, torch.stack(ts), solver if named else s)
    keep = sol.clone()
    ue, sol2 = odeint(g, y, torch.stack(us), solver if named else s)
    H.check_eq(sol, keep, 'the solution returned earlier changed')
    for k, w in enumerate(chain(H, ref, g, y, us)):
        H.check_eq(sol2[k], w, f'second call: state at t_span[{k}]')
    H.check_eq(ue, torch.stack(us), 'second call: times')
    # the same problem again, then only some of its points
    te, sol3 = odeint(f, x, torch.stack(ts), solver if named else s, save_at=torch.stack([ts[2], ts[0]]))
    H.check_eq(sol3[0], keep[2], 'third call: last state')
    H.check_eq(sol3[1], keep[0], 'third call: first state')
    H.check_eq(te, torch.stack([ts[2], ts[0]]), 'third call: times')


for nm in ('euler', 'midpoint', 'rk4'):
    for kind in ALIAS_FIELDS:
        SUITE.case(f'alias-{nm}-{kind}', bounds='3 times; field returning its own argument, a view of it or one fixed tensor')(
            lambda H, nm=nm, kind=kind: alias(H, nm, kind))
    for named in (True, False):
        SUITE.case(f'history-{nm}-{"name" if named else "object"}', bounds='three calls, other field, state shape and times')(
            lambda H, nm=nm, named=named: history(H, nm, named))


# larger structures
for solver, n, shape in [('any', 40, (1, 1)), ('euler', 12, (1, 1)), ('any', 3, (17, 3)), ('any', 3, (2, 1, 1, 2, 1)), ('rk4', 2, (17, 2))]:
    SUITE.case(f'large-{solver}-{n}-{"x".join(map(str, shape))}', bounds=f'{n} strictly increasing symbolic times in [-3,3], state shape {shape}, arbitrary f')(
        lambda H, s=solver, n=n, sh=shape: grid(H, s, n, sh))

contexts(SUITE, r'(grid-.*|alias.*|history.*)')
