"""C02: embedded error estimate and reusable slope."""
from symtorch.runner import Suite
from torchdyn.numerics.solvers.ode import str_to_solver
from .common import *

SUITE = Suite('C02')


def step(name, f, x, t, dt, k1=None):
    s = str_to_solver(name, torch.float64)
    s.sync_device_dtype(x, torch.stack([t, t + dt]))
    return s.step(f, x, t, dt, k1=k1)


def fsal(H, name, shape, given):
    x = H.tensor('x', shape)
    t, dt = H.scalar('t'), H.scalar('dt')
    f = H.uf('f', shape[-1])
    k1 = H.tensor('k1', shape) if given else None
    fn, x1, err, stages = step(name, f, x, t, dt, k1)
    H.check_eq(fn, f(t + dt, x1), f'{name}: returned slope is not f(t+dt, x_new)')
    ks = rk_stages(H, name, f, t, x, dt, k1)
    H.check(len(stages) == 7, 'seven stages')
    for i, k in enumerate(ks):
        H.check_eq(stages[i], k, f'{name}: stage {i + 1}')
    e = 0
    for w, k in zip(TABLEAUS[name]['e'], ks):
        e = e + dt * (fl(H, w) * k)
    H.check_eq(err, e, f'{name}: error estimate', tol=1e-9 if name == 'dopri5' else 1e-8)


for nm in ('dopri5', 'tsit5'):
    for given in (False, True):
        SUITE.case(f'{nm}-slope{"-k1" if given else ""}', bounds='one step, arbitrary f, state (1,2)')(
            lambda H, nm=nm, given=given: fsal(H, nm, (1, 2), given))


def embedded(H, name, use_time):
    ts = trees(5)
    cs = [H.scalar(f'c{i}', -1, 1) for i in range(len(ts))]
    t, dt = H.scalar('t', -1, 1), H.scalar('dt', -1, 1)
    x = H.const([[0.] * len(ts)])
    f = tree_field(H, ts, cs, use_time, t)
    fn, x1, err, _ = step(name, f, x, t, dt)
    nz = False
    for i, (n, g, ch) in enumerate(ts):
        if n <= 4:
            H.check_eq(err[0, i], 0 * dt, f'{name}: error of a problem of order {n} is not zero (tree {i})', tol=1e-10, box=1)
    # on order-5 problems the two solutions differ: for unit coefficients and step, some component is non-zero
    one = [H.const(1.) for _ in ts]
    f1 = tree_field(H, ts, one, False, None)
    e1 = step(name, f1, x, H.const(0.), H.const(1.))[2]
    big = False
    for i, (n, g, ch) in enumerate(ts):
        if n == 5:
            big = big | (e1[0, i].abs() > 1e-5)
    H.check(big, f'{name}: the error estimate vanishes on fifth-order problems')
    # the two solutions: x1 - err is exact up to order 4
    ex = tree_exact(H, ts, cs, dt)
    for i, (n, g, ch) in enumerate(ts):
        if n <= 4:
            H.check_eq(x1[0, i] - err[0, i], ex[i], f'{name}: embedded solution, tree {i}', tol=1e-10, box=1)


for nm in ('dopri5', 'tsit5'):
    for ut in (False, True):
        SUITE.case(f'{nm}-embedded{"-time" if ut else ""}', bounds='all rooted trees up to order 5; coefficients, t, dt symbolic')(
            lambda H, nm=nm, ut=ut: embedded(H, nm, ut))


def alias(H, name, kind, given):
    shape = (1, 2)
    x = H.tensor('x', shape)
    x0 = x.clone()
    t, dt = H.scalar('t'), H.scalar('dt')
    f, g, same = alias_field(H, kind, shape)
    k1 = f(t, x) if given else None
    fn, x1, err, stages = step(name, f, x, t, dt, k1)
    ks = rk_stages(H, name, g, t, x0, dt)
    H.check_eq(x, x0, f'{name}: the step modified its state')
    same(name)
    for i, k in enumerate(ks):
        H.check_eq(stages[i], k, f'{name}: stage {i + 1} of the {kind} field', tol=1e-9)
    H.check_eq(fn, g(t + dt, rk_step(H, name, g, t, x0, dt)), f'{name}: returned slope of the {kind} field', tol=1e-9)
    e = 0
    for w, k in zip(TABLEAUS[name]['e'], ks):
        e = e + dt * (fl(H, w) * k)
    H.check_eq(err, e, f'{name}: error estimate of the {kind} field', tol=1e-8)


def history(H, name):
    """Estimate and slope of a step do not depend on earlier steps of the solver, nor do later steps change earlier results."""
    f, g = H.uf('f', 2), H.uf('g', 1)
    x, t, dt = H.tensor('x', (1, 2)), H.scalar('t'), H.scalar('dt')
    s = str_to_solver(name, torch.float64)
    s.sync_device_dtype(x, torch.stack([t, t + dt]))
    a = s.step(f, x, t, dt)
    keep = [a[0].clone(), a[1].clone(), a[2].clone()] + [k.clone() for k in a[3]]
    y, u, du = H.tensor('y', (1, 1)), H.scalar('u'), H.scalar('du')
    b = s.step(g, y, u, du)
    ks = rk_stages(H, name, g, u, y, du, None)
    for i, k in enumerate(ks):
        H.check_eq(b[3][i], k, f'{name}: stage {i + 1} of the second step')
    H.check_eq(b[0], g(u + du, b[1]), f'{name}: slope of the second step')
    e = 0
    for w, k in zip(TABLEAUS[name]['e'], ks):
        e = e + du * (fl(H, w) * k)
    H.check_eq(b[2], e, f'{name}: error estimate of the second step', tol=1e-8)
    for p, q in zip([a[0], a[1], a[2]] + list(a[3]), keep):
        H.check_eq(p, q, f'{name}: a result of the first step changed')


for nm in ('dopri5', 'tsit5'):
    SUITE.case(f'{nm}-history', bounds='two steps of one solver object, arbitrary fields')(lambda H, nm=nm: history(H, nm))
    for kind in ALIAS_FIELDS:
        for given in (False, True):
            SUITE.case(f'{nm}-alias-{kind}{"-k1" if given else ""}', bounds='one step, field returning its own argument, a view of it or one fixed tensor')(
                lambda H, nm=nm, kind=kind, given=given: alias(H, nm, kind, given))
    for shape in ((3,), (2, 1, 2)):
        SUITE.case(f'{nm}-slope-{"x".join(map(str, shape))}', bounds=f'one step, arbitrary f, state {shape}')(
            lambda H, nm=nm, shape=shape: fsal(H, nm, shape, False))


def related_case(H, name, kind):
    """Slope, stages and estimate of a step right after one that shares some of its arguments."""
    f, g = H.uf('f', 2), H.uf('g', 2)
    x, t, dt = H.tensor('x', (1, 2), -2, 2), H.scalar('t', -3, 3), H.scalar('dt', -2, 2)
    s = str_to_solver(name, torch.float64)
    s.sync_device_dtype(x, torch.stack([t, t + dt]))
    first = s.step(f, x, t, dt)
    f2, x2, t2, dt2 = related(H, kind, f, g, x, t, dt, first[1])
    keep = x2.clone()
    fn, xn, err, stages = s.step(f2, x2, t2, dt2)
    ks = rk_stages(H, name, f2, t2, keep, dt2, None)
    for i, k in enumerate(ks):
        H.check_eq(stages[i], k, f'{name}: stage {i + 1} of a step after one of the same {kind}')
    H.check_eq(fn, f2(t2 + dt2, xn), f'{name}: slope of a step after one of the same {kind}')
    e = 0
    for w, k in zip(TABLEAUS[name]['e'], ks):
        e = e + dt2 * (fl(H, w) * k)
    H.check_eq(err, e, f'{name}: error estimate of a step after one of the same {kind}', tol=1e-8)


for nm in ('dopri5', 'tsit5'):
    for kind in RELATED:
        SUITE.case(f'{nm}-related-{kind}', bounds='two steps of one solver object that share arguments, arbitrary field')(lambda H, nm=nm, kind=kind: related_case(H, nm, kind))


# larger structures
for nm in ('dopri5', 'tsit5'):
    for shape in ((17, 3), (2, 2, 1, 2)):
        SUITE.case(f'{nm}-slope-{"x".join(map(str, shape))}', bounds=f'one step, arbitrary f, state {shape}')(lambda H, nm=nm, shape=shape: fsal(H, nm, shape, False))

contexts(SUITE, r'(.*-slope(-k1)?|.*-history|.*-related-(continued|again)|.*-embedded)')
