"""C01: explicit ODE steppers are the Runge-Kutta methods they are named after."""
import torch
from symtorch.runner import Suite
from torchdyn.numerics.solvers.ode import str_to_solver
from torchdyn.numerics import Euler, RungeKutta4, Tsitouras45, DormandPrince45
from torchdyn.core import NeuralODE, ODEProblem
from .common import *

SUITE = Suite('C01')
NAMES = ['euler', 'midpoint', 'rk4', 'dopri5', 'tsit5']
ALIAS = {'rk-4': 'rk4', 'RungeKutta4': 'rk4', 'DormandPrince45': 'dopri5', 'DormandPrince5': 'dopri5',
         'Tsitouras45': 'tsit5', 'Tsitouras5': 'tsit5'}


def prep(H, name, x, t, dt):
    s = str_to_solver(name, torch.float64)
    s.sync_device_dtype(x, torch.stack([t, t + dt]))
    return s


def uf_case(H, name, shape, given, key=None):
    """One step on an arbitrary vector field equals the published method."""
    x = H.tensor('x', shape)
    t, dt = H.scalar('t'), H.scalar('dt')
    f = H.uf('f', shape[-1])
    k1 = H.tensor('k1', shape) if given else None
    s = prep(H, key or name, x, t, dt)
    x1 = s.step(f, x, t, dt, k1=k1)[1]
    ref = rk_step(H, name, f, t, x, dt, k1)
    H.check_eq(x1, ref, f'{name} step', tol=1e-9)
    if name == 'tsit5':   # decimals: the equality above is within rounding; the order conditions are below
        H.reach('tsit5')


for nm in NAMES:
    for shape in ([(1, 2)] if nm in ('dopri5', 'tsit5') else [(1, 2), (3,), (2, 1, 2)]):
        for given in (False, True):
            SUITE.case(f'{nm}-field-{"x".join(map(str, shape))}{"-k1" if given else ""}',
                       bounds=f'one step, arbitrary f, state shape {shape}')(
                lambda H, nm=nm, shape=shape, given=given: uf_case(H, nm, shape, given))
for al, nm in ALIAS.items():
    SUITE.case(f'alias-{al}', bounds='one step, arbitrary f, state (1,1)')(lambda H, al=al, nm=nm: uf_case(H, nm, (1, 1), False, al))


def order_case(H, name, use_time):
    """All order conditions up to the advertised order (elementary weights of every rooted tree)."""
    p = TABLEAUS[name]['order']
    ts = trees(p)
    cs = [H.scalar(f'c{i}', -1, 1) for i in range(len(ts))]
    t, dt = H.scalar('t', -1, 1), H.scalar('dt', -1, 1)
    x = H.const([[0.] * len(ts)])
    f = tree_field(H, ts, cs, use_time, t)
    s = prep(H, name, x, t, dt)
    x1 = s.step(f, x, t, dt)[1]
    ex = tree_exact(H, ts, cs, dt)
    for i in range(len(ts)):
        H.check_eq(x1[0, i], ex[i], f'{name}: order condition of tree {i} (order {ts[i][0]}, children {ts[i][2]})', tol=1e-11, box=1)
    H.check(s.order == p, f'{name}: advertised order {s.order}')


for nm in NAMES:
    for ut in (False, True):
        SUITE.case(f'{nm}-order{"-time" if ut else ""}', bounds='all rooted trees up to the advertised order; field coefficients, t, dt symbolic in [-1,1]')(
            lambda H, nm=nm, ut=ut: order_case(H, nm, ut))


def dtype_case(H, name, how):
    """A double-precision problem is integrated with double-precision coefficients."""
    H.exact32()
    p = TABLEAUS[name]['order']
    ts = trees(p)
    cs = [H.scalar(f'c{i}', -1, 1) for i in range(len(ts))]
    t, dt = H.scalar('t', -1, 1), H.scalar('dt', 0.125, 1)
    x = H.const([[0.] * len(ts)])
    f0 = tree_field(H, ts, cs)

    class F(nn.Module):
        on = True

        def forward(self, t, x, args=None):
            return f0(t, x) if self.on else 0 * x
    if how == 'str':
        s = str_to_solver(name, x.dtype)
        s.sync_device_dtype(x, torch.stack([t, t + dt]))
        x1 = s.step(F(), x, t, dt)[1]
    elif how == 'reused':
        # the same solver served a single-precision problem before
        s = str_to_solver(name, torch.float64)
        s.sync_device_dtype(torch.zeros(1, 1, dtype=torch.float32), torch.zeros(2, dtype=torch.float32))
        s.sync_device_dtype(x, torch.stack([t, t + dt]))
        x1 = s.step(F(), x, t, dt)[1]
    elif how in ('NeuralODE', 'ODEProblem', 'NeuralODE-reused'):
        g = F()
        m = (ODEProblem if how == 'ODEProblem' else NeuralODE)(g, solver=name, sensitivity='autograd')
        if how == 'NeuralODE-reused':
            g.on = False
            m(torch.zeros(1, len(ts), dtype=torch.float32), torch.tensor([0., 1e-7]))
            g.on = True
        if name in ('dopri5', 'tsit5'):
            # one step on the solver the model integrates with, after a call on double data
            g.on = False
            m(H.const([[0.] * len(ts)]), H.const([0., 1e-7]))
            g.on = True
            x1 = m.solver.step(g, x, t, dt)[1]
        else:
            x1 = m(x, torch.stack([t, t + dt]))[1][-1]
    ex = tree_exact(H, ts, cs, dt)
    for i in range(len(ts)):
        H.check_eq(x1[0, i], ex[i], f'{name} via {how}: tree {i} not at double precision', tol=1e-11, box=1)


for nm in ('rk4', 'dopri5', 'tsit5'):
    for how in ('str', 'NeuralODE', 'ODEProblem', 'reused', 'NeuralODE-reused'):
        SUITE.case(f'{nm}-double-{how}', bounds='float64 state; single-precision constants kept at their float32 value; trees up to the advertised order')(
            lambda H, nm=nm, how=how: dtype_case(H, nm, how))


def alias_case(H, name, kind, given):
    """The step neither modifies its inputs nor the values the field returned, whatever memory they share."""
    shape = (1, 2)
    x = H.tensor('x', shape)
    x0 = x.clone()
    t, dt = H.scalar('t'), H.scalar('dt')
    t0, dt0 = t.clone(), dt.clone()
    f, g, same = alias_field(H, kind, shape)
    k1 = f(t, x) if given else None
    s = prep(H, name, x, t, dt)
    x1 = s.step(f, x, t, dt, k1=k1)[1]
    H.check_eq(x1, rk_step(H, name, g, t0, x0, dt0, None), f'{name}: step of the {kind} field', tol=1e-9)
    H.check_eq(x, x0, f'{name}: the step modified its state')
    H.check_eq(t, t0, f'{name}: the step modified its time')
    H.check_eq(dt, dt0, f'{name}: the step modified its step size')
    same(name)


for nm in NAMES:
    for kind in ALIAS_FIELDS:
        for given in (False, True):
            SUITE.case(f'{nm}-alias-{kind}{"-k1" if given else ""}', bounds='one step, field returning its own argument, a view of it or one fixed tensor')(
                lambda H, nm=nm, kind=kind, given=given: alias_case(H, nm, kind, given))


def history_case(H, name):
    """A step does not depend on the steps the same solver object made before."""
    f, g = H.uf('f', 2), H.uf('g', 1)
    xa, ta, da = H.tensor('xa', (1, 2)), H.scalar('ta'), H.scalar('da')
    s = prep(H, name, xa, ta, da)
    ra = s.step(f, xa, ta, da)
    xb, tb, db = H.tensor('xb', (2, 1)), H.scalar('tb'), H.scalar('db')
    s.sync_device_dtype(xb, torch.stack([tb, tb + db]))
    h = name in ('dopri5', 'tsit5')
    xb = xb[:1] if h else xb
    keep = ra[1].clone()
    x1 = s.step(g, xb, tb, db)[1]
    H.check_eq(x1, rk_step(H, name, g, tb, xb, db, None), f'{name}: second step of a solver (other field, shape and step size)', tol=1e-9)
    H.check_eq(ra[1], keep, f'{name}: the state returned earlier changed')
    # and once more with the first step's slope as k1
    if h:
        x2 = s.step(f, ra[1], ta + da, da, k1=ra[0])[1]
        H.check_eq(x2, rk_step(H, name, f, ta + da, ra[1], da, ra[0]), f'{name}: step continuing with the returned slope', tol=1e-9)


for nm in NAMES:
    SUITE.case(f'{nm}-history', bounds='two or three steps of one solver object, arbitrary fields and step sizes')(lambda H, nm=nm: history_case(H, nm))


def related_case(H, name, kind):
    """A step right after one that shares some of its arguments."""
    f, g = H.uf('f', 2), H.uf('g', 2)
    x, t, dt = H.tensor('x', (1, 2), -2, 2), H.scalar('t', -3, 3), H.scalar('dt', -2, 2)
    s = prep(H, name, x, t, dt)
    out = s.step(f, x, t, dt)[1]
    f2, x2, t2, dt2 = related(H, kind, f, g, x, t, dt, out)
    keep, keep2 = out.clone(), x2.clone()
    got = s.step(f2, x2, t2, dt2)[1]
    H.check_eq(got, rk_step(H, name, f2, t2, keep2, dt2, None), f'{name}: step after one of the same {kind}', tol=1e-9)
    H.check_eq(out, keep, f'{name}: the state returned earlier changed')
    H.check_eq(x2, keep2, f'{name}: the input state changed')


for nm in NAMES:
    for kind in RELATED:
        SUITE.case(f'{nm}-related-{kind}', bounds='two steps of one solver object that share arguments, arbitrary field')(lambda H, nm=nm, kind=kind: related_case(H, nm, kind))


# larger structures
for nm in NAMES:
    for shape in ((17, 3), (2, 2, 2, 3)):
        SUITE.case(f'{nm}-field-{"x".join(map(str, shape))}', bounds=f'one step, arbitrary f, state shape {shape}')(lambda H, nm=nm, shape=shape: uf_case(H, nm, shape, False))

contexts(SUITE, r'(.*-field-1x2(-k1)?|.*-history|.*-related-(samestate|continued|again)|.*-alias-view)')
