"""C05: a step is accepted iff its scaled error norm is at most one; what the loop does afterwards."""
from symtorch.runner import Suite
from torchdyn.numerics import odeint, odeint_hybrid
from torchdyn.core import ODEProblem, NeuralODE
from .common import *
from . import c04

SUITE = Suite('C05', assumptions=['in the accept cases the size of the first step is an arbitrary number in [0.01, 8] instead of the result of the starting-step routine (decided by C06)'])


def norm2(H, e, x, xn, atol, rtol):
    """Mean square of the scaled error."""
    s = 0
    e, x, xn = e.reshape(-1), x.reshape(-1), xn.reshape(-1)
    for i in range(len(e)):
        m = torch.max(x[i].abs(), xn[i].abs())
        r = e[i] / (atol + rtol * m)
        s = s + r * r
    return s / len(e)


def m_simple(shape, semi):
    return all(s == 1 for s in shape) and semi is None


def accept(H, shape, semi=None, run='odeint', simple_tol=False, second=False):
    x = H.tensor('x', shape, -2, 2)
    atol = H.scalar('atol', 0.01, 1)
    rtol = H.const(0.) if simple_tol == 'abs' else H.scalar('rtol', 0.01, 1)
    t0 = H.scalar('t0', -1, 1)
    st = {}

    def script(n, f, y, t, dt, k1):
        k = k1 if k1 is not None else f(t, y)
        if n == 0:
            H.check_eq(t, t0, 'start time')
            H.check_eq(y, x, 'start state')
            H.check_eq(k, f(t, y), 'initial slope')
            H.check(dt > 0, 'the first step is not positive')
            st.update(t=t, dt=dt, k=k)
            st['xn'] = H.tensor('xnew', shape, -2, 2)
            st['e'] = H.tensor('err', shape, -2, 2)
            st['sl'] = H.tensor('slope', shape, -2, 2)
            return st['sl'], st['xn'], st['e'], tuple([k] * 7)
        sl = slice(None) if semi is None else slice(0, semi)
        m = norm2(H, st['e'][sl], x[sl], st['xn'][sl], atol, rtol)
        H.margin(m, 1)
        if H.decide(m <= 1):
            H.reach('accepted')
            H.check_eq(t, st['t'] + st['dt'], 'a step with scaled error norm <= 1 was not accepted (time of the next step)')
            H.check_eq(y, st['xn'], 'state after an accepted step')
            H.check_eq(k, st['sl'], 'slope after an accepted step')
        else:
            H.reach('rejected')
            H.check_eq(t, st['t'], 'a step with scaled error norm > 1 was not rejected (time of the next step)')
            H.check_eq(y, x, 'state after a rejected step')
            H.check_eq(k, st['k'], 'slope after a rejected step')
            if m_simple(shape, semi):
                H.check((dt > 0) & (dt < st['dt']), 'a rejected step is not retried with a smaller one')
        H.truncate('second step')

    solver = Script(H, script, safety=0.9)
    ts = torch.stack([t0, t0 + 10])
    field = lambda t, y, args=None: 0.04 * H.const(1.) + 0 * y
    sn = (False, None) if semi is None else (True, semi)
    with StartStep(H):
        if run == 'odeint':
            odeint(field, x, ts, solver, atol=atol, rtol=rtol, seminorm=sn)
        elif run == 'hybrid':
            odeint_hybrid(field, x, ts, 3, solver, [], atol=atol, rtol=rtol, seminorm=sn)
        elif run == 'interp':
            odeint(field, x, ts, solver, atol=atol, rtol=rtol, seminorm=sn, interpolator='4th')
        elif run == 'problem':
            ODEProblem(field, solver, atol=atol, rtol=rtol).odeint(x, ts)
        else:
            NeuralODE(field, solver, sensitivity=run, atol=atol, rtol=rtol).trajectory(x, ts) if run == 'autograd' else \
                NeuralODE(field, solver, sensitivity=run, atol=atol, rtol=rtol)(x, ts)


def boundary(H, e, atol, rej):
    """The boundary value itself, in exactly representable numbers: an error equal to the tolerance is accepted."""
    st = {}

    def script(n, f, y, t, dt, k1):
        if n == 0:
            st.update(t=t, dt=dt)
            return y * 0, y + 1, H.const([[e]]), (y * 0,) * 7
        H.check_eq(t, st['t'] if rej else st['t'] + st['dt'], 'error equal to the tolerance must be accepted, larger ones rejected')
        H.truncate('second step')

    odeint(lambda t, y, args=None: 0.04 + 0 * y, H.const([[1.]]), H.const([0., 10.]), Script(H, script, safety=0.9), atol=atol, rtol=0.)


for e, a, r in [(1., 1., False), (-2., 2., False), (1.0001, 1., True), (-0.50001, 0.5, True)]:
    SUITE.case(f'boundary-{e}', bounds='error at and just above the tolerance')(lambda H, e=e, a=a, r=r: boundary(H, e, a, r))
B = 'one step with any error, new state and slope, tolerances in [0.01, 1], then the start of the next step; states of shape {}'
for shape in [(1, 1), (1, 2), (2, 1)]:
    SUITE.case('accept-' + 'x'.join(map(str, shape)), bounds=B.format(shape), budget=300)(lambda H, s=shape: accept(H, s))
SUITE.case('accept-semi', bounds=B.format((2, 1)) + ', seminorm over the first entry', budget=300)(lambda H: accept(H, (2, 1), semi=1))
SUITE.case('accept-semi3', bounds=B.format((3,)) + ', seminorm over the first two entries', budget=300)(lambda H: accept(H, (3,), semi=2))
SUITE.case('accept-interp', bounds=B.format((1, 1)), budget=300)(lambda H: accept(H, (1, 1), run='interp'))
SUITE.case('accept-hybrid', bounds=B.format((1, 1)), budget=300)(lambda H: accept(H, (1, 1), run='hybrid'))
SUITE.case('accept-hybrid-semi', bounds=B.format((2, 1)), budget=300)(lambda H: accept(H, (2, 1), semi=1, run='hybrid'))
for r in ['problem', 'autograd', 'adjoint', 'interpolated_adjoint']:
    SUITE.case('accept-' + r, bounds=B.format((1, 1)) + ' through ' + r, budget=300)(lambda H, r=r: accept(H, (1, 1), run=r))
SUITE.case('histories-2pts', budget=240, bounds='2 times, 4 steps, any history')(lambda H: c04.run(H, 2, 4, 4))
SUITE.case('histories-3pts', budget=240, bounds='3 times, 4 steps, at most 1 rejected', shards=2)(lambda H: c04.run(H, 3, 4, 1))
SUITE.case('histories-3pts-5', budget=1200, tier='thorough', bounds='3 times, 5 steps, at most 3 rejected', shards=8)(lambda H: c04.run(H, 3, 5, 3))

contexts(SUITE, r'accept-(1x2|semi|interp|hybrid|problem)|histories-2pts')
