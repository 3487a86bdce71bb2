"""C06: the step-size controller and the starting step."""
from symtorch.runner import Suite
from torchdyn.numerics import odeint, odeint_hybrid
from torchdyn.numerics.utils import adapt_step, init_step, hairer_norm
from .common import *

SUITE = Suite('C06', assumptions=['in the loop cases the size of the first step is an arbitrary number in [0.01, 8]'])


def powcheck(H, f, s, e, order, msg):
    """f == s / e^(1/order), for positive f: f^order * e == s^order."""
    H.check_eq(f ** order * e, s ** order, msg)


def expected(H, got, dt, e, safety, mn, mx, order, msg, direct=False):
    """got == dt * min(mx, max(safety/e^(1/order), mn or 1))."""
    if H.decide(e == 0):
        H.reach('zero error')
        H.check_eq(got, dt * mx, msg + ' (zero error)')
        return
    lo = torch.ones_like(mn) if H.decide(e < 1) else mn
    if order > 2 and direct:
        H.check_eq(got, dt * torch.min(mx, torch.max(safety / e ** (1. / order), lo)), msg)
        return
    # the raw factor r = safety / e^(1/order) compared with a bound b > 0:  r <= b  iff  safety^order <= b^order e
    so = safety ** order
    if H.decide(so <= mx ** order * e):
        H.margin(so, mx ** order * e)
        if H.decide(so >= lo ** order * e):
            H.margin(so, lo ** order * e)
            H.reach('factor in bounds')
            H.check(got > 0, msg + ' (sign)')
            powcheck(H, got / dt, safety, e, order, msg)
        elif H.decide(lo <= mx):
            H.reach('lower bound')
            H.check_eq(got, dt * lo, msg + ' (lower bound)')
        else:
            H.check_eq(got, dt * mx, msg + ' (upper bound)')
    else:
        H.reach('upper bound')
        H.check_eq(got, dt * mx, msg + ' (upper bound)')


def controller(H, order):
    dt, e = H.scalar('dt', 0.01, 10), H.scalar('e', 0, 20)
    safety, mn, mx = H.scalar('safety', 0.1, 1), H.scalar('min_factor', 0.01, 0.99), H.scalar('max_factor', 1, 20)
    got = adapt_step(dt, e, safety, mn, mx, order)
    expected(H, got, dt, e, safety, mn, mx, order, 'proposed step')
    if H.decide(e < 1):
        H.check(got >= dt, 'an accepted step with error below one shrinks the step')
    if H.decide(e > 1):
        H.check(got <= dt, 'a rejected step grows the step')
    H.check((got <= dt * mx) & (got >= dt * mn), 'factor outside its bounds')


for o in (1, 2, 5):
    SUITE.case(f'adapt_step-{o}', bounds=f'any dt, error in [0, 20], safety in [0.1, 1], bounds around 1; order {o}', budget=200)(lambda H, o=o: controller(H, o))


def loop(H, order, hybrid=False, steps=2, shape=(1, 1), free=True):
    """The sizes of successive steps inside the loop, far from the end of t_span."""
    atol = H.const(1.)
    safety, mn, mx = H.scalar('safety', 0.5, 1), H.scalar('min_factor', 0.05, 0.9), H.scalar('max_factor', 1.1, 10)
    if not free:
        safety, mn, mx = H.const(0.9), H.const(0.2), H.const(10.)
    st = []
    numel = 1
    for s in shape:
        numel *= s

    def script(n, f, y, t, dt, k1):
        if st:
            p = st[-1]
            e = torch.sqrt((p['e'] * p['e']).mean()) if numel > 1 else p['e'].abs().reshape(())
            expected(H, dt, p['dt'], e, safety, mn, mx, order, f'size of step {n}', True)
        if n == steps:
            H.truncate('steps')
        e = H.tensor(f'err{n}', shape, -4, 4)
        st.append(dict(dt=dt, e=e))
        return y * 0, y, e, (y * 0,) * 7

    solver = Script(H, script, order=order, safety=safety.reshape(1), min_factor=mn.reshape(1), max_factor=mx.reshape(1))
    x = H.const(1.) * torch.ones(shape, dtype=torch.float64)
    ts = H.const([0., 1000000.])
    with StartStep(H):
        if hybrid:
            odeint_hybrid(lambda t, y: 0 * y, x, ts, 3, solver, [], atol=1., rtol=0.)
        else:
            odeint(lambda t, y, args=None: 0 * y, x, ts, solver, atol=1., rtol=0.)


for o in (1, 2, 5):
    SUITE.case(f'loop-{o}', bounds=f'sizes of 2 successive steps, any errors up to 4 times the tolerance, order {o}', budget=300)(
        lambda H, o=o: loop(H, o))
    SUITE.case(f'loop-hybrid-{o}', bounds='the same in odeint_hybrid', budget=300)(lambda H, o=o: loop(H, o, True))
SUITE.case('loop-1-3', tier='thorough', bounds='3 successive steps', budget=900)(lambda H: loop(H, 1, steps=3))
SUITE.case('loop-1-vec', bounds='first step, errors of two components', budget=300)(lambda H: loop(H, 1, steps=1, shape=(1, 2), free=False))


def hairer(H, shape):
    x = H.tensor('x', shape, -3, 3)
    n = hairer_norm(x)
    H.check(n >= 0, 'norm is negative')
    H.check_eq(n * n, (x * x).reshape(-1).mean(), 'hairer_norm is not the root mean square')


for s in [(1,), (2,), (1, 3), (2, 2)]:
    SUITE.case('norm-' + 'x'.join(map(str, s)), bounds=f'shape {s}')(lambda H, s=s: hairer(H, s))


def rms(H, v):
    v = v.reshape(-1)
    if len(v) == 1:
        return v[0].abs()
    return torch.sqrt((v * v).mean())


def start(H, shape, order, sym_tol=True, via='init_step'):
    """The starting step of Hairer, Norsett, Wanner (II.4), with the constants documented in the code."""
    x = H.tensor('x', shape, -2, 2)
    atol = H.scalar('atol', 0.1, 1) if sym_tol else H.const(0.5)
    rtol = H.scalar('rtol', 0.1, 1) if sym_tol else H.const(0.25)
    t0 = H.scalar('t0', -1, 1)
    F = H.uf('f', shape[-1], lo=-2, hi=2)
    f0 = F(t0, x)
    scale = atol + rtol * x.abs()
    d0, d1 = rms(H, x / scale), rms(H, f0 / scale)
    if via == 'init_step':
        dt = init_step(F, F(t0, x), x, t0, order, atol, rtol)
    else:
        seen = []

        def script(n, f, y, t, d, k1):
            seen.append(d)
            raise Stop

        class Stop(Exception):
            pass
        try:
            odeint(lambda t, y, args=None: F(t, y), x, torch.stack([t0, t0 + 100000]), Script(H, script, order=order), atol=atol, rtol=rtol)
        except Stop:
            pass
        dt = seen[0]
    H.check(dt > 0, 'starting step is not positive')
    H.margin(d0, 1e-5)
    H.margin(d1, 1e-5)
    if H.decide((d0 < 1e-5) | (d1 < 1e-5)):
        h0 = H.const(1e-6)
    else:
        h0 = d0 / d1 * 0.01
    H.check(dt <= 100 * h0 * (1 if H.symbolic else 1 + 1e-9), 'starting step exceeds 100 times its first guess')
    f1 = F(t0 + h0, x + h0 * f0)
    d2 = rms(H, (f1 - f0) / scale) / h0
    if H.decide((d1 <= 1e-15) & (d2 <= 1e-15)):
        h1 = torch.max(H.const(1e-6), h0 * 0.001)
        H.check_eq(dt, torch.min(100 * h0, h1), 'starting step (no derivative)')
        return
    d = d2 if H.decide(d2 > d1) else d1
    if order > 1:
        H.check_eq(dt, torch.min(100 * h0, (0.01 / d) ** (1. / (order + 1))), 'starting step')
        return
    H.margin(d * (100 * h0) ** (order + 1), 0.01)
    if H.decide(d * (100 * h0) ** (order + 1) <= 0.01):
        H.reach('limited by 100 h0')
        H.check_eq(dt, 100 * h0, 'starting step (limited)')
    else:
        H.reach('by derivatives')
        H.check_eq(d * dt ** (order + 1), H.const(0.01), 'starting step: (0.01 / max(d1, d2))^(1/(order+1))')


SUITE.case('start-1', bounds='1-d state, any field, tolerances; order 1', budget=300)(lambda H: start(H, (1, 1), 1))
SUITE.case('start-2', bounds='1-d state, any field, tolerances; order 2', budget=300)(lambda H: start(H, (1, 1), 2))
SUITE.case('start-5', bounds='1-d state, any field, tolerances fixed; order 5', budget=300)(lambda H: start(H, (1, 1), 5, False))
SUITE.case('start-odeint', bounds='first step of odeint; 1-d state, any field', budget=300)(lambda H: start(H, (1, 1), 1, True, 'odeint'))

contexts(SUITE, r'adapt_step-2|loop-(hybrid-)?1(-vec)?|norm-2|start-(2|odeint)')
