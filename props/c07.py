"""C07: dense output."""
from symtorch.runner import Suite
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.ode import str_to_solver
from torchdyn.numerics.interpolators import str_to_interp
from torchdyn.numerics.utils import dense_output
from .common import *

SUITE = Suite('C07')
# midpoint weights of Shampine's fourth-order interpolant for dopri5 (checked independently by the case dopri5-order4)
BMID = [float(s) for s in '0.10013431883002395 0 0.3918321794184259 -0.02982460176594817 0.05893268337240795 -0.04497888809104361 0.023904308236133973'.split()]


def quartic(x0, x1, f0, f1, xm, dt, th):
    """The quartic with the given end states, slopes and midpoint: cubic Hermite + correction vanishing at both ends."""
    def herm(u):
        return ((1 + 2 * u) * (1 - u) ** 2 * x0 + u * (1 - u) ** 2 * dt * f0
                + u ** 2 * (3 - 2 * u) * x1 + u ** 2 * (u - 1) * dt * f1)
    half = (x0 + x1) / 2 + dt * (f0 - f1) / 8
    return herm(th) + 16 * th ** 2 * (1 - th) ** 2 * (xm - half)


def defining(H, dim):
    """fit / evaluate alone."""
    x0, x1, f0, f1, xm = [H.tensor(n, (1, dim), -3, 3) for n in ('x0', 'x1', 'f0', 'f1', 'xm')]
    t0, dt, th = H.scalar('t0', -2, 2), H.scalar('dt', 0.1, 3), H.scalar('th', 0, 1)
    it = str_to_interp('4th', torch.float64)
    c = it.fit(dt, f0, f1, x0, x1, xm)
    ev = lambda u: it.evaluate(c, t0, t0 + dt, t0 + u * dt)
    H.check_eq(ev(H.const(0.)), x0, 'value at the start')
    H.check_eq(ev(H.const(1.)), x1, 'value at the end')
    H.check_eq(ev(H.const(0.5)), xm, 'value at the midpoint')
    H.check_eq(ev(th), quartic(x0, x1, f0, f1, xm, dt, th), 'value at an interior time (slopes at the ends, degree 4)')
    H.check_eq(ev(th), ev(th), 'evaluating twice')


SUITE.case('conditions', bounds='any end states, slopes, midpoint, step in [0.1, 3], 2 components')(lambda H: defining(H, 2))


def histories(H, npts, K, rejects, dim=1, sign=1):
    ts = increasing(H, 't', npts, gap=0.01)
    if sign < 0:
        ts = [-t for t in ts]
    mk = lambda nm: (lambda n, f, x, t, dt, k1=None: H.tensor(f'{nm}{n}', (1, dim), -2, 2))
    h = Histories(H, ts, K, rejects=rejects, interp=True, sign=sign, xnew=lambda n, f, x, t, dt, k1: H.tensor(f'x{n}', (1, dim), -2, 2),
                  slope=lambda n, f, x, t, dt: H.tensor(f'sl{n}', (1, dim), -2, 2))
    te, sol = odeint(h.field, h.x0, torch.stack(ts), h.solver, atol=h.atol, rtol=h.rtol, interpolator='4th')
    te = te.reshape(-1)
    H.reach(f'{len(h.accepted)} accepted')
    H.check(len(te) == npts and len(sol) == npts, f'{len(te)} times, {len(sol)} states for {npts} requested')
    H.check_eq(te, torch.stack(ts), 'returned times are not t_span')
    H.check_eq(sol[0], h.x0, 'first state')
    for i in range(1, npts):
        tk = ts[i] * sign
        for a in h.accepted:
            if H.decide(tk <= a['end']):
                break
        else:
            H.fail(f'requested time {i} is after the last accepted step')
        H.reach('interior' if H.decide(tk < a['end']) else 'boundary')
        xm = a['x0'] + a['dt'] * sum(fl(H, b) * k for b, k in zip(BMID, a['stages']) if b)
        th = (tk - a['t0']) / a['dt']
        want = quartic(a['x0'], a['x'], a['k1'], a['slope'], xm, a['dt'], th) if H.decide(tk < a['end']) else a['x']
        H.check_eq(sol[i], want, f'state at requested time {i} is not the interpolant of the step containing it', tol=1e-7)


SUITE.case('span-3pts-2steps', bounds='3 times, at most 2 steps, any history', budget=240)(lambda H: histories(H, 3, 2, 1))
SUITE.case('span-4pts-2steps', bounds='4 times, at most 2 steps, any history', budget=240)(lambda H: histories(H, 4, 2, 0))
SUITE.case('span-3pts-3steps', bounds='3 times, at most 3 steps, any history', budget=240, shards=2)(lambda H: histories(H, 3, 3, 1))
SUITE.case('span-4pts-4steps', tier='thorough', bounds='4 times, at most 4 steps, at most 2 rejected', budget=2400, shards=8, max_paths=60000)(lambda H: histories(H, 4, 4, 2))


def dopri(H, maxorder):
    """Real dopri5 stages: the interpolant is exact for every term of order <= 4 of the solution."""
    ts_ = trees(maxorder)
    n = len(ts_)
    coefs = [H.scalar(f'c{i}', 0.5, 2) for i in range(n)]
    tree = tree_field(H, ts_, coefs)
    F = lambda t, z, args=None: tree(t, z - 1)
    real = str_to_solver('dopri5', torch.float64)
    d, th = H.scalar('step', 0.1, 2), H.scalar('th', 0.05, 0.95)
    one = H.const(1.) * torch.ones(1, n, dtype=torch.float64)
    st = {}

    def script(k, f, y, t, dt, k1):
        if k == 0:
            sol.max_factor = (d / dt).reshape(1)
            return F(t, one), one, 0 * one + 0.5, tuple([one * 0] * 7)
        r = real.step(F, one, t, dt, k1=F(t, one))
        return r[0], r[1], 0 * one, r[3]

    sol = Script(H, script, safety=float('inf'), bound=2)
    ts = torch.stack([H.const(0.), H.const(0.5) + th * d, H.const(0.5) + d])
    real.sync_device_dtype(one, ts)
    te, xs = odeint(lambda t, z, args=None: 0.04 + 0 * z, one, ts, sol, atol=1., rtol=0., interpolator='4th')
    H.check(len(xs) == 3, 'number of returned states')
    ex = tree_exact(H, ts_, coefs, th * d)
    for i in range(n):
        H.check_eq(xs[1][0, i] - 1, ex[i], f'interpolated solution of tree {i} (order {ts_[i][0]})', tol=1e-6)


SUITE.case('dopri5-order4', bounds='one dopri5 step of any size in [0.1, 2] on the elementary-weight system of all trees up to order 4, any interior time',
           budget=240)(lambda H: dopri(H, 4))


def dense(H, n, dim, k):
    ts = increasing(H, 't', n, gap=0.05)
    xs = H.tensor('x', (n, 1, dim), -2, 2)
    t = torch.stack(ts)
    out = dense_output(xs, t, t)
    H.check(tuple(out.shape) == (n, 1, dim), f'shape {tuple(out.shape)}')
    H.check_eq(out, xs, 'dense output does not reproduce the trajectory at its own times')
    # in between: linear trajectories are reproduced at every time
    a, b = H.scalar('a', -2, 2), H.scalar('b', -2, 2)
    lin = torch.stack([(a + b * s).reshape(1, 1) for s in ts])
    q = H.scalar('q', -3, 3)
    H.assume((q >= ts[0]) & (q <= ts[-1]))
    out = dense_output(lin, t, torch.stack([q]))
    H.check_eq(out.reshape(()), a + b * q, 'dense output of a linear trajectory')


SUITE.case('dense-3', bounds='3 times, 2 components, any trajectory; any linear trajectory at any time', budget=240)(lambda H: dense(H, 3, 2, 1))
SUITE.case('dense-4', bounds='4 times', budget=240)(lambda H: dense(H, 4, 1, 1))

contexts(SUITE, r'conditions|span-3pts-2steps|dopri5-order4|dense-3')
