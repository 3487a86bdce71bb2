"""C25: quasi-Newton root finding steps, updates and stops as specified."""
from symtorch.runner import Suite

from torchdyn.numerics.solvers.root import BroydenFull, BroydenBad, NaiveSearch, LineSearchArmijo, TerminationCondition, root_find
from .common import *

SUITE = Suite('C25', assumptions=['the Jacobian at the initial guess is invertible'])
METHODS = {'broyden': BroydenFull, 'broyden_fast': BroydenBad}


class G:
    """Any differentiable residual of a row; records where it is evaluated."""
    def __init__(self, H, d, evals=99):
        self.H, self.d, self.at, self.evals = H, d, [], evals
        self.u = H.uf('g', d, time=False)

    def __call__(self, z):
        if z.ndim == 2:
            self.at.append(z.detach().clone())
            if len(self.at) > self.evals:
                self.H.truncate('more residual evaluations')
        return self.u(None, z)

    def value(self, row):
        return torch.stack([self.H.ufs(f'g_{i}', list(row)) for i in range(self.d)])

    def jac(self, row):
        return torch.stack([torch.stack([self.H.ufs(f'g_{i}.d{j}', list(row)) for j in range(self.d)]) for i in range(self.d)])


def method(H, name):
    """An instance with its regularisation constants replaced by any small positive numbers."""
    s = METHODS[name]()
    for k, v in list(vars(s).items()):
        if isinstance(v, float):
            setattr(s, k, H.scalar('reg_' + str(len(k)), 1e-9, 1e-3))
    return s


def regs(s):
    return [v for v in vars(s).values() if isinstance(v, torch.Tensor)]


# ---------------------------------------------------------------- one step
def step(H, name, batch, d):
    g = G(H, d)
    z0, J, alpha = H.tensor('z', (batch, d), -2, 2), H.tensor('J', (batch, d, d), -2, 2), H.scalar('alpha', -2, 2)
    g0 = H.tensor('g0', (batch, d), -2, 2)
    z, dz, g1, J1 = METHODS[name]().step(g=g, z0=z0.clone(), J_inv=J.clone(), geval_old=g0.clone(), alpha=alpha)
    want = torch.stack([J[b] @ g0[b] for b in range(batch)])
    H.check_shape(z, (batch, d), 'new iterate')
    H.check_eq(dz, want, 'direction is the inverse Jacobian times the residual')
    H.check_eq(z, z0 - alpha * want, 'new iterate')
    H.check_eq(g1, torch.stack([g.value(z[b]) for b in range(batch)]), 'residual at the new iterate')
    H.check_shape(J1, (batch, d, d), 'new inverse Jacobian')
    H.check(len(g.at) == 1, 'one residual evaluation per step')


def update(H, name, batch, d):
    s = method(H, name)
    J = H.tensor('J', (batch, d, d), -2, 2)
    Dg, Dz = H.tensor('Dg', (batch, d), -2, 2), H.tensor('Dz', (batch, d), -2, 2)
    J1 = s.update_jacobian(Dg, Dz, J.clone())
    H.check_shape(J1, (batch, d, d), 'new inverse Jacobian')
    H.check(len(regs(s)) == 1, 'one regularisation constant')
    eps, = regs(s)
    for b in range(batch):
        num = Dz[b] - J[b] @ Dg[b]
        w = J[b].T @ Dz[b] if name == 'broyden' else Dg[b]      # rows of the rank-one correction
        den = (w * Dg[b]).sum() + eps
        # secant equation up to the regularisation: J1 Dg - Dz = -(eps / (den)) num
        H.check_eq((J1[b] @ Dg[b] - Dz[b]) * den, -eps * num, 'secant equation up to the regularisation')
        # least change: nothing changes orthogonally to w
        for i in range(d):
            for j in range(i):
                H.check_eq((J1[b] - J[b])[:, i] * w[j], (J1[b] - J[b])[:, j] * w[i], 'the update is not of rank one along its direction')


def full(H, name, batch, d):
    """Within a step the update uses the differences of iterates and residuals."""
    g = G(H, d)
    z0, J = H.tensor('z', (batch, d), -2, 2), H.tensor('J', (batch, d, d), -2, 2)
    alpha = H.scalar('alpha', 0.01, 2)
    g0 = torch.stack([g.value(z0[b]) for b in range(batch)])
    s = METHODS[name]()
    z, dz, g1, J1 = s.step(g=g, z0=z0, J_inv=J, geval_old=g0, alpha=alpha)
    H.check_eq(J1, METHODS[name]().update_jacobian(g1 - g0, z - z0, J), 'update within the step')


for name in METHODS:
    for b, d in ((1, 1), (2, 1), (1, 2), (2, 2), (1, 3)):
        SUITE.case(f'step-{name}-{b}x{d}', bounds='any residual, iterate, inverse Jacobian, step length')(lambda H, a=(name, b, d): step(H, *a))
        if (b, d) != (1, 3):
            SUITE.case(f'update-{name}-{b}x{d}', bounds='any differences and inverse Jacobian, any small regularisation')(lambda H, a=(name, b, d): update(H, *a))
    SUITE.case(f'update-{name}-1x3', bounds='any differences and inverse Jacobian, any small regularisation', tier='thorough')(lambda H, a=(name, 1, 3): update(H, *a))
    for b, d in ((1, 1), (2, 2)):
        SUITE.case(f'inner-{name}-{b}x{d}', bounds='any residual')(lambda H, a=(name, b, d): full(H, *a))


# ---------------------------------------------------------------- line searches
def sq(v):
    return (v ** 2).sum()


def naive(H, batch, d, kw, low):
    """A step with no larger residual, the first of alpha0, m alpha0, ...; or the first one that is not above min_alpha."""
    g = G(H, d)
    z, dz = H.tensor('z', (batch, d), -2, 2), H.tensor('dz', (batch, d), -2, 2)
    g0 = H.tensor('g0', (batch, d), -2, 2)
    val = lambda a: sq(torch.stack([g.value(r) for r in z + a * dz]))
    alpha, phi = NaiveSearch(g, g0, dz, z).search(**kw)
    p0 = sq(g0)
    H.check_eq(phi, val(alpha), 'returned objective is the one of the returned step')
    a0, m = kw.get('alpha0', 1), kw.get('mult_factor', 0.1)
    lo = kw.get('min_alpha', 1e-6)
    a, k = float(a0), 0
    while True:
        if abs(a - float(alpha)) <= 1e-9 * abs(a):
            break
        H.check(val(a) > p0, 'a longer admissible step was skipped')
        H.check(a > lo, 'a step below the smallest one was tried')
        a, k = a * m, k + 1
        if k > 60:
            H.fail('the returned step is not one of the candidates')
    if a > lo:
        H.check(phi <= p0, 'the returned step has a larger residual')


SUITE.case('naive-1x1', bounds='any residual; 8 candidate steps')(lambda H: naive(H, 1, 1, {}, 0))
SUITE.case('naive-2x2', bounds='any residual; 8 candidate steps')(lambda H: naive(H, 2, 2, {}, 0))
SUITE.case('naive-half', bounds='factor 0.5 from 2 down to 0.1')(lambda H: naive(H, 1, 2, dict(alpha0=2., min_alpha=0.1, mult_factor=0.5), 0))
SUITE.case('naive-short', bounds='start below the smallest step')(lambda H: naive(H, 1, 1, dict(alpha0=0.01, min_alpha=0.1), 0))


def armijo(H, d, rounds):
    g = G(H, d)
    z, dz = H.tensor('z', (1, d), -2, 2), H.tensor('dz', (1, d), -2, 2)
    g0 = H.tensor('g0', (1, d), -2, 2)
    val = lambda a: sq(torch.stack([g.value(r) for r in z + a * dz]))
    s = LineSearchArmijo(g, g0, dz, z)
    n = [0]
    phi_ = s.phi

    def phi(alpha):
        n[0] += 1
        if n[0] > rounds:
            H.truncate('more rounds')
        return phi_(alpha)
    s.phi = phi
    alpha, p = s.search()
    if n[0] == 1:
        H.check_eq(p, val(alpha), 'returned objective')
        H.check(p <= sq(g0), 'the full step is taken with a larger residual')
        H.check(alpha == 1, 'the first candidate is the full step')
    for k, a in enumerate(g.at):
        # every trial point lies on the ray
        for i in range(d):
            for j in range(i):
                H.check_eq((a - z)[0, i] * dz[0, j], (a - z)[0, j] * dz[0, i], 'trial point off the search direction')


SUITE.case('armijo-full', bounds='any residual, first trial')(lambda H: armijo(H, 1, 1))
SUITE.case('armijo-full-2', bounds='any residual of 2 coordinates, first trial')(lambda H: armijo(H, 2, 1))
SUITE.case('armijo-second', bounds='any residual, first two trials')(lambda H: armijo(H, 2, 2))


# ---------------------------------------------------------------- termination
def met(H, g, z, dz, f0, f_tol, f_rtol, x_tol, x_rtol):
    """The documented test, per sample, with squared norms."""
    out = None
    for b in range(len(g)):
        gg, ff, zz, dd = (torch.sqrt(sq(v[b])) for v in (g, f0, z, dz))
        c = (gg <= f_tol) & (gg <= f_rtol * ff) & (dd <= x_tol) & (dd <= x_rtol * zz)
        out = c if out is None else out & c
    return out


def terminate(H, batch, d, calls, kw):
    tc = TerminationCondition(**kw)
    k = {**dict(f_tol=1e-2, f_rtol=1e-1, x_tol=1e-2, x_rtol=1), **kw}
    f0 = None
    for c in range(calls):
        g, z, dz = (H.tensor(f'{n}{c}', (batch, d), -2, 2) for n in ('g', 'z', 'dz'))
        if f0 is None:
            f0 = g
        for b in range(batch):      # away from rounding ties
            for u, v in ((sq(g[b]), k['f_tol'] ** 2 + 0 * sq(g[b])), (sq(g[b]), k['f_rtol'] ** 2 * sq(f0[b])), (sq(dz[b]), k['x_tol'] ** 2 + 0 * sq(g[b])), (sq(dz[b]), k['x_rtol'] ** 2 * sq(z[b]))):
                H.margin(u, v)
        code = tc.check(g, z, dz)
        want = met(H, g, z, dz, f0, **k)
        H.check(want if code else ~want, f'check {c} says {code}')
        H.check(code in (0, 2), 'return code')


SUITE.case('terminate-1x1', bounds='two checks, default tolerances')(lambda H: terminate(H, 1, 1, 2, {}))
SUITE.case('terminate-2x1', bounds='two samples')(lambda H: terminate(H, 2, 1, 1, dict(f_tol=0.5, f_rtol=1., x_tol=0.25, x_rtol=0.5)))
SUITE.case('terminate-2x1-first', bounds='two samples, two checks, residual relative to the first')(lambda H: terminate(H, 2, 1, 2, dict(f_tol=1e3, f_rtol=.5, x_tol=1e3, x_rtol=1e9)))
SUITE.case('terminate-1x2', bounds='two coordinates, two checks')(lambda H: terminate(H, 1, 2, 2, dict(f_tol=0.5, f_rtol=0.25, x_tol=0.5, x_rtol=2.)))


# ---------------------------------------------------------------- root_find
def affine(H, name, search, batch, d, maxiters, alpha=1.):
    A, c = H.tensor('A', (d, d), -2, 2), H.tensor('c', (d,), -2, 2)
    if d == 1:
        H.assume(A[0, 0].abs() > 0.1)
    else:
        H.assume((A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]).abs() > 0.1)
    g = lambda z: z @ A.T - c
    z0 = H.tensor('z', (batch, d), -2, 2)
    z, log = root_find(g, z0.clone(), alpha=alpha, maxiters=maxiters, method=name, search_method=search, f_tol=1e-3, x_tol=1e-9)
    H.check_shape(z, (batch, d), 'result')
    H.check_eq(g(z), torch.zeros_like(z), 'not a root of the affine system')


for name in METHODS:
    for search in ('none', 'naive'):
        for b, d in ((1, 1), (2, 1), (1, 2)):
            if search == 'naive' and d > 1:
                continue
            SUITE.case(f'affine-{name}-{search}-{b}x{d}', bounds='any invertible affine system, full step')(lambda H, a=(name, search, b, d, 1): affine(H, *a))
    for search in ('none', 'naive'):
        SUITE.case(f'affine2-{name}-{search}', bounds='any affine equation, two iterations allowed')(lambda H, a=(name, search, 1, 1, 2): affine(H, *a))


def iterate(H, name, d, verdicts, search, verbose=True, tol=None, evals=99, batch=1):
    """The tests of TerminationCondition (decided above) answer `verdicts`, whatever the iterates are: the iteration stops at
    the first yes, after at most len(verdicts) steps; the line search is along the last move.  verdicts as an int: real tests
    that are never (tol < 0) or always met."""
    maxiters = verdicts if isinstance(verdicts, int) else len(verdicts)
    g = G(H, d, evals)
    z0 = H.tensor('z', (batch, d), -2, 2)
    for b in range(batch):
        H.assume(g.jac(z0[b])[0, 0].abs() > 0.1)
    seen, tests = [], []
    cls = METHODS[name]
    step, own, check = cls.step, 'step' in vars(cls), TerminationCondition.check

    def spy(self, g, z0, J_inv, geval_old, alpha=1, **kw):
        z, dz, ge, J = step(self, g, z0, J_inv, geval_old, alpha, **kw)
        seen.append(dict(z0=z0, J0=J_inv, g0=geval_old, alpha=alpha, z=z, dz=dz, g=ge, J=J, at=len(gobj.at)))
        return z, dz, ge, J

    def verdict(self, geval, z, dz):
        tests.append((geval, z, dz))
        return 2 if verdicts[len(tests) - 1] else 0
    gobj = g
    cls.step = spy
    if not isinstance(verdicts, int):
        TerminationCondition.check = verdict
    try:
        z, log = root_find(g, z0.clone(), alpha=0.5, maxiters=maxiters, method=name, search_method=search, verbose=verbose, **(tol or {}))
    finally:
        TerminationCondition.check = check
        if not own:
            del cls.step
        else:
            cls.step = step
    if isinstance(verdicts, int):
        H.check(len(seen) == (1 if tol['f_tol'] > 0 else maxiters), f'{len(seen)} iterations with {tol}')
    else:
        stop = verdicts.index(True) + 1 if True in verdicts else maxiters
        H.check(len(tests) == len(seen), 'one termination test per iteration')
        H.check(len(seen) == stop, f'{len(seen)} iterations, verdicts {verdicts}')
        for e, (a, b, c) in zip(seen, tests):
            H.check_eq(a, e['g'], 'tested residual')
            H.check_eq(b, e['z'], 'tested iterate')
            H.check_eq(c, e['dz'], 'tested direction')
    H.check_eq(z, seen[-1]['z'], 'the result is the last iterate')
    H.check_eq(seen[0]['z0'], z0, 'starts at the guess')
    for b in range(batch):
        H.check_eq(seen[0]['J0'][b].reshape(()), 1 / g.jac(z0[b])[0, 0], 'starts from the inverse Jacobian at the guess')
        H.check_eq(seen[0]['g0'][b], g.value(z0[b]), 'starts from the residual at the guess')
    H.check_eq(torch.as_tensor(seen[0]['alpha']) + 0 * z0.sum(), H.const(0.5), 'first step length')
    for e, n in zip(seen, seen[1:]):
        H.check_eq(n['z0'], e['z'], 'next step starts at the iterate')
        H.check_eq(n['g0'], e['g'], 'next step starts from the residual')
        H.check_eq(n['J0'], e['J'], 'next step starts from the updated inverse Jacobian')
        if search == 'none':
            H.check(float(n['alpha']) == 0.5, 'step length changes without a line search')
        else:
            # the trial points of the search lie ahead of the iterate along the move
            trial = g.at[e['at']:n['at'] - 1]
            a = last = 1.
            for p in trial:
                H.check_eq(p, e['z'] - a * e['dz'], 'line search off the direction of motion')
                last, a = a, a * 0.1
            H.check(abs(float(n['alpha']) - last) < 1e-9, 'step length is not the one the line search found')
    if verbose:
        H.check_eq(log.data['z'], seen[-1]['z'], 'logged iterate')
        H.check_eq(log.data['geval'], seen[-1]['g'], 'logged residual')
        H.check(log.data['iteration'] == len(seen), 'logged iteration')


for name in METHODS:
    for k, v in enumerate(([False, False], [False, True], [True, False])):
        SUITE.case(f'iterate-{name}-none-{k}', bounds='any residual of one variable, up to 2 iterations')(lambda H, n=name, v=v: iterate(H, n, 1, v, 'none'))
    SUITE.case(f'iterate-{name}-none-3', bounds='any residual of one variable, 3 iterations', tier='thorough')(lambda H, n=name, v=v: iterate(H, n, 1, [False, False, True, False], 'none'))
    SUITE.case(f'iterate-{name}-one', bounds='any residual of one variable, one iteration')(lambda H, n=name: iterate(H, n, 1, [False], 'none', False))
    SUITE.case(f'iterate-{name}-batch', bounds='any residual of one variable, two samples')(lambda H, n=name: iterate(H, n, 1, [False, True], 'none', batch=2))
    SUITE.case(f'iterate-{name}-naive', bounds='any residual of one variable, 2 iterations, 2 trials each')(lambda H, n=name: iterate(H, n, 1, [False, True], 'naive', evals=7))
    SUITE.case(f'iterate-{name}-never', bounds='any residual of one variable, tests never met, 2 iterations')(lambda H, n=name: iterate(H, n, 1, 2, 'none', tol=dict(f_tol=-1., f_rtol=-1., x_tol=-1., x_rtol=-1.)))


@SUITE.case('unsupported', bounds='unknown method and search names')
def _(H):
    g = lambda z: z
    expect_raise(H, lambda: root_find(g, H.tensor('z', (1, 1)), method='none'), 'an unknown method is accepted')
    expect_raise(H, lambda: root_find(g, H.tensor('z', (1, 1)), search_method='wolfe'), 'an unknown search is accepted')


def history(H, name):
    """Searches with one method do not influence each other: three affine systems of other sizes, each solved in one full step."""
    logs, keeps = [], []
    for i, (batch, d) in enumerate([(1, 1), (2, 1), (1, 1)]):
        A, c = H.tensor(f'A{i}', (d, d), -2, 2), H.tensor(f'c{i}', (d,), -2, 2)
        H.assume(A[0, 0].abs() > 0.1)
        g = lambda z: z @ A.T - c
        z0 = H.tensor(f'z{i}', (batch, d), -2, 2)
        start = z0.clone()
        z, log = root_find(g, start, alpha=1., maxiters=1, method=name, search_method='none', f_tol=1e-3, x_tol=1e-9)
        H.check_eq(g(z), torch.zeros_like(z), f'search {i}: not a root of the affine system')
        H.check_eq(start, z0, f'search {i}: the first guess was modified')
        H.check(all(log is not l for l in logs), 'searches share one log')
        logs.append(log)
        keeps.append((z, z.clone()))
    for a, b in keeps:
        H.check_eq(a, b, 'a root returned earlier changed')


for name in METHODS:
    SUITE.case(f'history-{name}', bounds='three searches')(lambda H, n=name: history(H, n))

contexts(SUITE, r'(step|update)-.*-1x2|inner-.*-1x1|naive-2x2|armijo-full|terminate-2x1')
