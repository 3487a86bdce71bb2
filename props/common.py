"""Shared oracles: published tableaus, elementary-weight systems, scripted solvers."""
import os
import sys
from fractions import Fraction as Fr
import torch
import torch.nn as nn

R = Fr


def D(s):
    return Fr(s)


# ---- published coefficients (nodes c_2.., matrix rows 2.., weights b, error weights b - bhat) ----
TABLEAUS = {
    'euler': dict(c=[], a=[], b=[R(1)], order=1),
    'midpoint': dict(c=[R(1, 2)], a=[[R(1, 2)]], b=[R(0), R(1)], order=2),
    'rk4': dict(c=[R(1, 2), R(1, 2), R(1)], a=[[R(1, 2)], [R(0), R(1, 2)], [R(0), R(0), R(1)]],
                b=[R(1, 6), R(1, 3), R(1, 3), R(1, 6)], order=4),
    # Dormand & Prince 1980; error weights of Shampine's embedded fourth-order formula
    'dopri5': dict(
        c=[R(1, 5), R(3, 10), R(4, 5), R(8, 9), R(1), R(1)],
        a=[[R(1, 5)], [R(3, 40), R(9, 40)], [R(44, 45), R(-56, 15), R(32, 9)],
           [R(19372, 6561), R(-25360, 2187), R(64448, 6561), R(-212, 729)],
           [R(9017, 3168), R(-355, 33), R(46732, 5247), R(49, 176), R(-5103, 18656)],
           [R(35, 384), R(0), R(500, 1113), R(125, 192), R(-2187, 6784), R(11, 84)]],
        b=[R(35, 384), R(0), R(500, 1113), R(125, 192), R(-2187, 6784), R(11, 84), R(0)],
        e=[R(35, 384) - R(1951, 21600), R(0), R(500, 1113) - R(22642, 50085), R(125, 192) - R(451, 720),
           R(-2187, 6784) + R(12231, 42400), R(11, 84) - R(649, 6300), -R(1, 60)], order=5),
    # Tsitouras 2011
    'tsit5': dict(
        c=[R(161, 1000), R(327, 1000), R(9, 10), D('0.9800255409045096857298102862870245954942'), R(1), R(1)],
        a=[[R(161, 1000)],
           [D('-0.008480655492356988544426874250230774675121'), D('0.3354806554923569885444268742502307746751')],
           [D('2.897153057105493432130432594192938764925'), D('-6.359448489975074843148159912383825625953'), D('4.362295432869581411017727318190886861028')],
           [D('5.325864828439256604428877920840511317836'), D('-11.74888356406282787774717033978577296188'), D('7.495539342889836208304604784564358155659'), D('-0.09249506636175524925650207933207191611350')],
           [D('5.861455442946420028659251486982647890394'), D('-12.92096931784710929170611868178335939542'), D('8.159367898576158643180400794539253485182'), D('-0.07158497328140099722453054252582973869127'), D('-0.02826905039406838290900305721271224146718')],
           [D('0.09646076681806522951816731316512876333712'), R(1, 100), D('0.4798896504144995747752495322905965199130'), D('1.379008574103741893192274821856872770756'), D('-3.290069515436080679901047585711363850116'), D('2.324710524099773982415355918398765796109')]],
        b=[D('0.09646076681806522951816731316512876333712'), R(1, 100), D('0.4798896504144995747752495322905965199130'), D('1.379008574103741893192274821856872770756'), D('-3.290069515436080679901047585711363850116'), D('2.324710524099773982415355918398765796109'), R(0)],
        e=[D('0.001780011052226'), D('0.000816434459657'), D('-0.007880878010262'), D('0.144711007173263'), D('-0.582357165452555'), D('0.458082105929187'), -R(1, 66)], order=5),
}


def fl(H, q):
    """An exact rational constant (a float in the concrete twin)."""
    return H.const(q)


def rk_stages(H, name, f, t, x, dt, k1=None):
    """The slopes of the published method, with exact rational coefficients."""
    tb = TABLEAUS[name]
    ks = [f(t, x) if k1 is None else k1]
    for c, row in zip(tb['c'], tb['a']):
        s = x
        for a, k in zip(row, ks):
            if a:
                s = s + dt * (fl(H, a) * k)
        ks.append(f(t + fl(H, c) * dt, s))
    return ks


def rk_step(H, name, f, t, x, dt, k1=None):
    tb = TABLEAUS[name]
    n = len(tb['b']) - (1 if tb['b'][-1] == 0 else 0)
    if n < len(tb['b']):
        tb = dict(tb, c=tb['c'][:n - 1], a=tb['a'][:n - 1])
        ks = [f(t, x) if k1 is None else k1]
        for c, row in zip(tb['c'], tb['a']):
            s = x
            for a, k in zip(row, ks):
                if a:
                    s = s + dt * (fl(H, a) * k)
            ks.append(f(t + fl(H, c) * dt, s))
    else:
        ks = rk_stages(H, name, f, t, x, dt, k1)
    y = x
    for b, k in zip(tb['b'], ks):
        if b:
            y = y + dt * (fl(H, b) * k)
    return y


# ---- rooted trees: y_tau' = c_tau * prod(children), y(0) = 0, exact: dt^|tau| / gamma(tau) * prod c ----
def trees(maxorder):
    """[(order, gamma, [child indices])], in an order where children precede parents; index 0 is the single node."""
    out = [(1, 1, [])]
    by = {1: [0]}
    for n in range(2, maxorder + 1):
        by[n] = []
        for ch in _multisets(n - 1, by, None):
            g = n
            for i in ch:
                g *= out[i][1]
            by[n].append(len(out))
            out.append((n, g, list(ch)))
    return out


def _multisets(total, by, last):
    if total == 0:
        yield ()
        return
    for n in sorted(by):
        if n > total:
            continue
        for i in by[n]:
            if last is not None and i > last:
                continue
            for r in _multisets(total - n, by, i):
                yield (i,) + r


def tree_field(H, ts, coefs, use_time=False, t0=None):
    """The polynomial vector field whose solutions realise all trees; with use_time the leaf factor is t - t0."""
    def f(t, x, args=None):
        cols = []
        for i, (n, g, ch) in enumerate(ts):
            v = coefs[i] * torch.ones_like(x[..., :1])
            for j in ch:
                v = v * ((t - t0) * coefs[0] if (use_time and j == 0) else x[..., j:j + 1])
            cols.append(v)
        return torch.cat(cols, -1)
    return f


def tree_exact(H, ts, coefs, dt):
    """[exact y_tau(dt)] as 0-dim tensors."""
    def c(i):
        r = coefs[i]
        for j in ts[i][2]:
            r = r * c(j)
        return r
    return [c(i) * dt ** n * fl(H, Fr(1, g)) for i, (n, g, _) in enumerate(ts)]


class UStep(nn.Module):
    """A fixed-step solver whose step is an uninterpreted function of (t, dt, state): any one-step method."""
    def __init__(self, H, dim, order=1):
        super().__init__()
        self.H, self.dim, self.order, self.stepping_class = H, dim, order, 'fixed'
        self.calls = []
        self.min_factor, self.max_factor, self.safety = torch.tensor([0.2]), torch.tensor([10.]), torch.tensor([0.9])
        self.tableau = None

    def sync_device_dtype(self, x, t_span):
        return x, t_span

    def apply_step(self, f, x, t, dt):
        shape = x.shape
        rows = x.reshape(-1, shape[-1])
        k = f(t, x).reshape(-1, shape[-1])
        outs = []
        for r in range(rows.shape[0]):
            outs.append(torch.stack([self.H.ufs(f'S{i}', [t.reshape(()), dt.reshape(()), *rows[r], *k[r]]) for i in range(shape[-1])]))
        return torch.stack(outs).reshape(shape)

    def step(self, f, x, t, dt, k1=None, args=None):
        self.calls.append((t, dt))
        return None, self.apply_step(f, x, t, dt), None


def increasing(H, name, n, lo=-3, hi=3, gap=None):
    """n symbolic times, strictly increasing."""
    ts = [H.scalar(f'{name}{i}', lo, hi) for i in range(n)]
    for a, b in zip(ts, ts[1:]):
        H.assume(b > a if gap is None else b - a >= gap)
    return ts


def expect_raise(H, fn, msg, exc=Exception):
    try:
        fn()
    except exc:
        return
    H.fail(msg)


class Script(nn.Module):
    """An adaptive solver (given through the public `solver` argument) whose steps are decided by the harness.

    script(n, f, x, t, dt, k1) -> (slope at the end, new state, error, stages); n counts the calls from 0."""
    def __init__(self, H, script, order=1, safety=1., min_factor=0.2, max_factor=10., bound=None):
        super().__init__()
        self.H, self.script, self.order, self.stepping_class = H, script, order, 'adaptive'
        self.dtype = torch.float64
        self.tableau = None
        self.safety, self.min_factor, self.max_factor = [v if isinstance(v, torch.Tensor) else H.const([v]) for v in (safety, min_factor, max_factor)]
        self.log = []       # (t, dt, x, k1, result)
        self.bound = bound

    def sync_device_dtype(self, x, t_span):
        return x, t_span

    def step(self, f, x, t, dt, k1=None, args=None):
        n = len(self.log)
        if self.bound is not None and n >= self.bound:
            self.H.truncate('step bound')
        e = dict(t=t.reshape(()), dt=dt.reshape(()), x=x, k1=k1)
        self.log.append(e)
        r = self.script(n, f, x, t.reshape(()), dt.reshape(()), k1)
        e['slope'], e['xnew'], e['err'] = r[0], r[1], r[2]
        return r


class Histories:
    """Drives odeint's adaptive loop through every accept/reject history with arbitrary proposed step sizes.

    The state is a step counter (so that each returned state names the step that produced it), the error is either
    half or twice the tolerance (atol=1, rtol=0) and the step-size factor is a fresh symbolic number for every step."""
    atol, rtol = 1., 0.

    def __init__(self, H, t_span, bound, errs=(0.5, 2.), rejects=None, xnew=None, slope=None, nstage=7, sign=1, interp=False, dmin=0.01, dmax=8):
        self.H, self.ts, self.bound = H, t_span, bound
        self.solver = Script(H, self.script, bound=bound)
        self.solver.min_factor = H.const([1e-9])
        self.solver.safety = torch.tensor([float('inf')], dtype=torch.float64)   # the factor is then max_factor below
        self.errs, self.rejects, self.nrej = errs, rejects, 0
        self.cur = dict(t=t_span[0] * sign, x=H.const([[1.]]), slope=None)
        self.accepted = []      # dict(t0, dt, x0, x, k1, slope, stages)
        self.xnew, self.slope, self.nstage = xnew, slope, nstage
        self.sign = sign
        self.interp = interp
        self.prop = None
        self.dmin, self.dmax = dmin, dmax

    def field(self, t, x, args=None):
        # constant slope that makes the standard starting step exactly 1/2 (order 1, |x|=1, atol=1)
        return self.H.const([[self.sign * 0.04]]) + 0 * x

    x0 = property(lambda self: self.H.const([[1.]]))

    def script(self, n, f, x, t, dt, k1):
        H, cur = self.H, self.cur
        H.check_eq(t, cur['t'], f'step {n} starts at the wrong time')
        H.check_eq(x, cur['x'], f'step {n} starts from the wrong state')
        if cur['slope'] is not None:
            k = k1 if k1 is not None else f(t, x)
            H.check_eq(k, cur['slope'], f'step {n} does not reuse the slope of the last accepted step')
        H.check(dt > 0, f'step {n} has a non-positive size')
        last = self.ts[-1] * self.sign
        H.check(t < last, f'step {n} after the end of t_span')
        eps = 0 if H.symbolic else 1e-12        # rounding of t + (last - t) in a replay
        H.check(t + dt <= last + eps, f'step {n} goes beyond the end of t_span')
        if not self.interp:
            for tk in self.ts[1:]:
                tk = tk * self.sign
                H.check((t >= tk - eps) | (t + dt <= tk + eps), f'step {n} goes beyond a requested time')
        rej = (self.rejects is None or self.nrej < self.rejects) and H.flag(f'reject{n}')
        e = H.const([[self.errs[1] if rej else self.errs[0]]])
        xn = H.const([[float(n + 2)]]) if self.xnew is None else self.xnew(n, f, x, t, dt, k1)
        sl = H.const([[float(100 + n)]]) if self.slope is None else self.slope(n, f, xn, t, dt)
        kk = k1 if k1 is not None else (cur['slope'] if cur['slope'] is not None else f(t, x))
        stages = tuple(H.const([[float(1000 * (n + 1) + i)]]) if i else kk for i in range(self.nstage))
        # the factor applied to the step size after this step: any value in the declared bounds
        d = H.scalar(f'proposed{n + 1}', self.dmin, self.dmax)
        p = self.prop if self.prop is not None else H.const(0.5)
        if H.decide(t + p > last):
            p = last - t
        base = p - dt if (not self.interp and H.decide(dt < p)) else dt
        self.prop = d
        if rej:
            H.assume(d < p)
        self.solver.max_factor = (d / base).reshape(1)
        if rej:
            self.nrej += 1
        else:
            self.accepted.append(dict(t0=t, dt=dt, x0=x, x=xn, k1=kk, slope=sl, stages=stages, end=t + dt))
            self.cur = dict(t=t + dt, x=xn, slope=sl)
        return sl, xn, e, stages


class StartStep:
    """Replaces the starting-step routine of the adaptive drivers by an arbitrary positive number (the routine itself is decided by C06)."""
    def __init__(self, H, lo=0.01, hi=8):
        self.H, self.lo, self.hi = H, lo, hi
        self.mod = sys.modules['torchdyn.numerics.odeint']

    def __enter__(self):
        self.old = getattr(self.mod, 'init_step', None)
        if self.old is not None:
            self.mod.init_step = lambda *a, **k: self.H.scalar('start_step', self.lo, self.hi)
        return self

    def __exit__(self, *a):
        if self.old is not None:
            self.mod.init_step = self.old


ALIAS_FIELDS = ['identity', 'constant', 'view']


def alias_field(H, kind, shape):
    """A field whose result shares memory with its input or with earlier results; returns (field, value-only field, check)."""
    if kind == 'identity':
        return (lambda t, x, args=None: x), (lambda t, x: 1 * x), lambda msg: None
    if kind == 'view':
        return (lambda t, x, args=None: x.reshape(x.shape)[...]), (lambda t, x: 1 * x), lambda msg: None
    c = H.tensor('c', shape)
    c0 = c.clone()
    return (lambda t, x, args=None: c), (lambda t, x: c0 + 0 * x), lambda msg: H.check_eq(c, c0, msg + ': the tensor the field returned was modified')


RELATED = ['sametime', 'endtime', 'samestate', 'samestep', 'otherfield', 'inplace', 'continued', 'again']


def related(H, kind, f, g, x, t, dt, out):
    """The arguments (field, x, t, dt) of a step that shares some of its arguments with an earlier step (f, x, t, dt) -> out."""
    if kind == 'again':
        return f, x, t, dt
    if kind == 'continued':
        return f, out, t + dt, dt
    if kind == 'otherfield':
        return g, x, t, dt
    if kind == 'samestep':
        return f, x, t, H.scalar('dt2', -2, 2)
    if kind == 'samestate':
        return f, x, H.scalar('t2', -3, 3), dt
    y = H.tensor('y2', tuple(x.shape), -2, 2)
    if kind == 'sametime':
        return f, y, t, dt
    if kind == 'endtime':
        return f, y, t + dt, dt
    x.add_(y)       # the caller updates its state in place
    return f, x, t, dt


def contexts(suite, names, nograd=True, grad=True, skip=''):
    """Repeats the cases whose names match with gradients switched off, and with every symbolic input requiring gradients:
    the values a caller sees depend on neither."""
    import re
    for c in list(suite.cases):
        if not re.fullmatch(names, c.name) or (skip and re.fullmatch(skip, c.name)) or c.runner is not None or c.tier != 'quick':
            continue
        for kind in ['nograd'] * nograd + ['grad'] * grad:
            def fn(H, run=c.fn, kind=kind):
                if kind == 'nograd':
                    with torch.no_grad():
                        return run(H)
                make = H.tensor
                H.tensor = lambda name, shape, lo=None, hi=None, requires_grad=True: make(name, shape, lo, hi, requires_grad)
                return run(H)
            import copy
            n = copy.copy(c)
            n.name, n.fn = f'{c.name}-{kind}', fn
            n.bounds = c.bounds + ('; gradients switched off' if kind == 'nograd' else '; inputs require gradients')
            suite.cases.append(n)
