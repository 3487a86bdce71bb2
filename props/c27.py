"""C27: adaptive integration reaches requested times exactly under float rounding."""
import sys
from symtorch.runner import Suite
from torchdyn.numerics import odeint
from .common import *

SUITE = Suite('C27', assumptions=['times and step sizes are IEEE numbers of the stated format, bit-precise; states and error estimates are scripted; '
                                  'the proposed step sizes (starting step, step-size controller) are any positive numbers in the stated range'])
OM = sys.modules['torchdyn.numerics.odeint']


class Steps:
    """A solver that checks every step it is asked for; starting step and controller give any step size in [lo, hi]."""
    order, stepping_class, name = 1, 'adaptive', 'scripted'

    def __init__(self, H, ts, bound, rejects, dtype, lo, hi):
        self.H, self.ts, self.bound, self.rejects, self.dtype, self.lo, self.hi = H, ts, bound, rejects, dtype, lo, hi
        self.safety = self.min_factor = self.max_factor = torch.tensor([1.])
        self.tableau = None
        self.n = self.nrej = self.nsize = 0
        self.starts, self.p = [(torch.tensor(True), ts[0])], None

    def sync_device_dtype(self, x, t_span):
        return x, t_span

    def size(self, dtype=None):
        self.nsize += 1
        self.p = self.H.fp(f'dt{self.nsize}', (), self.lo, self.hi, self.dtype)
        return self.p.clone()

    def adapt(self, dt, *a, **k):
        self.H.check((dt > 0).all(), 'the step size handed to the controller is zero or negative')
        return self.size()

    def step(self, f, x, t, dt, k1=None, args=None):
        H = self.H
        if self.n >= self.bound:
            H.truncate('more steps')
        t, dt = t.reshape(()), dt.reshape(())
        started = torch.tensor(False)
        for c, v in self.starts:
            started = (c & (t == v)) | started
        ok = started & (dt > 0) & (t < self.ts[-1])
        # either the proposed step, not beyond the next requested time, or the step to that time
        prev, starts = torch.tensor(True), []
        for tk in self.ts[1:]:
            here = prev & (t < tk)
            full, clip = (dt == self.p) & (t + dt <= tk), (dt == tk - t) & ((t + self.p >= tk) | (self.p >= tk - t))
            ok = ok & (~here | full | clip)
            starts += [(here & full, t + dt), (here & clip, tk)]
            prev = prev & (t >= tk)
        H.check(ok, f'step {self.n} starts at the wrong time, is empty or negative, or is neither the proposed one nor clipped to the next requested time')
        rej = self.nrej < self.rejects and H.flag(f'reject{self.n}')
        self.n += 1
        self.nrej += rej
        self.starts = [(started, t)] if rej else starts
        e = torch.tensor([[2. if rej else 0.5]], dtype=torch.float64)
        return torch.tensor([[0.]], dtype=torch.float64), torch.tensor([[self.n + 1.]], dtype=torch.float64), e, ()


class Patched:
    """Starting step and step-size controller of the module replaced by arbitrary step sizes."""
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        self.old = {k: getattr(OM, k) for k in ('init_step', 'adapt_step') if hasattr(OM, k)}
        for k in self.old:
            setattr(OM, k, (lambda *a, **kw: self.s.size()) if k == 'init_step' else self.s.adapt)

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(OM, k, v)


def times(H, n, dtype, R, gap=0.):
    ts = [H.fp(f't{k}', (), -R, R, dtype) for k in range(n)]
    for a, b in zip(ts, ts[1:]):
        H.assume(a < b)
    return ts


class Quiet:
    """An event that never happens."""
    def check_event(self, t, x):
        return torch.tensor(False)

    def jump_map(self, t, x):
        return x


class Interp:
    """An interpolator reduced to what its caller touches."""
    bmid = [0.]

    def fit(self, *a, **k):
        return 0

    def evaluate(self, coefs, t0, t1, t):
        return torch.ones(1, 1, dtype=torch.float64)


def zero(t, x):
    return torch.zeros(1, 1, dtype=torch.float64)


def lands(H, n, bound, rejects, dtype, mode='', R=4., lo=0.25, hi=16.):
    ts = times(H, n, dtype, R)
    interp = mode == 'interp'
    s = Steps(H, ts[:1] + ts[-1:] if interp else ts, bound, rejects, dtype, lo, hi)
    span = torch.stack([-t for t in ts] if mode == 'rev' else ts)
    x0 = torch.ones(1, 1, dtype=torch.float64)
    with Patched(s):
        if mode == 'hybrid':
            te, sol = OM.odeint_hybrid(zero, x0, span, 3, s, [Quiet()], atol=1., rtol=0.)
        else:
            te, sol = odeint(zero, x0, span, s, atol=1., rtol=0., interpolator=Interp() if interp else None, return_all_eval=mode == 'all')
    if mode in ('all', 'hybrid'):
        H.check((te[1:] > te[:-1]).all(), 'evaluation times do not increase')
        H.check(te[0] == span[0], 'starts elsewhere')
        for k in range(1, n):
            H.check((te == span[k]).any(), f'requested time {k} is not among the evaluation times')
        H.check(te[-1] == span[-1], 'ends elsewhere')
        H.check(len(te) == len(sol), f'{len(te)} times, {len(sol)} states')
        H.check(len(te) == s.n - s.nrej + 1, f'{len(te)} times after {s.n - s.nrej} accepted steps')
    else:
        H.check(len(te) == n and len(sol) == n, f'{len(te)} times and {len(sol)} states for {n} requested')
        H.check((te == span).all(), 'returned times are not the requested ones')
    H.reach(f'{s.n} steps')


F16, F32, F64 = torch.float16, torch.float32, torch.float64
NAMES = {F16: 'half', F32: 'single', F64: 'double'}


def L(n, bound, rejects, dtype, mode='', tier='quick', shards=1):
    SUITE.case(f'adaptive-{NAMES[dtype]}-{n}-{bound}-{rejects}{"-" if mode else ""}{mode}', tier=tier, budget=400 if tier == 'quick' else 3000, shards=shards,
               bounds=f'{n} {NAMES[dtype]}-precision times in [-4, 4], at most {bound} steps, {rejects} rejected, step sizes in [0.25, 16]')(
        lambda H: lands(H, n, bound, rejects, dtype, mode))


for m in ('', 'rev', 'interp', 'all', 'hybrid'):
    L(2, 2, 1, F16, m)
    L(3, 2, 0, F16, m)
    L(2, 2, 0, F32, m)
    L(2, 2, 0, F64, m, tier='quick' if m in ('', 'rev') else 'thorough')
    L(2, 3, 1, F16, m, tier='thorough')
    L(3, 3, 1, F16, m, tier='thorough', shards=2)
    L(2, 3, 1, F32, m, tier='thorough')
    L(3, 2, 1, F32, m, tier='thorough')
    L(4, 3, 0, F16, m, tier='thorough', shards=2)
    L(3, 2, 0, F64, m, tier='thorough')
L(2, 2, 1, F32)
L(2, 2, 1, F64, tier='thorough')
L(3, 2, 0, F32, tier='thorough')
L(3, 3, 0, F16, tier='thorough', shards=2)
