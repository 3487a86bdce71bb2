"""C13: hybrid integration applies jumps at events, in order, at most j_span times."""
from symtorch.runner import Suite
from torchdyn.numerics import odeint_hybrid
from torchdyn.numerics.utils import EventCallback
from .common import *

SUITE = Suite('C13')


class Hybrid:
    """State [mode, clock]: the flow adds the elapsed time to the clock, jumps add one to the mode.

    The event of mode m becomes true at the symbolic time s[m]; which callbacks see it is part of the case."""

    def __init__(self, H, t_span, s, who, bound, rejects, tol, dmin=0.05, dmax=1., ncb=1):
        self.H, self.ts, self.s, self.who, self.tol = H, t_span, s, who, tol
        self.solver = Script(H, self.script, bound=None)
        self.solver.min_factor = H.const([1e-9])
        self.solver.safety = torch.tensor([float('inf')], dtype=torch.float64)
        self.bound, self.rejects, self.nrej, self.main = bound, rejects, 0, 0
        self.dmin, self.dmax = dmin, dmax
        self.jumps = []                 # (time, state before, state after, step start, step end)
        self.bisect = False
        self.prop = None
        self.x0 = H.const([[1., 1.]])
        self.cur = dict(t=t_span[0], x=self.x0, slope=None)
        self.callbacks = [self.callback(i) for i in range(ncb)]
        self.slopes = []                # (time, slope) of the ends of bisection steps
        self.garbage = 0
        self.before = False

    # ---- the user's side
    def field(self, t, x):
        return self.H.const([[0.04, 0.04]]) + 0 * x

    def mode(self, x):
        v = x[0, 0]
        for m in range(len(self.s) + 2):
            if self.H.decide(v == float(m + 1)):
                return m
        self.H.fail('a state that no sequence of jumps produces')

    def event(self, t, x):
        """The mode's event has happened by t."""
        m = self.mode(x)
        return m < len(self.s) and self.H.decide(t.reshape(()) >= self.s[m])

    def callback(self, i):
        me = self

        class Cb(EventCallback):
            def check_event(self, t, x):
                if me.before:
                    return me.H.decide(t.reshape(()) >= 0.25) and me.H.decide(x[0, 0] == 1)
                m = me.mode(x)
                return m < len(me.s) and i in me.who[m] and me.event(t, x)

            def jump_map(self, t, x):
                if me.before:
                    return x + me.H.const([[3., 0.]])
                return me.jump(i, t.reshape(()), x)
        return Cb()

    def jump(self, i, t, x):
        H = self.H
        m = self.mode(x)
        H.check(m < len(self.s), 'a jump without event')
        H.check(i == min(self.who[m]), f'the jump map of callback {i} is applied, the first triggered one is {min(self.who[m])}')
        c = self.cur
        H.check_eq(x, c['x'] + self.flow(t - c['t']), 'the jump is not applied to the state at the switching time')
        if self.bisect:
            a, b = self.bracket
            H.check((t >= a) & (t <= b), 'switching time outside the step in which the event became true')
            # the event becomes true at s, or is true from the start of the step
            s = torch.max(self.s[m], a)
            H.check((t - s <= self.tol) & (s - t <= self.tol), 'switching time not located to event_tol')
        else:
            H.check(self.main == 0 and len(self.jumps) == 0, 'a jump although no accepted step made an event true')
            H.check_eq(t, self.ts[0], 'initial jump at another time')
            H.check(self.event(t, x), 'an initial jump without event')
        y = x + H.const([[1., 10. * (i + 1)]])
        self.jumps.append((t, x.clone(), y.clone()))
        self.cur = dict(t=t, x=y, slope=None)
        self.bisect = False
        return y

    def flow(self, dt):
        return self.H.const([[0., 1.]]) * dt

    # ---- the solver
    def script(self, n, f, x, t, dt, k1):
        H, cur = self.H, self.cur
        if self.before:
            return H.const([[-50., 0.]]), x + self.flow(dt), 0 * x, None
        kk = k1 if k1 is not None else f(t, x)
        H.check(dt > 0, 'a step of non-positive size')
        if self.bisect:
            H.check((t >= self.bracket[0]) & (t + dt <= self.bracket[1] + (0 if H.symbolic else 1e-12)), 'a step outside the bracket of the event')
            for tt, sl in self.slopes:
                if H.decide(t == tt):
                    H.check_eq(kk, sl, 'first slope of a bisection step')
                    break
            else:
                H.fail('a bisection step does not start where an earlier step ended')
            H.check_eq(x, cur['x'] + self.flow(t - cur['t']), 'a bisection step starts from the wrong state')
            sl = H.const([[float(1000 + n), 0.]])
            self.slopes.insert(0, (t + dt, sl))
            return sl, x + self.flow(dt), 0 * x, None
        if self.main >= self.bound:
            H.truncate('step bound')
        self.main += 1
        H.check_eq(t, cur['t'], 'a step starts at the wrong time')
        H.check_eq(x, cur['x'], 'a step starts from the wrong state')
        H.check_eq(kk, cur['slope'] if cur['slope'] is not None else f(t, x), 'first slope of a step')
        last = self.ts[-1]
        H.check((t < last) & (t + dt <= last), 'a step beyond the end')
        for tk in self.ts[1:]:
            H.check((t >= tk) | (t + dt <= tk), 'a step beyond a requested time')
        rej = self.nrej < self.rejects and H.flag(f'reject{n}')
        # the next proposed step size is arbitrary
        d = H.scalar(f'proposed{n + 1}', self.dmin, self.dmax)
        p = self.prop if self.prop is not None else H.const(0.5)
        if H.decide(t + p > last):
            p = last - t
        base = p - dt if H.decide(dt < p) else dt
        if rej:
            H.assume(d < p)
        self.solver.max_factor = (d / base).reshape(1)
        sl = H.const([[float(100 + n), 0.]])
        if rej:
            self.nrej += 1
            self.prop = d
            return sl, x + H.const([[0., 1000.]]), 0 * x + 2, None
        y = x + self.flow(dt)
        if self.event(t + dt, y):
            self.bisect = True
            self.bracket = (t, t + dt)
            self.slopes = [(t, kk)]
            self.prop = dt
        else:
            self.prop = d
            self.cur = dict(t=t + dt, x=y, slope=sl)
        return sl, y, 0 * x, None


def run(H, npts, nev, who, K, rejects, j_span, tol=0.3, priority='jump', ncb=1, late=True, before=False):
    ts = increasing(H, 't', npts, gap=0.05)
    H.assume(ts[-1] - ts[0] <= 2)
    s = [H.scalar(f's{i}', -4, 4) for i in range(nev)]
    if late:
        for v in s:
            H.assume(v > ts[0])
    h = Hybrid(H, ts, s, who, K, rejects, tol, ncb=ncb)
    x0 = h.x0
    if before:
        # an earlier call with the same solver and callbacks, with one jump
        h.before = True
        h.solver.max_factor = H.const([1.])
        t0, sol0 = odeint_hybrid(h.field, x0, H.const([0., 1.]), 3, h.solver, h.callbacks, atol=1., rtol=0., event_tol=0.3)
        H.check_eq(sol0[-1][0, 0], H.const(4.), 'first call: one jump')
        H.check_eq(sol0[-1][0, 1], H.const(2.), 'first call: clock at the end')
        keep = sol0.clone()
        h.before, h.solver.log = False, []
    te, sol = odeint_hybrid(h.field, x0, torch.stack(ts), j_span, h.solver, h.callbacks, atol=1., rtol=0., event_tol=tol, priority=priority)
    if before:
        H.check_eq(sol0, keep, 'the solution of the first call changed')
    te = te.reshape(-1)
    H.reach(f'{len(h.jumps)} jumps, {h.nrej} rejected')
    H.check(len(te) == len(sol), f'{len(te)} times, {len(sol)} states')
    H.check(not h.bisect, 'an event is located but no jump applied')
    H.check(len(h.jumps) <= j_span, f'{len(h.jumps)} jumps, at most {j_span} allowed')
    n = len(te)
    H.check_eq(te[0], ts[0], 'first time')
    # walk the record: flow between jumps, jumps as pairs at the same time
    initial = len(h.jumps) > 0 and priority == 'jump' and H.decide(s[0] <= ts[0])
    j, k = (1 if initial else 0), 1
    start = (ts[0], h.jumps[0][2] if initial else h.x0)
    H.check_eq(sol[0], start[1], 'first state')
    while k < n:
        H.check(te[k] >= te[k - 1], 'recorded times decrease')
        H.check_eq(sol[k], start[1] + h.flow(te[k] - start[0]), f'recorded state {k} is not the state at the recorded time')
        k += 1
        if j < len(h.jumps) and k < n and H.decide(sol[k][0, 0] == sol[k - 1][0, 0] + 1):
            t, a, b = h.jumps[j]
            H.check_eq(te[k - 1], t, 'time recorded before the jump')
            H.check_eq(sol[k - 1], a, 'state recorded before the jump')
            H.check_eq(te[k], t, 'time recorded after the jump')
            H.check_eq(sol[k], b, 'state recorded after the jump')
            start = (t, b)
            j += 1
            k += 1
    H.check(j == len(h.jumps), 'a jump is not in the record')
    if len(h.jumps) < j_span:
        H.check_eq(te[-1], ts[-1], 'the integration stops before the end')
        H.check(not h.event(te[-1], sol[-1]) or (n == 1), 'an event before the end without a jump')
    # every requested time up to the end of the record
    for i in range(1, npts):
        if H.decide(ts[i] <= te[-1]):
            if not (len(h.jumps) == j_span and H.decide(ts[i] == te[-1])):
                ok = False
                for k in range(n):
                    ok = ok | (te[k] == ts[i])
                H.check(ok, f'requested time {i} is not in the record')


def add(name, *a, tier='quick', shards=1, budget=240, max_paths=6000, **kw):
    SUITE.case(name, tier=tier, shards=shards, budget=budget, max_paths=max_paths,
               bounds=f'{a[0]} requested times, {a[1]} events at any time, at most {a[3]} steps outside the bisection of which {a[4]} rejected, j_span {a[5]}, any step sizes in [0.05, 1]')(
        lambda H: run(H, *a, **kw))


add('no-event', 3, 0, [], 4, 1, 3, shards=2)
add('one-event', 2, 1, [[0]], 4, 0, 3, shards=2)
add('one-event-reject', 2, 1, [[0]], 3, 1, 3, shards=2)
add('one-event-3pts', 3, 1, [[0]], 3, 0, 3, shards=2)
add('two-events', 2, 2, [[0], [0]], 3, 0, 3, shards=2)
add('j_span-1', 2, 2, [[0], [0]], 3, 0, 1, shards=2)
add('two-callbacks', 2, 1, [[1]], 3, 0, 2, ncb=2)
add('both-callbacks', 2, 1, [[0, 1]], 3, 0, 2, ncb=2)
add('initial-jump', 2, 1, [[0]], 2, 0, 2, late=False)
add('initial-two', 2, 1, [[1]], 2, 0, 2, late=False, ncb=2)
add('initial-both', 2, 1, [[0, 1]], 2, 0, 2, late=False, ncb=2)
add('initial-last-two', 2, 1, [[1, 2]], 2, 0, 2, late=False, ncb=3)
add('initial-nojump', 2, 1, [[0]], 2, 0, 2, late=False, priority='none')
add('history', 2, 1, [[0]], 3, 0, 2, before=True)
add('history-two', 2, 1, [[1]], 2, 0, 2, before=True, ncb=2)
add('history-initial', 2, 1, [[0]], 2, 0, 2, before=True, late=False)

contexts(SUITE, r'no-event|one-event|one-event-reject|two-callbacks|history|initial-jump')
