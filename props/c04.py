"""C04: adaptive integration returns exactly the requested time points."""
from symtorch.runner import Suite
from torchdyn.numerics import odeint
from .common import *

SUITE = Suite('C04')


def run(H, npts, K, rejects, all_eval=False, before=None):
    ts = increasing(H, 't', npts, gap=0.01)
    h = Histories(H, ts, K, rejects=rejects)
    if before is not None:
        # an earlier call with the same solver object: one accepted step to the end of another interval
        fx = lambda t, x, args=None: 0 * x + H.const([[0.04]])
        s = h.solver
        s.script = lambda n, f, x, t, dt, k1: (H.const([[-7.]]), H.const([[-5.]]), H.const([[.5]]), tuple(H.const([[-9. - i]]) for i in range(7)))
        s.max_factor = H.const([8.])
        us = [0., 0.25, 0.5] if before == 'points' else [0., 0.5]
        t0, sol0 = odeint(fx, h.x0, H.const(us), s, atol=h.atol, rtol=h.rtol, return_all_eval=before == 'all')
        H.check_eq(t0.reshape(-1)[-1], H.const(0.5), 'first call: end time')
        H.check_eq(sol0[-1], H.const([[-5.]]), 'first call: end state')
        s.log, s.script = [], h.script
        keep = sol0.clone()
    te, sol = odeint(h.field, h.x0, torch.stack(ts), h.solver, atol=h.atol, rtol=h.rtol, return_all_eval=all_eval)
    if before is not None:
        H.check_eq(sol0, keep, 'the solution of the first call changed')
    te = te.reshape(-1)
    H.reach(f'{len(h.accepted)} accepted, {h.nrej} rejected')
    H.check(len(te) == len(sol), f'{len(te)} times but {len(sol)} states')
    acc = h.accepted
    if not all_eval:
        H.check(len(te) == npts, f'{len(te)} time points returned, {npts} requested')
        H.check_eq(te, torch.stack(ts), 'returned times are not t_span')
        H.check_eq(sol[0], h.x0, 'first state')
        for i in range(1, npts):
            # each later state is the end state of an accepted step that ends at that time
            ok = False
            for a in acc:
                ok = ok | ((a['end'] == ts[i]) & (sol[i] == a['x']).all())
            H.check(ok, f'state {i} is not the end of an accepted step that ends at t_span[{i}]')
    else:
        H.check(len(te) == len(acc) + 1, f'{len(te)} points for {len(acc)} accepted steps')
        H.check_eq(te[0], ts[0], 'first time')
        H.check_eq(sol[0], h.x0, 'first state')
        for k, a in enumerate(acc):
            H.check_eq(te[k + 1], a['end'], f'time of accepted step {k}')
            H.check_eq(sol[k + 1], a['x'], f'state of accepted step {k}')
        for i in range(1, npts):
            ok = False
            for k in range(1, len(te)):
                ok = ok | (te[k] == ts[i])
            H.check(ok, f't_span[{i}] is missing')
    H.check_eq(h.cur['t'], ts[-1], 'stopped before the end of t_span')


def add(npts, K, rejects, all_eval=False, tier='quick', shards=1, budget=240, max_paths=6000, before=None):
    SUITE.case(f'{"all" if all_eval else "span"}-{npts}pts-{K}steps-{rejects}rej{"-after-" + before if before else ""}', tier=tier, shards=shards, budget=budget, max_paths=max_paths,
               bounds=f'{npts} symbolic times (gaps >= 0.01, span <= 6), at most {K} steps of which at most {rejects} rejected, every proposed step size in [0.01, 8]')(
        lambda H: run(H, npts, K, rejects, all_eval, before))


add(2, 4, 4)
add(3, 4, 4, shards=2)
add(4, 4, 1, shards=2)
add(2, 4, 4, True)
add(3, 4, 2, True, shards=2)
add(3, 6, 3, tier='thorough', shards=16, budget=2400, max_paths=60000)
add(4, 6, 2, tier='thorough', shards=16, budget=2400, max_paths=60000)
add(5, 6, 1, tier='thorough', shards=16, budget=2400, max_paths=60000)
add(3, 6, 2, True, tier='thorough', shards=16, budget=2400, max_paths=60000)
add(2, 3, 1, before='span')
add(3, 3, 1, before='points')
add(2, 2, 1, True, before='all')

contexts(SUITE, r'span-3pts-3steps-1rej-after-points|all-2pts-2steps-1rej-after-all')
