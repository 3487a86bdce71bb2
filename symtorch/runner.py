"""Runs the cases of one property, writes evidence, prints verdicts."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import queue
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
LEVEL = 'model_checking'


class Case:
    """One harness: fn(H) runs real torchdyn code on symbolic inputs and asserts."""

    def __init__(self, name, fn, bounds='', tier='quick', budget=200, simple=False, max_paths=6000,
                 assert_ms=20000, branch_ms=1500, eq_ms=4000, max_witness=6, wit_tol=10.0, runner=None,
                 needs=(), replay_timeout=60, domain='real', shards=1):
        self.shards = shards
        self.name, self.fn, self.bounds, self.tier, self.budget = name, fn, bounds, tier, budget
        self.simple, self.max_paths = simple, max_paths
        self.assert_ms, self.branch_ms, self.eq_ms = assert_ms, branch_ms, eq_ms
        self.max_witness, self.wit_tol, self.runner = max_witness, wit_tol, runner
        self.needs = needs
        self.replay_timeout = replay_timeout
        self.domain = domain


class Suite:
    def __init__(self, prop, assumptions=()):
        self.prop = prop
        self.cases = []
        self.assumptions = list(assumptions)

    def case(self, name, **kw):
        def d(fn):
            self.cases.append(Case(name, fn, **kw))
            return fn
        return d


def setup_imports():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(1, VERIF)
    sys.setrecursionlimit(20000)
    import torch
    torch.set_num_threads(1)
    import warnings
    warnings.filterwarnings('ignore')


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k.get('status') == 'known']


def match_known(known, prop, case, msg):
    for k in known:
        if k['property'] == prop and re.fullmatch(k['case'], case) and re.search(k['match'], msg):
            return k
    return None


def run_case(c, known, prop, tier, seed, replay_dir, shard=0):
    """Executed in a child process; returns a plain dict."""
    from . import explore as X
    from . import elem as E
    import torch
    torch.manual_seed(seed)
    t0 = time.time()
    st = X.Stats()
    out = {'case': c.name, 'violations': [], 'known': [], 'inconclusive': [], 'bounds': c.bounds}
    if c.runner is not None:
        c.runner(c, out, st, seed, tier)
    else:
        ex = X.Explorer(c, c.budget, stats=st, branch_ms=c.branch_ms, assert_ms=c.assert_ms, eq_ms=c.eq_ms,
                        max_paths=c.max_paths, seed=seed, simple=c.simple,
                        shard=(shard, c.shards) if c.shards > 1 else None)
        nwit = 0
        for kind, info, eng, h in ex.explore():
            if kind == 'inconclusive':
                out['inconclusive'].append(str(info)[:3000])
                continue
            if kind == 'violation':
                E.set_ctx(eng.ctx)
                handle_violation(c, info, eng, out, st, known, prop, seed, replay_dir)
                if len(out['violations']) >= 1:
                    break
                if len(out['inconclusive']) > 3:
                    break
                continue
            if kind in ('ok', 'truncated') and nwit < c.max_witness:
                # vacuity guard and encoding validation: a concrete input of this path, run on the real code
                E.set_ctx(eng.ctx)
                try:
                    m = h.witness()
                except X.Infeasible:
                    st.infeasible += 1
                    st.paths -= 1
                    continue
                except X.Inconclusive:
                    m = None
                if m is not None:
                    nwit += 1
                    r, msg, ch = X.replay(c, m, seed=seed, tolscale=c.wit_tol, timeout=c.replay_timeout)
                    if r == 'ok':
                        st.replays += 1
                        if len(st.samples) < 3:
                            st.samples.append({'case': c.name, 'path': kind, 'inputs': {k: round(v, 6) for k, v in list(m['vars'].items())[:12]},
                                               'trace': (eng.log or ch.trace)[:6], 'decisions': [s[0] for s in eng.stack][:40]})
                    elif r == 'fail':
                        k = match_known(known, prop, c.name, msg)
                        if k:
                            if k['what'] not in out['known']:
                                out['known'].append(k['what'])
                        elif not confirmed(c, m, seed):
                            st.replay_diverged += 1     # only at this very point: rounding at a boundary
                        else:
                            record(c, 'real run at a solver-chosen input of a path: ' + msg, m, seed, out, prop, replay_dir)
                            break
                    else:
                        st.replay_diverged += 1
        if st.paths == 0 and c.shards == 1 and not out['violations'] and not out['known'] and not out['inconclusive']:
            out['inconclusive'].append('vacuous: no feasible path')
    out['wall'] = time.time() - t0
    out['stats'] = {k: getattr(st, k) for k in ('paths', 'decisions', 'forks', 'queries', 'unsat', 'sat', 'unknown', 'assertions',
                                                'eqs', 'truncated', 'infeasible', 'solver_s', 'replays', 'replay_diverged',
                                                'exact', 'approx', 'samples', 'reached')}
    out['functions'] = sorted(st.functions)
    out['assumptions'] = sorted(st.assumptions)
    return out


def confirmed(c, m, seed, n=6):
    """A deviation of a witness run that also shows at nearby inputs is not a rounding artefact."""
    import random
    from . import explore as X
    for s in range(n):
        r = random.Random(seed * 1000 + s)
        mm = {'vars': {k: (v if k.startswith('choice:') else v * (1 + 1e-4 * r.uniform(-1, 1)) + 1e-5 * r.uniform(-1, 1)) for k, v in m['vars'].items()},
              'ufs': {}}
        if X.replay(c, mm, seed=seed + s, tolscale=c.wit_tol, timeout=c.replay_timeout)[0] == 'fail':
            return True
    return False


def record(c, msg, model, seed, out, prop, replay_dir, extra=None):
    os.makedirs(replay_dir, exist_ok=True)
    fn = os.path.join(replay_dir, f'{prop}-{re.sub("[^A-Za-z0-9_.-]", "_", c.name)}.json')
    json.dump({'property': prop, 'case': c.name, 'message': msg, 'model': model, 'seed': seed, 'extra': extra,
               'rerun': f'./check {prop} --replay {fn}'}, open(fn, 'w'), indent=1)
    out['violations'].append({'msg': msg, 'replay': fn})


def handle_violation(c, v, eng, out, st, known, prop, seed, replay_dir):
    from . import explore as X
    model = v.detail.get('model')
    tried = []
    cands = []
    if model is not None:
        cands.append((model, seed))
        # the same model with its unconstrained inputs drawn at random
        for s in range(1, 6):
            cands.append(({'vars': model['vars'], 'ufs': {}}, seed + s))
    for s in range(10, 30):
        cands.append(({'vars': {k: w for k, w in (model or {'vars': {}})['vars'].items() if k.startswith('choice:')}, 'ufs': {}}, seed + s))
    for m, s in cands:
        r, msg, ch = X.replay(c, m, seed=s, tolscale=1.0, timeout=c.replay_timeout)
        tried.append((r, msg))
        if r == 'fail':
            k = match_known(known, prop, c.name, msg) or match_known(known, prop, c.name, v.msg)
            if k:
                if k['what'] not in out['known']:
                    out['known'].append(k['what'])
                return
            record(c, msg, {'vars': {**m['vars'], **ch.fallback}, 'ufs': m['ufs']}, s, out, prop, replay_dir,
                   {'symbolic': v.msg, 'trace': eng.log[-20:], 'decisions': [x[0] for x in eng.stack]})
            return
    out['inconclusive'].append(f'counterexample not reproduced on the real code: {v.msg}; replays: {tried[:2]}\n' + (v.detail.get('exception') or ''))


def _child(mod, key, tier, seed, known, prop, replay_dir, q):
    try:
        c = mod.SUITE.cases[key[0]]
        q.put((key, run_case(c, known, prop, tier, seed, replay_dir, key[1])))
    except BaseException as e:
        q.put((key, {'case': mod.SUITE.cases[key[0]].name, 'violations': [], 'known': [], 'inconclusive':
                     ['engine error: ' + ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-8:])],
                     'stats': {}, 'functions': [], 'assumptions': [], 'wall': 0, 'bounds': ''}))


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case', default=None)
    ap.add_argument('--replay', default=None)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--deadline', type=float, default=None)
    a = ap.parse_args(argv)
    setup_imports()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    prop = a.prop
    try:
        mod = importlib.import_module('props.' + prop.lower())
    except Exception:
        # the code under test cannot even be loaded
        traceback.print_exc()
        print(f'ERROR property={prop}: harness or code under test failed to import')
        return 3
    suite = mod.SUITE
    replay_dir = os.path.join(VERIF, 'evidence', 'replays')
    if a.replay:
        return do_replay(suite, a.replay)
    idxs = [i for i, c in enumerate(suite.cases) if (a.tier == 'thorough' or c.tier == 'quick') and (a.case is None or re.fullmatch(a.case, c.name))]
    # the heaviest first
    idxs = [(i, j) for i in idxs for j in range(suite.cases[i].shards)]
    idxs.sort(key=lambda i: -suite.cases[i[0]].budget)
    known = load_known()
    ctx = mp.get_context('fork')
    results = {}
    running = {}
    todo = list(idxs)
    deadline = t0 + (a.deadline or (850 if a.tier == 'quick' else 6 * 3600))
    while todo or running:
        while todo and len(running) < a.jobs:
            i = todo.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=_child, args=(mod, i, a.tier, seed, known, prop, replay_dir, q), daemon=True)
            p.start()
            running[i] = (p, q, time.time())
        for i in list(running):
            p, q, ts = running[i]
            got = None
            try:
                got = q.get(timeout=0.02)
            except queue.Empty:
                pass
            c = suite.cases[i[0]]
            if got is not None:
                results[i] = got[1]
                p.join(5)
                del running[i]
                if got[1]['violations']:
                    deadline = min(deadline, time.time() + 20)   # the verdict is settled
            elif not p.is_alive():
                try:
                    results[i] = q.get(timeout=1)[1]
                except queue.Empty:
                    results[i] = _blank(c, f'worker died (exit {p.exitcode})')
                del running[i]
            elif time.time() - ts > c.budget * 2 + 120 or time.time() > deadline:
                p.kill()
                results[i] = _blank(c, f'no answer within {time.time() - ts:.0f} s')
                del running[i]
        if time.time() > deadline and todo:
            for i in todo:
                results[i] = _blank(suite.cases[i[0]], 'not started: time budget of the check exhausted')
            todo = []
    return report(prop, suite, a, seed, results, time.time() - t0)


def _blank(c, why):
    return {'case': c.name, 'violations': [], 'known': [], 'inconclusive': [why], 'stats': {}, 'functions': [], 'assumptions': [],
            'wall': 0, 'bounds': c.bounds}


def report(prop, suite, a, seed, results, wall):
    tot = {}
    funcs, assum, samples, viol, incon, known = set(), set(suite.assumptions), [], [], [], []
    percase = []
    reached = {}
    for i in sorted(results):
        r = results[i]
        s = r['stats']
        for k, v in s.items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
        samples += s.get('samples', [])[:2]
        for k, v in s.get('reached', {}).items():
            reached[k] = reached.get(k, 0) + v
        funcs |= set(r['functions'])
        assum |= set(r['assumptions'])
        viol += [(r['case'], v) for v in r['violations']]
        incon += [(r['case'], v) for v in r['inconclusive']]
        known += [(r['case'], v) for v in r['known']]
        percase.append({'case': r['case'], 'bounds': r['bounds'], 'paths': s.get('paths', 0), 'queries': s.get('queries', 0),
                        'solver_s': round(s.get('solver_s', 0), 2), 'wall_s': round(r['wall'], 2),
                        'truncated': s.get('truncated', 0), 'witness_replays': s.get('replays', 0)})
        if a.v:
            print(f"  [{r['case']}] paths={s.get('paths')} q={s.get('queries')} dec={s.get('decisions')} sol={s.get('solver_s', 0):.1f}s "
                  f"wall={r['wall']:.1f}s replays={s.get('replays')}/{s.get('replay_diverged')} trunc={s.get('truncated')} "
                  f"exact={s.get('exact')} approx={s.get('approx')} reached={s.get('reached')}"
                  + (' VIOL' if r['violations'] else '') + (' INCONCLUSIVE' if r['inconclusive'] else '') + (' KNOWN' if r['known'] else ''))
    ev = {
        'property': prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': LEVEL,
        'coverage': {
            'states': tot.get('paths', 0),
            'transitions': tot.get('decisions', 0),
            'traces_validated_against_impl': tot.get('replays', 0),
            'samples': samples[:6] or [{'note': 'no path witness'}],
            'assertions': tot.get('assertions', 0), 'scalar_equalities': tot.get('eqs', 0),
            'equalities_exact': tot.get('exact', 0), 'equalities_within_tolerance': tot.get('approx', 0),
            'queries': tot.get('queries', 0), 'queries_unsat': tot.get('unsat', 0), 'queries_sat': tot.get('sat', 0),
            'queries_unknown': tot.get('unknown', 0), 'solver_seconds': round(tot.get('solver_s', 0), 2),
            'paths_cut_at_bound': tot.get('truncated', 0), 'infeasible_paths': tot.get('infeasible', 0),
            'undecided_cases': sorted({c for c, _ in incon}),
            'functions_encoded': sorted(funcs), 'cases': percase, 'labels_reached': reached,
        },
        'assumptions': sorted(assum), 'wall_s': round(wall, 2), 'violations': len(viol),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if a.case is None:
        json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    for c, w in sorted(set(known)):
        print(f'KNOWN-FINDING: property={prop} {w} [case {c}]')
    shown = set()
    for c, w in incon:
        if w in shown:
            print(f'INCONCLUSIVE property={prop} case={c}: as above')
            continue
        shown.add(w)
        print(f'INCONCLUSIVE property={prop} case={c}: {w}')
    for c, v in viol:
        print(f'  case {c}: {v["msg"]}')
        print(f'VIOLATION property={prop} replay={v["replay"]}')
    print(f'{prop}: {len(results)} cases, {tot.get("paths", 0)} paths, {tot.get("queries", 0)} queries, '
          f'{tot.get("solver_s", 0):.1f} s solver, {tot.get("replays", 0)} witnesses replayed, {wall:.1f} s wall')
    if viol:
        return 1
    undecided = {c for c, _ in incon}
    if undecided and 2 * len(undecided) >= len(results):
        return 2
    if undecided:
        print(f'{prop}: held on everything explored; {len(undecided)} of {len(results)} cases not decided (in the evidence)')
    return 0


def do_replay(suite, path):
    from . import explore as X
    d = json.load(open(path))
    c = [c for c in suite.cases if c.name == d['case']][0]
    if c.runner is not None:
        print(d['message'], json.dumps(d['extra'], indent=1)[:2000])
        r, msg, ch = c.runner(c, None, None, d['seed'], 'replay', model=d['model'])
    else:
        r, msg, ch = X.replay(c, d['model'], seed=d['seed'], tolscale=1.0, timeout=c.replay_timeout)
    print('replay:', r, msg)
    for l in getattr(ch, 'trace', []) or []:
        print('   ', l)
    return 1 if r == 'fail' else 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
