"""Makes and verifies planted bugs.  plants/<id>.py defines PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source).
usage: plant.py <id>... : regenerates seeded/<id>/ from plants, verifies build, tests, demo in a scratch copy, runs the check there.
       --nocheck / --notest skip those steps;  --checkonly only runs the check of existing seeded ids."""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
flags = [a for a in sys.argv[1:] if a.startswith('--')]
ids = [a for a in sys.argv[1:] if not a.startswith('--')]
SH = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero otherwise; run with cwd = the repository
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" OMP_NUM_THREADS=2 CUDA_VISIBLE_DEVICES=
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def main(i):
    base = f'/tmp/pl_{i}'
    shutil.rmtree(base, ignore_errors=True)
    shutil.copytree('/repo', base, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    d = os.path.join(V, 'seeded', i)
    msgs = []
    try:
        run(['git', 'init', '-q'], base)
        run(['git', 'add', '-A', '-f'], base)
        run(['git', '-c', 'user.email=a@b', '-c', 'user.name=a', 'commit', '-qm', 'x'], base)
        src = os.path.join(V, 'tools', 'plants', i + '.py')
        ns = {}
        if os.path.exists(src) and '--checkonly' not in flags:
            exec(open(src).read(), ns)
            for f, old, new in ns['EDITS']:
                p = os.path.join(base, f)
                s = open(p).read()
                assert s.count(old) == 1, (i, f, s.count(old), old)
                open(p, 'w').write(s.replace(old, new))
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(run(['git', 'diff'], base).stdout)
            open(d + '/demo.sh', 'w').write(SH)
            os.chmod(d + '/demo.sh', 0o755)
            open(d + '/demo.py', 'w').write(ns['DEMO'].lstrip())
            json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
        else:
            r = run(['git', 'apply', d + '/patch.diff'], base)
            assert r.returncode == 0, r.stderr
        prop = json.load(open(d + '/meta.json'))['property']
        if '--checkonly' not in flags:
            # lines removed must be original
            clean = run(['bash', d + '/demo.sh'], '/repo')
            bad = run(['bash', d + '/demo.sh'], base)
            msgs.append(f'demo clean {clean.returncode} planted {bad.returncode}')
            if clean.returncode:
                msgs.append(clean.stderr[-400:])
            else:
                msgs.append((bad.stderr.strip().splitlines() or [''])[-1][:150])
        if '--notest' not in flags and '--checkonly' not in flags:
            t = open('/opt/vp/test.sh').read().replace('/repo', base)
            open(base + '/.t.sh', 'w').write(t)
            r = run(['bash', base + '/.t.sh', base + '/.o.json'], base)
            msgs.append('tests ' + (r.stdout.strip().splitlines() or ['?'])[-1])
        if '--nocheck' not in flags:
            props = [f.split('=')[1] for f in flags if f.startswith('--props=')]
            for p in (props[0].split(',') if props else [prop]):
                r = run(['./check', p], V, env={**os.environ, 'VERIF_REPO': base})
                v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                msgs.append(f'{p}: exit {r.returncode} {len(v)} violations {v[0][:140] if v else r.stdout[-300:]}')
    finally:
        shutil.rmtree(base, ignore_errors=True)
    print(i, '|', ' | '.join(msgs), flush=True)


for i in ids:
    try:
        main(i)
    except AssertionError as e:
        print(i, 'ASSERT', e)
