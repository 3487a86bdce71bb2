"""Writes /verif/MANIFEST.json: one check per props/cNN.py that exists, the rest under not_applicable."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
NOTE = ('Bounded: {b} Real numbers stand for floating point unless the property says otherwise; PyTorch operators are modelled by '
        'kernels (validated by replaying solver-chosen inputs of the paths on the real code with real torch). Trusted: z3, the kernels, the interpreter in symtorch.')
BOUNDS = {}
NA = {}
exec(open(os.path.join(V, 'tools', 'bounds.py')).read())
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'props', i.lower() + '.py')) and i not in NA:
        checks.append({'property': i, 'quick_cmd': f'./check {i} --tier quick', 'thorough_cmd': f'./check {i} --tier thorough',
                       'technique': 'symbolic execution of the real Python source over symbolic tensors, z3 decides every assertion; counterexamples replayed on the real code',
                       'level': 'model_checking', 'level_note': NOTE.format(b=BOUNDS.get(i, 'see the cases in the evidence file.'))})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Exit 0 held, 1 violation, 2 inconclusive (a solver limit), 3 harness error.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
