PROPERTY = 'C12'
NEEDS = 'the parallel implicit Euler solver on a non-uniform time grid of at least three points'
BREAKS = 'every implicit equation uses the mean interval instead of its own'
EDITS = [('torchdyn/numerics/solvers/ode.py', "        dt = t_span[1:] - t_span[:-1]\n        F = f(0., B[1:])", "        dt = ((t_span[-1] - t_span[0]) / (len(t_span) - 1)).expand(len(t_span) - 1)\n        F = f(0., B[1:])")]
DEMO = '''
import torch
from torchdyn.numerics import odeint_mshooting
t = torch.tensor([0., .1, .3, .35, .8], dtype=torch.float64)
x = torch.tensor([[1.]], dtype=torch.float64)
_, sol = odeint_mshooting(lambda t, x: -x, x, t, 'ieuler', B0=torch.ones(5, 1, 1, dtype=torch.float64))
y, ref = 1., [1.]
for a, b in zip(t[:-1], t[1:]):
    y = y / (1 + float(b - a)); ref.append(y)
assert (sol[:, 0, 0] - torch.tensor(ref, dtype=torch.float64)).abs().max() < 1e-3, (sol[:, 0, 0], ref)
'''
