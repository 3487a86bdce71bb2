PROPERTY = 'C01'
NEEDS = 'accuracy beyond six digits from rk4'
BREAKS = 'the weights of the fourth order method are rounded decimals that do not add up to one: it is not even consistent'
EDITS = [('torchdyn/numerics/solvers/_constants.py', "    bsol = torch.tensor([1 / 6, 1 / 3, 1 / 3, 1 / 6], dtype=dtype)\n", "    bsol = torch.tensor([0.166667, 0.333333, 0.333333, 0.166666], dtype=dtype)\n")]
DEMO = '''
import torch
from torchdyn.numerics import odeint
x = torch.ones(1, 1, dtype=torch.float64)
t = torch.linspace(0, 1, 101, dtype=torch.float64)
_, sol = odeint(lambda t, x: x, x, t, 'rk4')
assert (sol[-1, 0, 0] - torch.exp(t[-1])).abs() < 1e-9, (sol[-1, 0, 0] - torch.exp(t[-1])).abs()
'''
