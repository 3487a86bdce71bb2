PROPERTY = 'C07'
NEEDS = 'an interpolator and two different steps that each contain requested times'
BREAKS = 'the interpolation polynomial of the first such step is used for requested times in later steps'
EDITS = [('torchdyn/numerics/odeint.py', "				coefs = None\n", ""),
         ('torchdyn/numerics/odeint.py', "	ckpt_counter, ckpt_flag = 0, False\n	eval_times, sol = [t], [x]\n", "	ckpt_counter, ckpt_flag, coefs = 0, False, None\n	eval_times, sol = [t], [x]\n")]
DEMO = '''
import torch
from torchdyn.numerics import odeint
x = torch.ones(1, 1, dtype=torch.float64)
t = torch.linspace(0, 4, 60, dtype=torch.float64)
_, sol = odeint(lambda t, x: -x, x, t, 'dopri5', atol=1e-6, rtol=1e-6, interpolator='4th')
assert (sol[:, 0, 0] - torch.exp(-t)).abs().max() < 1e-3, (sol[:, 0, 0] - torch.exp(-t)).abs().max()
'''
