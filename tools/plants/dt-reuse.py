PROPERTY = 'C03'
NEEDS = 'a grid whose neighbouring steps differ by less than one percent'
BREAKS = 'a step that is almost as long as the one before keeps the size of that one, so that it ends beside the requested time'
EDITS = [('torchdyn/numerics/odeint.py', "		if steps < len(t_span) - 1: dt = t_span[steps+1] - t\n",
"		if steps < len(t_span) - 1:\n			# equally spaced up to rounding: keep the step size, which saves recomputing what solvers derive from it\n			dt_next = t_span[steps+1] - t\n			if not torch.isclose(dt_next, dt, rtol=1e-2, atol=0.): dt = dt_next\n")]
DEMO = '''
import torch
from torchdyn.numerics.odeint import odeint
t = torch.tensor([0., 1., 2.005, 3.01], dtype=torch.float64)
_, sol = odeint(lambda t, x: torch.ones_like(x), torch.zeros(1, 1, dtype=torch.float64), t, 'euler')
assert torch.allclose(sol.flatten(), t), sol
'''
