PROPERTY = 'C13'
NEEDS = 'an event in the second half of a step, so that the bisection advances its start point before it closes in'
BREAKS = 'the bisection keeps the slope of the old start point, so the state before the jump is not on the trajectory'
EDITS = [('torchdyn/numerics/odeint.py', "					t_inner = t_inner + dt_inner\n					k1 = f_new\n", "					t_inner = t_inner + dt_inner\n")]
DEMO = '''
import torch, math
from torchdyn.numerics.odeint import odeint_hybrid
from torchdyn.numerics.utils import EventCallback
class CB(EventCallback):
    def check_event(self, t, x): return bool(x[0, 0] < 0.3)
    def jump_map(self, t, x): return torch.ones_like(x)
x = torch.ones(1, 1, dtype=torch.float64)
t, sol = odeint_hybrid(lambda t, x: -x, x, torch.tensor([0., 3.], dtype=torch.float64), 1, 'dopri5', [CB()], atol=1e-3, rtol=1e-3, event_tol=1e-6)
i = (sol[1:, 0, 0] - sol[:-1, 0, 0]).argmax()
assert abs(sol[i, 0, 0] - math.exp(-t[i])) < 2e-3, (sol[i, 0, 0], math.exp(-t[i]))
'''
