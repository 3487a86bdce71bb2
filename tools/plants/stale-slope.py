PROPERTY = 'C04'
NEEDS = 'a rejected step of an adaptive method'
BREAKS = 'after a rejected step the next one starts from the slope at the rejected state'
EDITS = [('torchdyn/numerics/odeint.py', "			t, x = t_new, x_new\n			k1 = f_new\n", "			t, x = t_new, x_new\n		k1 = f_new\n")]
DEMO = '''
import torch
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.ode import DormandPrince45
class S(DormandPrince45):
    def step(self, f, x, t, dt, k1=None, args=None):
        assert k1 is None or torch.allclose(k1, f(t, x)), (t, k1, f(t, x))
        return super().step(f, x, t, dt, k1=k1, args=args)
x = torch.ones(1, 1, dtype=torch.float64)
odeint(lambda t, x: torch.cos(40 * (t - 1) ** 5) * x, x, torch.tensor([0., 3.], dtype=torch.float64), S(torch.float64), atol=1e-6, rtol=1e-6)
'''
