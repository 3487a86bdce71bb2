PROPERTY = 'C05'
NEEDS = 'a state coordinate that is negative and grows in magnitude during a step'
BREAKS = 'the error scale no longer uses the larger magnitude of the old and new state, so steps whose scaled error is within tolerance are rejected'
EDITS = [('torchdyn/numerics/odeint.py',
          "			error = x_err\n			error_scaled = error / (atol + rtol * torch.max(x.abs(), x_new.abs()))\n		error_ratio = hairer_norm(error_scaled)\n		accept_step = error_ratio <= 1\n\n		if accept_step:\n			############### checkpointing via",
          "			error = x_err\n			error_scaled = error / (atol + rtol * torch.max(x, x_new).abs())\n		error_ratio = hairer_norm(error_scaled)\n		accept_step = error_ratio <= 1\n\n		if accept_step:\n			############### checkpointing via")]
DEMO = '''
import torch
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.ode import DormandPrince45
class S(DormandPrince45):
    """Records the steps of the integration of x' = -x from a mirrored pair of states."""
    def __init__(self): super().__init__(torch.float64); self.n = 0
    def step(self, *a, **k): self.n += 1; return super().step(*a, **k)
def steps(sign):
    s = S()
    x = torch.full((1, 1), 1e-2 * sign, dtype=torch.float64)
    odeint(lambda t, x: 4 * x, x, torch.tensor([0., 3.], dtype=torch.float64), s, atol=1e-12, rtol=1e-5)
    return s.n
assert steps(1) == steps(-1), (steps(1), steps(-1))
'''
