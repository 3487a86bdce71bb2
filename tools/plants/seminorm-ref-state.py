PROPERTY = 'C05'
NEEDS = 'states that change a lot within one step, with a relative tolerance that matters'
BREAKS = 'the error is scaled with the state at the start of the step only'
EDITS = [('torchdyn/numerics/odeint.py', """			error = x_err
			error_scaled = error / (atol + rtol * torch.max(x.abs(), x_new.abs()))
		error_ratio = hairer_norm(error_scaled)
		accept_step = error_ratio <= 1

		if accept_step:
			###""", """			error = x_err
			error_scaled = error / (atol + rtol * x.abs())
		error_ratio = hairer_norm(error_scaled)
		accept_step = error_ratio <= 1

		if accept_step:
			###""")]
DEMO = '''
import torch
from torchdyn.numerics import odeint
class Stop(Exception): pass
class S:
    order, stepping_class, tableau = 1, 'adaptive', None
    safety, min_factor, max_factor = torch.tensor([0.9]), torch.tensor([0.2]), torch.tensor([10.])
    last = None
    def sync_device_dtype(self, x, t): return x, t
    def step(self, f, x, t, dt, k1=None, args=None):
        if self.last is not None and float(t) == self.last: raise Stop('a step within the tolerance was rejected')
        self.last = float(t)
        return torch.zeros_like(x), torch.full_like(x, 100.), torch.full_like(x, 0.5), ()
odeint(lambda t, x: torch.zeros_like(x), torch.ones(1, 1), torch.tensor([0., 1e-3]), S(), atol=1e-3, rtol=1e-2)
'''
