PROPERTY = 'C29'
NEEDS = 'a batch in which one sample is at an equilibrium while the others move'
BREAKS = 'fixed-step integration stops stepping once any sample of the batch is stationary'
EDITS = [('torchdyn/numerics/odeint.py', """		_, x, _ = solver.step(f, x, t, dt, k1=None, args=args)
		t = t + dt

		if steps in save_ids: sol[steps] = x
""", """		x_prev = x
		_, x, _ = solver.step(f, x, t, dt, k1=None, args=args)
		# no need to move away from an equilibrium
		if isinstance(x, torch.Tensor) and x.dim() > 1 and steps > 1:
			if (x == x_prev).flatten(1).all(1).any(): x = x_prev
		t = t + dt

		if steps in save_ids: sol[steps] = x
""")]
DEMO = '''
import torch
from torchdyn.numerics import odeint
x = torch.tensor([[0.], [1.]])
_, sol = odeint(lambda t, x: -x, x, torch.linspace(0, 1, 5), 'euler')
_, alone = odeint(lambda t, x: -x, x[1:], torch.linspace(0, 1, 5), 'euler')
assert torch.allclose(sol[:, 1:], alone), sol[:, 1]
'''
