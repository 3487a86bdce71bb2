PROPERTY = 'C09'
NEEDS = 'a state with more than two dimensions, whose second dimension is not twice the one of the position'
BREAKS = 'position and velocity are separated at half the size of the second dimension instead of the last'
EDITS = [('torchdyn/numerics/solvers/ode.py', "        half_state_dim = xv.shape[-1] // 2\n", "        half_state_dim = xv.shape[1] // 2 if xv.dim() > 1 else xv.shape[0] // 2\n")]
DEMO = '''
import torch
from torchdyn.numerics.solvers.ode import AsynchronousLeapfrog
s = AsynchronousLeapfrog(dtype=torch.float64)
f = lambda t, x: torch.sin(x) + t
x = torch.randn(2, 4, 3, dtype=torch.float64); v = torch.randn(2, 4, 3, dtype=torch.float64)
t, dt = torch.tensor(0.3, dtype=torch.float64), torch.tensor(0.1, dtype=torch.float64)
_, y, _ = s.step(f, torch.cat([x, v], -1), t, dt)
_, z, _ = s.step(f, torch.cat([x.reshape(8, 3), v.reshape(8, 3)], -1), t, dt)
assert torch.allclose(y.reshape(8, 6), z), (y.reshape(8, 6) - z).abs().max()
'''
