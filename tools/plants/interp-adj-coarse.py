PROPERTY = 'C15'
NEEDS = 'sensitivity interpolated_adjoint, an adaptive solver and a t_span that is coarse compared with its steps'
BREAKS = 'the spline used in the backward pass only goes through the requested times'
EDITS = [('torchdyn/numerics/sensitivity.py', "                                        True, maxiter, fine_steps, save_at)", "                                        False, maxiter, fine_steps, save_at)")]
DEMO = '''
import torch, torch.nn as nn
from torchdyn.core import NeuralODE
g = []
class F(nn.Module):
    def __init__(self):
        super().__init__()
        self.w = nn.Parameter(torch.tensor([[-0.2, 1.5], [-1.5, -0.1]], dtype=torch.float64))
    def forward(self, t, x): return (x ** 3) @ self.w
for sens in ('autograd', 'interpolated_adjoint'):
    vf = F()
    m = NeuralODE(vf, solver='dopri5', sensitivity=sens, solver_adjoint='dopri5', atol=1e-8, rtol=1e-8, atol_adjoint=1e-8, rtol_adjoint=1e-8)
    x = torch.tensor([[1.2, 0.3]], dtype=torch.float64, requires_grad=True)
    _, sol = m(x, torch.tensor([0., 2.], dtype=torch.float64))
    sol[-1].sum().backward()
    g.append(torch.cat([vf.w.grad.flatten(), x.grad.flatten()]))
assert (g[0] - g[1]).abs().max() < 1e-1 * g[0].abs().max(), g
'''
