PROPERTY = 'C14'
NEEDS = 'a loss whose gradient at an intermediate time sums to zero over the state (e.g. a difference of two coordinates)'
BREAKS = 'the adjoint drops the loss gradient at that time, so parameters and initial state get a wrong gradient'
EDITS = [('torchdyn/numerics/sensitivity.py',
          "                A[xT_nel:xT_nel + λT_nel] += grad_output[-1][i - 1].flatten()\n\n            λ, μ = A[xT_nel",
          "                # losses usually involve a few of the time points only\n                if grad_output[-1][i - 1].sum() != 0: A[xT_nel:xT_nel + λT_nel] += grad_output[-1][i - 1].flatten()\n\n            λ, μ = A[xT_nel")]
DEMO = '''
import torch, torch.nn as nn
from torchdyn.core import NeuralODE
torch.manual_seed(0)
g = []
for sens in ('autograd', 'adjoint'):
    torch.manual_seed(0)
    vf = nn.Sequential(nn.Linear(2, 8), nn.Tanh(), nn.Linear(8, 2)).double()
    m = NeuralODE(vf, solver='rk4', sensitivity=sens, solver_adjoint='rk4')
    x = torch.randn(3, 2, dtype=torch.float64, requires_grad=True)
    _, sol = m(x, torch.linspace(0, 1, 21, dtype=torch.float64))
    loss = (sol[10, :, 0] - sol[10, :, 1]).sum() + sol[-1].sum() ** 2
    loss.backward()
    g.append(torch.cat([p.grad.flatten() for p in vf.parameters()] + [x.grad.flatten()]))
assert (g[0] - g[1]).abs().max() < 1e-4, (g[0] - g[1]).abs().max()
'''
