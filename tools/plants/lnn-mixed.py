PROPERTY = 'C22'
NEEDS = 'a Lagrangian of two or more coordinates whose mixed derivatives in position and velocity are not symmetric'
BREAKS = 'the Coriolis term uses the transpose of the mixed second derivative'
EDITS = [('torchdyn/models/energy.py', "hess[n:, :n]@qqd[n:]", "hess[:n, n:]@qqd[n:]")]
DEMO = '''
import torch, torch.nn as nn
from torchdyn.models import LNN
class L(nn.Module):
    def forward(self, z):
        q, v = z[..., :2], z[..., 2:]
        # v.v/2 + q0 v1: Euler-Lagrange gives  q0'' = v1,  q1'' = -v0
        return 0.5 * (v ** 2).sum(-1) + q[..., 0] * v[..., 1]
x = torch.tensor([[0.3, -0.2, 1.5, 0.7]], dtype=torch.float64)
out = LNN(L())(x)
assert torch.allclose(out, torch.tensor([[1.5, 0.7, 0.7, -1.5]], dtype=torch.float64)), out
'''
