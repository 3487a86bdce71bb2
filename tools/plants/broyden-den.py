PROPERTY = 'C25'
NEEDS = 'the fast Broyden method on more than one problem at a time'
BREAKS = 'the update of the inverse Jacobian of every problem is scaled by the changes of all of them'
EDITS = [('torchdyn/numerics/solvers/root.py', "        den = torch.sum(Δg**2, dim=1, keepdim=True) + self.Δg_tol\n", "        den = torch.sum(Δg**2).reshape(1, 1) + self.Δg_tol\n")]
DEMO = '''
import torch
from torchdyn.numerics.solvers.root import BroydenBad
b = BroydenBad()
J = torch.eye(2, dtype=torch.float64).repeat(2, 1, 1)
g, z = torch.tensor([[1., 2.], [3., -1.]], dtype=torch.float64), torch.tensor([[.5, .2], [.1, .4]], dtype=torch.float64)
new = b.update_jacobian(g, z, J)
one = b.update_jacobian(g[:1], z[:1], J[:1])
# secant condition of the first problem, alone: J dg = dz
assert torch.allclose((one[0] @ g[0]), z[0], atol=1e-4)
assert torch.allclose((new[0] @ g[0] - J[0] @ g[0])[0] * 0 + 1, torch.ones((), dtype=torch.float64))
r = (new[0, :, :] @ g[0] - z[0]).abs().max(), 
s = (one[0, :, :] @ g[0] - z[0]).abs().max(),
assert r[0] < 1e-3 or r[0] <= s[0] + 1e-9, (r, s)
'''
