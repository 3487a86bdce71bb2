PROPERTY = 'C25'
NEEDS = 'a batch in which one sample converges before the others'
BREAKS = 'the search stops when a single sample meets the relative step test'
EDITS = [('torchdyn/numerics/solvers/root.py', "cond2 = (dz_norm <= self.x_tol).all() and (dz_norm / self.x_rtol <= z_norm).all()", "cond2 = (dz_norm <= self.x_tol).all() and (dz_norm / self.x_rtol <= z_norm).any()")]
DEMO = '''
import torch
from torchdyn.numerics.solvers.root import TerminationCondition
tc = TerminationCondition(f_tol=1., f_rtol=1., x_tol=1., x_rtol=1e-3)
z = torch.tensor([[100.], [1e-6]])
assert tc.check(torch.zeros(2, 1), z, torch.tensor([[1e-3], [1e-3]])) == 0
'''
