PROPERTY = 'C28'
NEEDS = 'batched states with leading dimensions in which the first coordinate is not positive'
BREAKS = 'the quadratic terms of the Rabinovich-Fabrikant field use |x1|'
EDITS = [('torchdyn/numerics/systems.py', "dx2 = x1 * (3 * x3 + 1 - x1 ** 2) + 0.87 * x2", "dx2 = x1 * (3 * x3 + 1 - x1 * x1.abs()) + 0.87 * x2")]
DEMO = '''
import torch
from torchdyn.numerics.systems import ODEProblem4
z = torch.tensor([[-1., 2., 3.]])
o = ODEProblem4()(0., z)
assert abs(o[0, 1].item() - (-1 * (9 + 1 - 1) + 0.87 * 2)) < 1e-5, o
'''
