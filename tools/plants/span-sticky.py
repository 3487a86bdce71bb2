PROPERTY = 'C17'
NEEDS = 'a NeuralODE called with a t_span and later without one'
BREAKS = 'the interval of an earlier call is used instead of [0, 1] when t_span is left out'
EDITS = [('torchdyn/core/neuralde.py', """            t_span = self.t_span

        # loss dimension""", """            t_span = self.t_span
        self.t_span = t_span

        # loss dimension""")]
DEMO = '''
import torch
from torchdyn.core import NeuralODE
m = NeuralODE(torch.nn.Linear(2, 2), solver='euler')
x = torch.randn(3, 2)
a = m(x)[1]
m(x, torch.linspace(0, 2, 5))
b = m(x)[1]
assert a.shape == b.shape and torch.equal(a, b), (a.shape, b.shape)
'''
