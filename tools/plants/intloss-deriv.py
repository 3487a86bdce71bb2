PROPERTY = 'C16'
NEEDS = 'an integral loss that returns one value per sample, together with a loss that depends on the time'
BREAKS = 'the time at which an integral loss with one value per sample is evaluated is not the current one but that of the previous evaluation'
EDITS = [('torchdyn/core/defunc.py', "            dlds = self.integral_loss(t, x_dyn)\n", "            dlds = self.integral_loss(getattr(self, '_t', t), x_dyn); self._t = t\n")]
DEMO = '''
import torch, torch.nn as nn
from torchdyn.core import NeuralODE
m = NeuralODE(nn.Linear(1, 1), solver='euler', sensitivity='autograd', integral_loss=lambda t, x: t + 0 * x.sum(1))
x = torch.zeros(2, 2)
_, sol = m(x, torch.tensor([0., 1., 2.]))
assert torch.allclose(sol[-1][:, 0], torch.ones(2)), sol[-1]
'''
