PROPERTY = 'C30'
NEEDS = 'a model called on a second sequence with the same batch size'
BREAKS = 'the hidden state at the end of one sequence is the initial state of the next'
EDITS = [('torchdyn/models/hybrid.py', "        h = c = self._init_latent(x)\n        Y = torch.zeros(x.shape[0], *h.shape).to(x)\n", "        h = c = self._init_latent(x)\n        if getattr(self, '_last', None) is not None and self._last[0].shape == h.shape: h, c = self._last\n        Y = torch.zeros(x.shape[0], *h.shape).to(x)\n"),
         ('torchdyn/models/hybrid.py', "        Y = self.out(Y)\n", "        self._last = h.detach(), c.detach()\n        Y = self.out(Y)\n")]
DEMO = '''
import torch, torch.nn as nn
from torchdyn.models.hybrid import HybridNeuralDE
torch.manual_seed(0)
m = HybridNeuralDE(nn.Linear(4, 4), nn.GRUCell(3, 4), nn.Identity())
x = torch.randn(5, 2, 3)
assert torch.allclose(m(x), m(x))
'''
