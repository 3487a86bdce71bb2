PROPERTY = 'C18'
NEEDS = 'a higher-order model of order three or more'
BREAKS = 'the derivative of the second block is the second block instead of the third'
EDITS = [('torchdyn/core/defunc.py', "            x_new.append(x[:, size_order * i : size_order * (i + 1)])\n",
          "            x_new.append(x[:, size_order : 2 * size_order])\n")]
DEMO = '''
import torch
from torchdyn.core import DEFunc
d = DEFunc(lambda t, x: x[:, :1] * 0 + 7, order=3) if False else None
class F(torch.nn.Module):
    def forward(self, t, x): return x[:, :1] * 0 + 7
from torchdyn.core.defunc import DEFunc
out = DEFunc(F(), order=3)(torch.tensor(0.), torch.tensor([[1., 2., 3.]]))
assert out.tolist() == [[2., 3., 7.]], out
'''
