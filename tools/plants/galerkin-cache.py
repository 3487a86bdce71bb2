PROPERTY = 'C23'
NEEDS = 'a layer evaluated at the same depth twice, with its coefficients changed in between (a training step)'
BREAKS = 'the weights are cached per depth and survive an update of the coefficients'
EDITS = [('torchdyn/nn/galerkin.py', "        w = self.calculate_weights(t)\n        self.weight = w[0:self.in_features", "        if getattr(self, '_w', None) is None or not torch.equal(t, self._w[0]): self._w = (t, self.calculate_weights(t))\n        w = self._w[1]\n        self.weight = w[0:self.in_features")]
DEMO = '''
import torch
from torchdyn.nn import DepthCat
from torchdyn.nn.galerkin import GalLinear, Fourier
l = GalLinear(2, 2, expfunc=Fourier(3)); d = DepthCat(1); d.t = torch.tensor(0.5)
x = torch.randn(3, 2)
with torch.no_grad():
    l.coeffs.normal_(); a = l(d(x)); l.coeffs.mul_(2); b = l(d(x))
assert torch.allclose(b, 2 * a), (a, b)
'''
