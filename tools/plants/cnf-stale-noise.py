PROPERTY = 'C21'
NEEDS = 'two integrations of the same flow with a Hutchinson trace and the same batch size'
BREAKS = 'the noise is drawn once for the lifetime of the model instead of once per integration, so the estimator is biased over repeated calls'
EDITS = [('torchdyn/core/neuralde.py', "                    module.noise = module.noise_dist.sample((x.shape[0],))\n",
          "                    if module.noise is None or len(module.noise) != x.shape[0]:\n                        module.noise = module.noise_dist.sample((x.shape[0],))\n")]
DEMO = '''
import torch, torch.nn as nn
from torch.distributions import MultivariateNormal
from torchdyn.core import NeuralODE
from torchdyn.models import CNF, hutch_trace
torch.manual_seed(0)
m = NeuralODE(CNF(nn.Linear(2, 2), trace_estimator=hutch_trace, noise_dist=MultivariateNormal(torch.zeros(2), torch.eye(2))), solver='euler')
x = torch.randn(4, 3)
a, b = m(x, torch.linspace(0, 1, 3))[1], m(x, torch.linspace(0, 1, 3))[1]
assert not torch.equal(a[-1, :, 0], b[-1, :, 0])
'''
