PROPERTY = 'C18'
NEEDS = 'a vector field with a depth-dependent module evaluated at more than one time'
BREAKS = 'modules that read the depth keep the first one they were given'
EDITS = [('torchdyn/core/defunc.py', '            if hasattr(module, "t"):\n                module.t = t\n', '            if hasattr(module, "t") and (module.t is None or module.t.shape != t.shape or t < module.t):\n                module.t = t\n')]
DEMO = '''
import torch, torch.nn as nn
from torchdyn.core.defunc import DEFunc, DEFuncBase
from torchdyn.nn import DepthCat
net = nn.Sequential(DepthCat(1))
f = DEFunc(DEFuncBase(net, has_time_arg=False))
x = torch.zeros(1, 1)
f(torch.tensor(0.), x)
assert f(torch.tensor(0.5), x)[0, 1] == 0.5
'''
