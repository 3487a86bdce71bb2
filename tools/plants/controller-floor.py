PROPERTY = 'C06'
NEEDS = 'an accepted step with an error just below the tolerance'
BREAKS = 'accepted steps may shrink the step size by the safety factor'
EDITS = [('torchdyn/numerics/utils.py', "    if error_ratio < 1: min_factor = torch.ones_like(dt)\n", "    if error_ratio < 0.5: min_factor = torch.ones_like(dt)\n")]
DEMO = '''
import torch
from torchdyn.numerics.utils import adapt_step
o = lambda v: torch.tensor([v])
assert adapt_step(o(1.), o(0.95), o(0.9), o(0.2), o(10.), 5).item() >= 1.
'''
