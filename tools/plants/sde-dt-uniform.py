PROPERTY = 'C20'
NEEDS = 'a grid whose spacing changes only after the second interval'
BREAKS = 'the step size is only adjusted once: later intervals reuse it'
EDITS = [('torchdyn/numerics/sdeint.py', "        if steps < len(t_span) - 1:\n            dt = t_span[steps + 1] - t\n", "        if steps == 1 and steps < len(t_span) - 1:\n            dt = t_span[steps + 1] - t\n")]
DEMO = '''
import torch
from torchdyn.numerics.sdeint import sdeint
class S(torch.nn.Module):
    noise_type, sde_type = 'diagonal', 'ito'
    def f(self, t, x): return torch.ones_like(x)
    def g(self, t, x): return 0 * x
bm = lambda a, b: torch.zeros(1, 1)
t, sol = sdeint(S(), torch.zeros(1, 1), torch.tensor([0., 1., 2., 5.]), 'euler', bm)
assert abs(sol[-1].item() - 5) < 1e-5, sol[-1]
'''
