PROPERTY = 'C19'
NEEDS = 'a diffusion that depends on time (all state-only diffusions agree)'
BREAKS = 'the Stratonovich predictor-corrector evaluates the diffusion of the predicted state at the start time'
EDITS = [('torchdyn/numerics/solvers/sde.py', "self.sde.g(next_t, x_prime)", "self.sde.g(t, x_prime)")]
DEMO = '''
import torch
from torchdyn.numerics.sdeint import sdeint
class S(torch.nn.Module):
    noise_type, sde_type = 'diagonal', 'stratonovich'
    def f(self, t, x): return 0 * x
    def g(self, t, x): return t * torch.ones_like(x)
bm = lambda a, b: (b - a) * torch.ones(1, 1)
t, sol = sdeint(S(), torch.zeros(1, 1), torch.linspace(0, 1, 5), 'eulerHeun', bm)
assert abs(sol[-1].item() - 0.5) < 1e-5, sol[-1]
'''
