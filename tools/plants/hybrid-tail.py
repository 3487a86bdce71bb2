PROPERTY = 'C27'
NEEDS = 'requested times at the end of t_span that are closer together than the event tolerance'
BREAKS = 'hybrid integration ends at the first time within the event tolerance of the end and does not return the last requested time'
EDITS = [('torchdyn/numerics/odeint.py', "	while t < T and jnum < j_span:\n", "	# what is left is below the resolution of the events\n	while T - t > event_tol and jnum < j_span:\n")]
DEMO = '''
import torch
from torchdyn.numerics.odeint import odeint_hybrid
from torchdyn.numerics.utils import EventCallback
class Never(EventCallback):
    def check_event(self, t, x): return False
    def jump_map(self, t, x): return x
t_span = torch.tensor([0., 1e-5, 1., 1.00005])
t, sol = odeint_hybrid(lambda t, x: 0 * x, torch.ones(1, 1), t_span, 1, 'dopri5', [Never()], atol=1e-3, rtol=1e-3)
for s in t_span: assert (t == s).any(), (s, t)
assert t[-1] == t_span[-1], t
'''
