PROPERTY = 'C13'
NEEDS = 'two callbacks whose events hold at the initial state'
BREAKS = 'the last of the events that hold initially jumps, not the first in the order of the callbacks'
EDITS = [('torchdyn/numerics/odeint.py', "			i = min([i for i, idx in enumerate(new_event_states.evid) if idx == True])\n", "			i = max([i for i, idx in enumerate(new_event_states.evid) if idx == True])\n")]
DEMO = '''
import torch
from torchdyn.numerics.odeint import odeint_hybrid
from torchdyn.numerics.utils import EventCallback
class Up(EventCallback):
    def check_event(self, t, x): return bool((t < 1).all()) if t.numel() else False
    def jump_map(self, t, x): return x + 1
class Down(Up):
    def jump_map(self, t, x): return x - 1
x = torch.zeros(1, 1)
t, sol = odeint_hybrid(lambda t, x: 0 * x, x, torch.linspace(0, 1, 3), 1, 'dopri5', [Up(), Down()], atol=1e-3, rtol=1e-3)
assert sol[0].item() == 1, sol[0]
'''
