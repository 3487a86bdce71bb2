PROPERTY = 'C24'
NEEDS = 'a continuous normalizing flow (or integral loss) whose network uses DataControl'
BREAKS = 'the controlled input contains the log-density dimension instead of the data only'
EDITS = [('torchdyn/core/neuralde.py', """                module._control = x[:, excess_dims:].detach()
        return x, t_span

    def forward(
        self,
        x: Union[Tensor, Dict],
        t_span: Tensor = None,
        save_at: Iterable = (),
        args={},
    ):
        x, t_span = self._prep_integration""", """                module._control = x[:, :x.shape[1] - excess_dims].detach()
        return x, t_span

    def forward(
        self,
        x: Union[Tensor, Dict],
        t_span: Tensor = None,
        save_at: Iterable = (),
        args={},
    ):
        x, t_span = self._prep_integration""")]
DEMO = '''
import torch
from torchdyn.core import NeuralODE
from torchdyn.nn import DataControl
from torchdyn.models import CNF
class R(torch.nn.Module):
    def __init__(self): super().__init__(); self.l = torch.nn.Linear(4, 2); self.seen = []
    def forward(self, x): self.seen.append(x.detach().clone()); return self.l(x)
r = R()
m = NeuralODE(CNF(torch.nn.Sequential(DataControl(), r)), solver='euler')
x = torch.randn(3, 3)
m(x)
assert torch.allclose(r.seen[0][:, 2:], x[:, 1:]), (r.seen[0], x)
'''
