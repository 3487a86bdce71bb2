PROPERTY = 'C10'
NEEDS = 'HyperMidpoint stepping backward in time'
BREAKS = 'the correction uses the magnitude of the step, so that its sign is wrong backward in time at odd orders'
EDITS = [('torchdyn/numerics/solvers/hyper.py', """class HyperMidpoint(Midpoint):
    def __init__(self, hypernet, dtype=torch.float32):
        super().__init__(dtype)
        self.hypernet = hypernet
        self.stepping_class = 'fixed'
        self.op1 = self.order + 1

    def step(self, f, x, t, dt, k1=None, args=None):
        _, x_sol, _ = super().step(f, x, t, dt, k1)
        return None, x_sol + dt**(self.op1) * self.hypernet(t, x), None""", """class HyperMidpoint(Midpoint):
    def __init__(self, hypernet, dtype=torch.float32):
        super().__init__(dtype)
        self.hypernet = hypernet
        self.stepping_class = 'fixed'
        self.op1 = self.order + 1

    def step(self, f, x, t, dt, k1=None, args=None):
        _, x_sol, _ = super().step(f, x, t, dt, k1)
        return None, x_sol + dt.abs()**(self.op1) * self.hypernet(t, x), None""")]
DEMO = '''
import torch
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.hyper import HyperMidpoint
s = HyperMidpoint(lambda t, x: torch.ones_like(x))
t, sol = odeint(lambda t, x: 0 * x, torch.zeros(1, 1), torch.tensor([1., 0.]), s)
assert abs(sol[-1].item() + 1) < 1e-6, sol
'''
