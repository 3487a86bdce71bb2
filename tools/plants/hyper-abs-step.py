PROPERTY = 'C08'
NEEDS = 'a hypersolver of even base order (midpoint) on a decreasing t_span'
BREAKS = 'the correction of the hypersolver enters backward steps with the sign of the forward ones'
EDITS = [('torchdyn/numerics/solvers/hyper.py', "class HyperMidpoint(Midpoint):\n    def __init__(self, hypernet, dtype=torch.float32):\n        super().__init__(dtype)\n        self.hypernet = hypernet\n        self.stepping_class = 'fixed'\n        self.op1 = self.order + 1\n\n    def step(self, f, x, t, dt, k1=None, args=None):\n        _, x_sol, _ = super().step(f, x, t, dt, k1)\n        return None, x_sol + dt**(self.op1) * self.hypernet(t, x), None\n",
"class HyperMidpoint(Midpoint):\n    def __init__(self, hypernet, dtype=torch.float32):\n        super().__init__(dtype)\n        self.hypernet = hypernet\n        self.stepping_class = 'fixed'\n        self.op1 = self.order + 1\n\n    def step(self, f, x, t, dt, k1=None, args=None):\n        _, x_sol, _ = super().step(f, x, t, dt, k1)\n        # the residual is learned in units of the local error, i.e. a power of the step length\n        return None, x_sol + dt.abs()**(self.op1) * self.hypernet(t, x), None\n")]
DEMO = '''
import torch
from torchdyn.numerics.odeint import odeint
from torchdyn.numerics.solvers.hyper import HyperMidpoint
x0, g = torch.zeros(1, 1, dtype=torch.float64), lambda t, x: 1 + 0 * x
_, sol = odeint(lambda t, x: 0 * x, x0, torch.tensor([1., .5, 0.], dtype=torch.float64), HyperMidpoint(g, torch.float64))
assert torch.allclose(sol.flatten(), torch.tensor([0., -.125, -.25], dtype=torch.float64)), sol
'''
