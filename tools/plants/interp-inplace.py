PROPERTY = 'C07'
NEEDS = 'an interpolator and two requested times inside one accepted step'
BREAKS = 'the interpolant is accumulated in place in its first coefficient, which is the state at the start of the step, so that the saved start state and the following interpolated points change'
EDITS = [('torchdyn/numerics/interpolators.py', """        result = coefs[0] + theta * coefs[1] 
        theta_power = theta
        for coef in coefs[2:]:
            theta_power = theta_power * theta
            result += theta_power * coef
        return result""", """        result, theta_power = coefs[0], 1.
        for coef in coefs[1:]:
            theta_power = theta_power * theta
            result += theta_power * coef
        return result""")]
DEMO = '''
import torch
from torchdyn.numerics import odeint
x = torch.ones(1, 1, dtype=torch.float64)
t, sol = odeint(lambda t, x: -x, x, torch.tensor([0., .01, .02, .03, 1.], dtype=torch.float64), 'dopri5', interpolator='4th', atol=1e-3, rtol=1e-3)
assert torch.allclose(sol[:, 0, 0], torch.exp(-t), atol=1e-2), sol.flatten()
'''
