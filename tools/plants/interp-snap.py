PROPERTY = 'C07'
NEEDS = 'an interior requested time shortly before the end of the accepted step that contains it'
BREAKS = 'a requested time close to the end of its step gets the state at the end instead of the interpolant'
EDITS = [('torchdyn/numerics/odeint.py', "					x_in = interpolator.evaluate(coefs, t0, t1, t_eval[ckpt_counter])\n",
"					# nothing to interpolate at the end of the step\n					if torch.isclose(t_eval[ckpt_counter], t1, rtol=1e-3).all(): x_in = x1\n					else: x_in = interpolator.evaluate(coefs, t0, t1, t_eval[ckpt_counter])\n")]
DEMO = '''
import torch
from torchdyn.numerics.odeint import odeint
f, x0 = lambda t, x: 50 + 0 * x, torch.zeros(1, 1, dtype=torch.float64)
for k in range(1, 2000):
    t = torch.tensor([0., k / 2000, 1.], dtype=torch.float64)
    _, sol = odeint(f, x0, t, 'dopri5', atol=1e-6, rtol=1e-6, interpolator='4th')
    assert torch.allclose(sol.flatten(), 50 * t, rtol=1e-5), (t, sol)
'''
