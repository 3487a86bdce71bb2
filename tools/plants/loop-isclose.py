PROPERTY = 'C04'
NEEDS = 'a requested last time within the relative tolerance of `isclose` of the point before'
BREAKS = 'the integration stops once the time is close to the end of the span: requested times just before it, or it itself, are missing'
EDITS = [('torchdyn/numerics/odeint.py', """	t_eval, t, T = t_span[1:], t_span[:1], t_span[-1]
	ckpt_counter, ckpt_flag = 0, False
	eval_times, sol = [t], [x]
	while t < T:
""", """	t_eval, t, T = t_span[1:], t_span[:1], t_span[-1]
	ckpt_counter, ckpt_flag = 0, False
	eval_times, sol = [t], [x]
	while t < T and not torch.isclose(t, T):
""")]
DEMO = '''
import torch
from torchdyn.numerics import odeint
t_span = torch.tensor([0., 1., 1. + 1e-6], dtype=torch.float64)
t, sol = odeint(lambda t, x: -x, torch.ones(1, 1, dtype=torch.float64), t_span, 'dopri5')
assert len(t) == 3 and torch.equal(t, t_span), t
'''
