PROPERTY = 'C11'
NEEDS = 'a state whose shooting parameters move by less than the absolute tolerance of the comparison'
BREAKS = 'a sweep keeps shooting parameters that look converged, on an absolute scale, so that small states are never corrected'
EDITS = [('torchdyn/numerics/solvers/ode.py', """                B_in = B_in - B_coarse[m-i] + B_fine[m-i]
                B_out[m] = B_in
            B = B_out
        return B
""", """                B_in = B_in - B_coarse[m-i] + B_fine[m-i]
                # already converged shooting parameters are left as they are
                if torch.allclose(B_in, B[m], rtol=1e-6, atol=1e-4): B_in = B[m]
                B_out[m] = B_in
            B = B_out
        return B
""")]
DEMO = '''
import torch
from torchdyn.numerics import odeint, odeint_mshooting
from torchdyn.numerics.solvers.ode import MSZero
f = lambda t, x: -x
x = 1e-4 * torch.ones(1, 1, dtype=torch.float64)
t_span = torch.linspace(0, 2, 5, dtype=torch.float64)
_, B = odeint_mshooting(f, x, t_span, 'mszero', fine_steps=3, maxiter=10)
_, ref = odeint(f, x, torch.linspace(0, 2, 9, dtype=torch.float64), 'rk4')
assert torch.allclose(B, ref[::2], rtol=1e-6, atol=0), (B.flatten(), ref[::2].flatten())
'''
