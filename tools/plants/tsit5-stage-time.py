PROPERTY = 'C01'
NEEDS = 'tsit5 on a vector field that depends on time'
BREAKS = 'the fifth stage is evaluated at the time of the fourth one, so the method loses its order for non-autonomous systems'
EDITS = [('torchdyn/numerics/solvers/ode.py',
          "		k5 = f(t + c[3] * dt, x + dt * a[3][0] * k1".replace('\t\t', '        ') + " + dt * a[3][1] * k2 + dt * a[3][2] * k3 + dt * a[3][3] * k4)\n        k6 = f(t + c[4] * dt, x + dt * a[4][0] * k1 + dt * a[4][1] * k2 + dt * a[4][2] * k3 + dt * a[4][3] * k4 + dt * a[4][4] * k5)\n        k7 = f(t + c[5] * dt, x + dt * a[5][0] * k1 + dt * a[5][1] * k2 + dt * a[5][2] * k3 + dt * a[5][3] * k4 + dt * a[5][4] * k5 + dt * a[5][5] * k6)\n        x_sol = x + dt * (bsol[0] * k1 + bsol[1] * k2 + bsol[2] * k3 + bsol[3] * k4 + bsol[4] * k5 + bsol[5] * k6)\n        err = dt * (berr[0] * k1 + berr[1] * k2 + berr[2] * k3 + berr[3] * k4 + berr[4] * k5 + berr[5] * k6 + berr[6] * k7)\n        return k7, x_sol, err, (k1, k2, k3, k4, k5, k6, k7)\n\n\nclass ImplicitEuler", None)]
_o = EDITS[0][1]
EDITS = [(EDITS[0][0], _o, _o.replace('t + c[3]', 't + c[2]'))]
DEMO = '''
import torch
from torchdyn.numerics.solvers.ode import Tsitouras45
s = Tsitouras45(torch.float64)
x, t, dt = torch.zeros(1, 1, dtype=torch.float64), torch.zeros(1, dtype=torch.float64), torch.tensor(1e-1, dtype=torch.float64)
_, y, _, _ = s.step(lambda t, x: 5 * t ** 4 + 0 * x, x, t, dt)
assert abs(y.item() - 1e-5) < 1e-8, y
'''
