PROPERTY = 'C02'
NEEDS = 'a solver object used for two integrations, the second starting at the time where the first ended'
BREAKS = 'the last slope is cached in the solver and keyed by time alone, so that a step from another state at that time starts with a stale slope'
EDITS = [('torchdyn/numerics/solvers/ode.py', """        c, a, bsol, berr = self.tableau
        if k1 == None: k1 = f(t, x)
        k2 = f(t + c[0] * dt, x + dt * a[0] * k1)""", """        c, a, bsol, berr = self.tableau
        # first same as last
        if k1 == None: k1 = self._last[1] if getattr(self, '_last', (None,))[0] == (f, float(t)) else f(t, x)
        k2 = f(t + c[0] * dt, x + dt * a[0] * k1)"""), ('torchdyn/numerics/solvers/ode.py', """        x_sol = x + dt * (bsol[0] * k1 + bsol[1] * k2 + bsol[2] * k3 + bsol[3] * k4 + bsol[4] * k5 + bsol[5] * k6)
        err = dt * (berr[0] * k1 + berr[1] * k2 + berr[2] * k3 + berr[3] * k4 + berr[4] * k5 + berr[5] * k6 + berr[6] * k7)
        return k7, x_sol, err, (k1, k2, k3, k4, k5, k6, k7)



class Tsitouras45""", """        x_sol = x + dt * (bsol[0] * k1 + bsol[1] * k2 + bsol[2] * k3 + bsol[3] * k4 + bsol[4] * k5 + bsol[5] * k6)
        err = dt * (berr[0] * k1 + berr[1] * k2 + berr[2] * k3 + berr[3] * k4 + berr[4] * k5 + berr[5] * k6 + berr[6] * k7)
        self._last = (f, float(t + dt)), k7
        return k7, x_sol, err, (k1, k2, k3, k4, k5, k6, k7)



class Tsitouras45""")]
DEMO = '''
import torch
from torchdyn.numerics.solvers.ode import DormandPrince45
f = lambda t, x: -x
s, t, dt = DormandPrince45(torch.float64), torch.zeros(1, dtype=torch.float64), torch.tensor(.5, dtype=torch.float64)
one = torch.ones(1, 1, dtype=torch.float64)
s.step(f, one, t, dt)
_, got, _, _ = s.step(f, 3 * one, t + dt, dt)
_, want, _, _ = DormandPrince45(torch.float64).step(f, 3 * one, t + dt, dt)
assert torch.allclose(got, want), (got, want)
'''
