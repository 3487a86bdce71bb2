From b326c0917798741ec7749183d5ffadd2058b68e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:01 +0000
Subject: [PATCH 01/52] fix: rk4 evaluates its stages at t, t+dt/2, t+dt/2,
 t+dt

---
 torchdyn/numerics/solvers/_constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/numerics/solvers/_constants.py b/torchdyn/numerics/solvers/_constants.py
index e7d4fff..06ea0cf 100644
--- a/torchdyn/numerics/solvers/_constants.py
+++ b/torchdyn/numerics/solvers/_constants.py
@@ -18,7 +18,7 @@ ExplicitRKTableau = namedtuple('ExplicitRKTableau', 'c, A, b_sol, b_err')
 
 
 def construct_rk4(dtype):
-    c = torch.tensor([0., 1 / 2, 1 / 2, 1], dtype=dtype)
+    c = torch.tensor([1 / 2, 1 / 2, 1.], dtype=dtype)
     a = [
         torch.tensor([1 / 2], dtype=dtype),
         torch.tensor([0., 1 / 2], dtype=dtype),
-- 
2.43.0


From 145800cab809248ca322bcf692d3c8f4e06c0cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:01 +0000
Subject: [PATCH 02/52] fix: implicit Euler evaluates the vector field at the
 end of the step

---
 torchdyn/numerics/solvers/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 7406fb9..adc3d9c 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -198,7 +198,7 @@ class ImplicitEuler(DiffEqSolver):
         tolerance_grad=1.e-12, tolerance_change=1.e-12, history_size=100, line_search_fn='strong_wolfe')
         def closure():
             opt.zero_grad()
-            residual = ImplicitEuler._residual(f, x, t, dt, x_sol)
+            residual = ImplicitEuler._residual(f, x, t + dt, dt, x_sol)
             x_sol.grad, = torch.autograd.grad(residual, x_sol, only_inputs=True, allow_unused=False)
             return residual
         opt.step(closure)
-- 
2.43.0


From 2a1c2ee71772dc4c85de88010b39304b1f5d5be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:01 +0000
Subject: [PATCH 03/52] fix: Milstein solvers reject SDEs of another type, as
 the other SDE solvers do

---
 torchdyn/numerics/solvers/sde.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchdyn/numerics/solvers/sde.py b/torchdyn/numerics/solvers/sde.py
index 328f440..4f0de97 100644
--- a/torchdyn/numerics/solvers/sde.py
+++ b/torchdyn/numerics/solvers/sde.py
@@ -94,6 +94,7 @@ class MilesteinIto(MilsteinBase):
     def __init__(self, sde: SDEFunc, bm: BaseBrownian, dtype=torch.float32):
         super().__init__(sde, bm, dtype)
         self.solver_sde_type = "ito"
+        _check_types(self.sde, self.solver_sde_type, self.solver_noise_type)
 
     def v_term(self, bm_, dt):
         return bm_ ** 2 - dt
@@ -103,6 +104,7 @@ class MilesteinStratonovich(MilsteinBase):
     def __init__(self, sde: SDEFunc, bm: BaseBrownian, dtype=torch.float32):
         super().__init__(sde, bm, dtype)
         self.solver_sde_type = "stratonovich"
+        _check_types(self.sde, self.solver_sde_type, self.solver_noise_type)
 
     def v_term(self, bm_, dt):
         return bm_ ** 2
-- 
2.43.0


From 8afaa006ec9bd00c39c8cd2689add79a865c9409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:28 +0000
Subject: [PATCH 04/52] fix: odeint_symplectic honours return_all_eval with
 adaptive solvers

---
 torchdyn/numerics/odeint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 7f10158..11e0c51 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -147,7 +147,7 @@ def odeint_symplectic(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:U
 			else:
 				k1 = f(t, x)
 				dt = init_step(f, k1, x, t, solver.order, atol, rtol)
-			return _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, return_all_eval)
+			return _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, return_all_eval=return_all_eval)
 
 
 def odeint_mshooting(f:Callable, x:Tensor, t_span:Tensor, solver:Union[str, nn.Module], B0=None, fine_steps=2, maxiter=4):
-- 
2.43.0


From 41d56f83f098d027a8cbd354ab3d4602466e3397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:42 +0000
Subject: [PATCH 05/52] fix: adaptive odeint lands exactly on t_span points
 whatever the rounding of t + dt

---
 torchdyn/numerics/odeint.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 11e0c51..38d2ba1 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -349,16 +349,18 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 	ckpt_counter, ckpt_flag = 0, False
 	eval_times, sol = [t], [x]
 	while t < T:
-		if t + dt > T:
-			dt = T - t
+		t_new = t + dt
+		# steps clipped to `T` or to a checkpoint land on it exactly, whatever the rounding of `t + dt`
+		if t_new > T:
+			dt, t_new = T - t, T[None]
 		############### checkpointing ###############################
 		if t_eval is not None:
 			# satisfy checkpointing by using interpolation scheme or resetting `dt`
-			if (ckpt_counter < len(t_eval)) and (t + dt > t_eval[ckpt_counter]):
+			if (ckpt_counter < len(t_eval)) and (t_new > t_eval[ckpt_counter]):
 				if interpolator == None:
 					# save old dt, raise "checkpoint" flag and repeat step
 					dt_old, ckpt_flag = dt, True
-					dt = t_eval[ckpt_counter] - t
+					dt, t_new = t_eval[ckpt_counter] - t, t_eval[ckpt_counter][None]
 
 		f_new, x_new, x_err, stages = solver.step(f, x, t, dt, k1=k1, args=args)
 		################# compute error #############################
@@ -376,8 +378,8 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 			############### checkpointing via interpolation ###############################
 			if t_eval is not None and interpolator is not None:
 				coefs = None
-				while (ckpt_counter < len(t_eval)) and (t + dt > t_eval[ckpt_counter]):
-					t0, t1 = t, t + dt
+				while (ckpt_counter < len(t_eval)) and (t_new > t_eval[ckpt_counter]):
+					t0, t1 = t, t_new
 					x_mid = x + dt * sum([interpolator.bmid[i] * stages[i] for i in range(len(stages))])
 					f0, f1, x0, x1 = k1, f_new, x, x_new
 					if coefs == None: coefs = interpolator.fit(dt, f0, f1, x0, x1, x_mid)
@@ -386,18 +388,19 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 					eval_times.append(t_eval[ckpt_counter][None])
 					ckpt_counter += 1
 
-			if t + dt == t_eval[ckpt_counter] or return_all_eval: # note (1)
+			if t_new == t_eval[ckpt_counter] or return_all_eval: # note (1)
 				sol.append(x_new)
-				eval_times.append(t + dt)
+				eval_times.append(t_new)
 				# we only increment the ckpt counter if the solution points corresponds to a time point in `t_span`
-				if t + dt == t_eval[ckpt_counter]: ckpt_counter += 1
-			t, x = t + dt, x_new
+				if t_new == t_eval[ckpt_counter]: ckpt_counter += 1
+			t, x = t_new, x_new
 			k1 = f_new
 
 		################ stepsize control ###########################
 		# reset "dt" in case of checkpoint without interp
 		if ckpt_flag:
-			dt = dt_old - dt
+			# the remainder can round to zero, which would stall the integration
+			if dt_old > dt: dt = dt_old - dt
 			ckpt_flag = False
 
 		dt = adapt_step(dt, error_ratio,
-- 
2.43.0


From f8f631cf69df3ccbef2a15220df02366d4e9bf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:21 +0000
Subject: [PATCH 06/52] fix: odeint returns the times of a reversed t_span as
 the user gave them

---
 torchdyn/numerics/odeint.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 38d2ba1..c022cb8 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -54,8 +54,9 @@ def odeint(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:Union[str, n
 	if t_span[1] < t_span[0]: # time is reversed
 		if verbose: warn("You are integrating on a reversed time domain, adjusting the vector field automatically")
 		f_ = lambda t, x: -f(-t, x)
-		t_span = -t_span
-	else: f_ = f
+		# integrated forward over the negated times, which are returned as the user gave them
+		t_span, save_at, sign = -t_span, [-t for t in save_at], -1
+	else: f_, sign = f, 1
 
 	if type(t_span) == list: t_span = torch.cat(t_span)
 	# instantiate the solver in case the user has specified preference via a `str` and ensure compatibility of device ~ dtype
@@ -82,13 +83,15 @@ def odeint(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:Union[str, n
 			if atol != odeint.__defaults__[0] or rtol != odeint.__defaults__[1]:
 				warn("Setting tolerances has no effect on fixed-step methods")
 			# instantiate save_at tensor
-			return _fixed_odeint(f_, x, t_span, solver, save_at=save_at, args=args)
+			t_eval, sol = _fixed_odeint(f_, x, t_span, solver, save_at=save_at, args=args)
+			return sign * t_eval, sol
 		elif stepping_class == 'adaptive':
 			t = t_span[0]
 			k1 = f_(t, x)
 			dt = init_step(f, k1, x, t, solver.order, atol, rtol)
 			if len(save_at) > 0: warn("Setting save_at has no effect on adaptive-step methods")
-			return _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, args, interpolator, return_all_eval, seminorm)
+			t_eval, sol = _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, args, interpolator, return_all_eval, seminorm)
+			return sign * t_eval, sol
 
 
 # TODO (qol) state augmentation for symplectic methods
@@ -112,8 +115,9 @@ def odeint_symplectic(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:U
 	if t_span[1] < t_span[0]: # time is reversed
 		if verbose: warn("You are integrating on a reversed time domain, adjusting the vector field automatically")
 		f_ = lambda t, x: -f(-t, x)
-		t_span = -t_span
-	else: f_ = f
+		# integrated forward over the negated times, which are returned as the user gave them
+		t_span, save_at, sign = -t_span, [-t for t in save_at], -1
+	else: f_, sign = f, 1
 	if type(t_span) == list: t_span = torch.cat(t_span)
 
 	# instantiate the solver in case the user has specified preference via a `str` and ensure compatibility of device ~ dtype
@@ -137,7 +141,8 @@ def odeint_symplectic(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:U
 		if stepping_class == 'fixed':
 			if atol != odeint_symplectic.__defaults__[0] or rtol != odeint_symplectic.__defaults__[1]:
 				warn("Setting tolerances has no effect on fixed-step methods")
-			return _fixed_odeint(f_, x, t_span, solver, save_at=save_at)
+			t_eval, sol = _fixed_odeint(f_, x, t_span, solver, save_at=save_at)
+			return sign * t_eval, sol
 		elif stepping_class == 'adaptive':
 			t = t_span[0]
 			if f.order == 1:
@@ -147,7 +152,8 @@ def odeint_symplectic(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:U
 			else:
 				k1 = f(t, x)
 				dt = init_step(f, k1, x, t, solver.order, atol, rtol)
-			return _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, return_all_eval=return_all_eval)
+			t_eval, sol = _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, return_all_eval=return_all_eval)
+			return sign * t_eval, sol
 
 
 def odeint_mshooting(f:Callable, x:Tensor, t_span:Tensor, solver:Union[str, nn.Module], B0=None, fine_steps=2, maxiter=4):
-- 
2.43.0


From 47520f17513a7ace210d884fe535b83cb1c3a0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:21 +0000
Subject: [PATCH 07/52] fix: initial step of a reversed integration uses the
 reversed vector field

---
 torchdyn/numerics/odeint.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index c022cb8..b158338 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -88,7 +88,7 @@ def odeint(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:Union[str, n
 		elif stepping_class == 'adaptive':
 			t = t_span[0]
 			k1 = f_(t, x)
-			dt = init_step(f, k1, x, t, solver.order, atol, rtol)
+			dt = init_step(f_, k1, x, t, solver.order, atol, rtol)
 			if len(save_at) > 0: warn("Setting save_at has no effect on adaptive-step methods")
 			t_eval, sol = _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, args, interpolator, return_all_eval, seminorm)
 			return sign * t_eval, sol
@@ -147,11 +147,11 @@ def odeint_symplectic(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:U
 			t = t_span[0]
 			if f.order == 1:
 				pos = x[..., : solver.x_shape]
-				k1 = f(t, pos)
-				dt = init_step(f, k1, pos, t, solver.order, atol, rtol)
+				k1 = f_(t, pos)
+				dt = init_step(f_, k1, pos, t, solver.order, atol, rtol)
 			else:
-				k1 = f(t, x)
-				dt = init_step(f, k1, x, t, solver.order, atol, rtol)
+				k1 = f_(t, x)
+				dt = init_step(f_, k1, x, t, solver.order, atol, rtol)
 			t_eval, sol = _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, return_all_eval=return_all_eval)
 			return sign * t_eval, sol
 
-- 
2.43.0


From 0563b459638a80af09e481f2abe5df4de5f987c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:26 +0000
Subject: [PATCH 08/52] fix: a list t_span can be reversed

---
 torchdyn/numerics/odeint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index b158338..6eb6e44 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -51,6 +51,7 @@ def odeint(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:Union[str, n
 	Returns:
 		Tuple[Tensor, Tensor]: returns a Tuple (t_eval, solution).
 	"""
+	if type(t_span) == list: t_span = torch.cat(t_span)
 	if t_span[1] < t_span[0]: # time is reversed
 		if verbose: warn("You are integrating on a reversed time domain, adjusting the vector field automatically")
 		f_ = lambda t, x: -f(-t, x)
@@ -58,7 +59,6 @@ def odeint(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:Union[str, n
 		t_span, save_at, sign = -t_span, [-t for t in save_at], -1
 	else: f_, sign = f, 1
 
-	if type(t_span) == list: t_span = torch.cat(t_span)
 	# instantiate the solver in case the user has specified preference via a `str` and ensure compatibility of device ~ dtype
 	if type(solver) == str:
 		solver = str_to_solver(solver, x.dtype)
@@ -112,13 +112,13 @@ def odeint_symplectic(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:U
 		return_all_eval (bool, optional): Defaults to False.
 		save_at (Union[List, Tensor], optional): Defaults to t_span
 	"""
+	if type(t_span) == list: t_span = torch.cat(t_span)
 	if t_span[1] < t_span[0]: # time is reversed
 		if verbose: warn("You are integrating on a reversed time domain, adjusting the vector field automatically")
 		f_ = lambda t, x: -f(-t, x)
 		# integrated forward over the negated times, which are returned as the user gave them
 		t_span, save_at, sign = -t_span, [-t for t in save_at], -1
 	else: f_, sign = f, 1
-	if type(t_span) == list: t_span = torch.cat(t_span)
 
 	# instantiate the solver in case the user has specified preference via a `str` and ensure compatibility of device ~ dtype
 	if type(solver) == str:
-- 
2.43.0


From 2ccbd48064fea5a1f5471443a1c14178c2ad6d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:57 +0000
Subject: [PATCH 09/52] fix: save_at selects solution points by position in
 t_span, in the order requested

---
 torchdyn/numerics/odeint.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 6eb6e44..5f0f34c 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -417,31 +417,36 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 	return torch.cat(eval_times), torch.stack(sol)
 
 
-def _fixed_odeint(f, x, t_span, solver, save_at=(), args={}):
-	"""Solves IVPs with same `t_span`, using fixed-step methods"""
-	if len(save_at) == 0: save_at = t_span
+def _locate_save_at(t_span, save_at):
+	"""Positions in `t_span` of the time points in `save_at`"""
 	if not isinstance(save_at, torch.Tensor):
 		save_at = torch.tensor(save_at)
-		
-	assert all(torch.isclose(t, save_at).sum() == 1 for t in save_at),\
+	save_ids = [(t_span - t).abs().argmin().item() for t in save_at]
+	assert torch.isclose(t_span[save_ids], save_at.to(t_span)).all() and len(set(save_ids)) == len(save_ids),\
 		"each element of save_at [torch.Tensor] must be contained in t_span [torch.Tensor] once and only once"
+	return save_at, save_ids
+
+
+def _fixed_odeint(f, x, t_span, solver, save_at=(), args={}):
+	"""Solves IVPs with same `t_span`, using fixed-step methods"""
+	if len(save_at) == 0: save_at, save_ids = t_span, list(range(len(t_span)))
+	else: save_at, save_ids = _locate_save_at(t_span, save_at)
 
 	t, T, dt = t_span[0], t_span[-1], t_span[1] - t_span[0]
 
-	sol = []
-	if torch.isclose(t, save_at).sum():
-		sol = [x]
+	sol = {}
+	if 0 in save_ids: sol[0] = x
 
 	steps = 1
 	while steps <= len(t_span) - 1:
 		_, x, _ = solver.step(f, x, t, dt, k1=None, args=args)
 		t = t + dt
 
-		if torch.isclose(t, save_at).sum():
-			sol.append(x)
+		if steps in save_ids: sol[steps] = x
 		if steps < len(t_span) - 1: dt = t_span[steps+1] - t
 		steps += 1
 
+	sol = [sol[i] for i in save_ids]
 	if isinstance(sol[0], dict):
 		final_out = {k: [v] for k, v in sol[0].items()}
 		_ = [final_out[k].append(x[k]) for k in x.keys() for x in sol[1:]]
-- 
2.43.0


From b0dfb2b7f41c18df75257eddac5f62975ad46464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:51 +0000
Subject: [PATCH 10/52] fix: sdeint selects save_at points by position in
 t_span, in the order requested

---
 torchdyn/numerics/sdeint.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/torchdyn/numerics/sdeint.py b/torchdyn/numerics/sdeint.py
index 1c2ba80..398f992 100644
--- a/torchdyn/numerics/sdeint.py
+++ b/torchdyn/numerics/sdeint.py
@@ -5,6 +5,7 @@ from warnings import warn
 
 from torchsde._brownian import BaseBrownian
 from torchdyn.core.defunc import SDEFunc
+from torchdyn.numerics.odeint import _locate_save_at
 from torchdyn.numerics.solvers.sde import sde_str_to_solver
 from typing import List, Tuple, Union, Callable, Dict, Iterable
 
@@ -56,12 +57,6 @@ def sdeint(
         solver = sde_str_to_solver(solver, sde, bm, x.dtype)
     x, t_span = solver.sync_device_dtype(x, t_span)
     stepping_class = solver.stepping_class
-    # instantiate save_at tensor
-    if len(save_at) == 0:
-        save_at = t_span
-    if not isinstance(save_at, torch.Tensor):
-        save_at = torch.tensor(save_at)
-
     # access parallel integration routines with different t_spans for each sample in `x`.
     if len(t_span.shape) > 1:
         raise NotImplementedError(
@@ -89,21 +84,25 @@ def _adaptive_sdeint():
 
 
 def _fixed_sdeint(x, t_span, solver, save_at=(), args={}):
+    if len(save_at) == 0:
+        save_at, save_ids = t_span, list(range(len(t_span)))
+    else:
+        save_at, save_ids = _locate_save_at(t_span, save_at)
     t, T, dt = t_span[0], t_span[-1], t_span[1] - t_span[0]
-    sol = []
-    if torch.isclose(t, save_at).sum():
-        # if t is in save_at
-        sol = [x]
+    sol = {}
+    if 0 in save_ids:
+        sol[0] = x
     steps = 1  # starting with 1
     while steps <= len(t_span) - 1:
         _, x, _ = solver.step(x, t, dt)
         t = t + dt
-        if torch.isclose(t, save_at).sum():
-            sol.append(x)
+        if steps in save_ids:
+            sol[steps] = x
         if steps < len(t_span) - 1:
             dt = t_span[steps + 1] - t
         steps += 1
 
+    sol = [sol[i] for i in save_ids]
     if isinstance(sol[0], dict):
         final_out = {k: [v] for k, v in sol[0].items()}
         _ = [final_out[k].append(x[k]) for k in x.keys() for x in sol[1:]]
-- 
2.43.0


From c0105fd2313a816140813960a8bf13221b1265ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:51 +0000
Subject: [PATCH 11/52] fix: ODEProblem honours save_at with adjoint
 sensitivities

---
 torchdyn/core/problems.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index 3157b96..560b398 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -7,7 +7,7 @@ from torchdyn.numerics.sensitivity import (
     _gather_odefunc_adjoint,
     _gather_odefunc_interp_adjoint,
 )
-from torchdyn.numerics.odeint import odeint, odeint_mshooting
+from torchdyn.numerics.odeint import odeint, odeint_mshooting, _locate_save_at
 from torchdyn.numerics.solvers.ode import str_to_solver, str_to_ms_solver
 from torchdyn.core.utils import standardize_vf_call_signature
 from torchdyn.core.defunc import SDEFunc
@@ -152,7 +152,12 @@ class ODEProblem(nn.Module):
                 args=args,
             )
         else:
-            return self._autograd_func()(self.vf_params, x, t_span, save_at, args)
+            t_eval, sol = self._autograd_func()(self.vf_params, x, t_span)
+            # the whole trajectory is needed for the adjoint, so `save_at` only selects from it
+            if len(save_at) > 0 and self.solver.stepping_class == "fixed":
+                save_at, save_ids = _locate_save_at(t_span, save_at)
+                return save_at, sol[save_ids]
+            return t_eval, sol
 
     def forward(self, x: Tensor, t_span: Tensor, save_at: Tensor = (), args={}):
         "For safety redirects to intended method `odeint`"
-- 
2.43.0


From 23834843de11c0abd42bbfb26642afd34e943dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:51 +0000
Subject: [PATCH 12/52] fix: adjoints accept parameters the vector field does
 not use

---
 torchdyn/numerics/sensitivity.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index 503b21e..a17494d 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -68,8 +68,8 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
                         dg = torch.autograd.grad(integral_loss(t, x).sum(), x, allow_unused=True, retain_graph=True)[0]
                         dλ = dλ - dg
 
-                    dμ = torch.cat([el.flatten() if el is not None else torch.zeros(1) 
-                                    for el in dμ], dim=-1)
+                    dμ = torch.cat([el.flatten() if el is not None else torch.zeros_like(p).flatten()
+                                    for el, p in zip(dμ, vf.parameters())], dim=-1)
                     if dt == None: dt = torch.zeros(1).to(t)
                     if len(t.shape) == 0: dt = dt.unsqueeze(0)
                 return torch.cat([dx.flatten(), dλ.flatten(), dμ.flatten(), dt.flatten()])
@@ -142,8 +142,8 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
                         dg = torch.autograd.grad(integral_loss(t, x).sum(), x, allow_unused=True, retain_graph=True)[0]
                         dλ = dλ - dg
 
-                    dμ = torch.cat([el.flatten() if el is not None else torch.zeros(1) 
-                                    for el in dμ], dim=-1)
+                    dμ = torch.cat([el.flatten() if el is not None else torch.zeros_like(p).flatten()
+                                    for el, p in zip(dμ, vf.parameters())], dim=-1)
                 return torch.cat([dλ.flatten(), dμ.flatten()])
 
             # solve the adjoint equation
-- 
2.43.0


From 4ac2f91c379781656950796271cd58a033d90348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:25 +0000
Subject: [PATCH 13/52] fix: adjoint gradient with respect to t_span has the
 right value for every time

---
 torchdyn/numerics/sensitivity.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index a17494d..88b0565 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -85,7 +85,9 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
                 # prepare adjoint state for next interval
                 #TODO: reuse vf_eval for dLdt calculations
                 xt = A[-1, :xT_nel].reshape(xT_shape)
-                dLdt_ = A[-1, xT_nel:xT_nel + λT_nel]@vf(t_sol[i], xt).flatten()
+                # dL/dt_i: moving the first time loses the flow up to it, moving a later one shifts where the state is read
+                λt = A[-1, xT_nel:xT_nel + λT_nel] if i == 1 else -grad_output[-1][i - 1].flatten()
+                dLdt_ = -λt @ vf(t_sol[i - 1], xt).flatten()
                 A[-1, -1:] -= grad_output[0][i - 1]
                 dLdt[i-1] = dLdt_
 
@@ -94,7 +96,7 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
 
             λ, μ = A[xT_nel:xT_nel + λT_nel], A[-μT_nel-1:-1]
             λ, μ = λ.reshape(λT.shape), μ.reshape(μT.shape)
-            λ_tspan = torch.stack([dLdt[0], dLdt[-1]])
+            λ_tspan = dLdt.to(t_sol) + grad_output[0]
             return (μ, λ, λ_tspan, None, None, None)
 
     return _ODEProblemFunc
-- 
2.43.0


From d00e95a1aebdbf17c104fc5f1fd88e589e60d1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:25 +0000
Subject: [PATCH 14/52] fix: interpolated adjoint backsolves with
 solver_adjoint and its tolerances

---
 torchdyn/numerics/sensitivity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index 88b0565..cf29215 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -151,7 +151,8 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
             # solve the adjoint equation
             n_elements = (λT_nel, μT_nel)
             for i in range(len(t_span) - 1, 0, -1):
-                t_adj_sol, A = odeint(adjoint_dynamics, A, t_span[i - 1:i + 1].flip(0), solver, atol=atol, rtol=rtol)
+                t_adj_sol, A = odeint(adjoint_dynamics, A, t_span[i - 1:i + 1].flip(0),
+                                      solver_adjoint, atol=atol_adjoint, rtol=rtol_adjoint)
                 # prepare adjoint state for next interval
                 A = torch.cat([A[-1, :λT_nel], A[-1, -μT_nel:]])
                 A[:λT_nel] += grad_output[-1][i - 1].flatten()
-- 
2.43.0


From 358316882a59aceb9db26114bf68d0d465cefd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:25 +0000
Subject: [PATCH 15/52] fix: interpolated adjoint of a reversed t_span

---
 torchdyn/numerics/sensitivity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index cf29215..681b4f4 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -125,6 +125,7 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
             xT_shape, λT_shape, μT_shape = xT.shape, λT.shape, μT.shape
             A = torch.cat([λT.flatten(), μT.flatten()])
 
+            if t_sol[-1] < t_sol[0]: t_sol, sol = t_sol.flip(0), sol.flip(0) # spline knots must increase
             spline_coeffs = natural_cubic_coeffs(x=sol.permute(1, 0, 2).detach(), t=t_sol)
             x_spline = CubicSpline(coeffs=spline_coeffs, t=t_sol)
 
-- 
2.43.0


From 8e7f20acb0f965b89c69ea4ba71586897c72e34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:57 +0000
Subject: [PATCH 16/52] fix: interpolated adjoint returns the solution at
 t_span only, which its backward pass assumes

---
 torchdyn/numerics/sensitivity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index 681b4f4..e8e7448 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -112,7 +112,9 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
             t_sol, sol = generic_odeint(problem_type, vf, x, t_span, solver, atol, rtol, interpolator, B, 
                                         True, maxiter, fine_steps, save_at)
             ctx.save_for_backward(sol, t_span, t_sol)
-            return t_sol, sol
+            # the spline of the backward pass uses every evaluated point, the user only gets those in `t_span`
+            ids = (t_sol[None] - t_span.to(t_sol)[:, None]).abs().argmin(1)
+            return t_sol[ids], sol[ids]
 
         @staticmethod
         def backward(ctx, *grad_output):
-- 
2.43.0


From b551902ce07e32a1e6482ecca46d741070317caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:57 +0000
Subject: [PATCH 17/52] fix: multiple shooting with adjoints uses the parallel
 solver, and its maxiter and fine_steps

---
 torchdyn/core/problems.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index 560b398..f202e39 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -216,7 +216,7 @@ class MultipleShootingProblem(ODEProblem):
             return _gather_odefunc_adjoint(
                 self.vf,
                 self.vf_params,
-                self.solver,
+                self.parallel_solver,
                 0,
                 0,
                 None,
@@ -225,14 +225,14 @@ class MultipleShootingProblem(ODEProblem):
                 self.rtol_adjoint,
                 self.integral_loss,
                 "multiple_shooting",
-                self.fine_steps,
                 self.maxiter,
+                self.fine_steps,
             ).apply
         elif self.sensalg == "interpolated_adjoint":
             return _gather_odefunc_interp_adjoint(
                 self.vf,
                 self.vf_params,
-                self.solver,
+                self.parallel_solver,
                 0,
                 0,
                 None,
@@ -241,8 +241,8 @@ class MultipleShootingProblem(ODEProblem):
                 self.rtol_adjoint,
                 self.integral_loss,
                 "multiple_shooting",
-                self.fine_steps,
                 self.maxiter,
+                self.fine_steps,
             ).apply
 
     def odeint(self, x: Tensor, t_span: Tensor, B0: Tensor = None):
-- 
2.43.0


From e607c2390d1f116e70509fdaa31dc8ac2c14f41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 18/52] fix: vector fields with signature (t, x) work, as
 documented

---
 torchdyn/core/defunc.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/torchdyn/core/defunc.py b/torchdyn/core/defunc.py
index 2f0ce26..e1a4d78 100644
--- a/torchdyn/core/defunc.py
+++ b/torchdyn/core/defunc.py
@@ -16,6 +16,14 @@ from torch import Tensor, cat
 import torch.nn as nn
 
 
+def _takes_args(vector_field):
+    "Whether the callable or `nn.Module` can be called with the keyword `args`"
+    if isinstance(vector_field, nn.Module):
+        vector_field = vector_field.forward
+    spec = getfullargspec(vector_field)
+    return "args" in spec.args + spec.kwonlyargs or spec.varkw is not None
+
+
 class DEFuncBase(nn.Module):
     def __init__(self, vector_field: Callable, has_time_arg: bool = True):
         """Basic wrapper to ensure call signature compatibility between generic torch Modules and vector fields.
@@ -26,11 +34,12 @@ class DEFuncBase(nn.Module):
         """
         super().__init__()
         self.nfe, self.vf, self.has_time_arg = 0.0, vector_field, has_time_arg
+        self.takes_args = _takes_args(vector_field)
 
     def forward(self, t: Tensor, x: Tensor, args: Dict = {}) -> Tensor:
         self.nfe += 1
         if self.has_time_arg:
-            return self.vf(t, x, args=args)
+            return self.vf(t, x, args=args) if self.takes_args else self.vf(t, x)
         else:
             return self.vf(x)
 
@@ -56,6 +65,7 @@ class DEFunc(nn.Module):
         self.vf, self.nfe, = vector_field, 0.0
         self.order, self.integral_loss, self.sensitivity = order, None, None
         # identify whether vector field already has time arg
+        self.takes_args = _takes_args(vector_field)
 
     def forward(self, t: Tensor, x: Tensor, args: Dict = {}) -> Tensor:
         self.nfe += 1
@@ -81,7 +91,7 @@ class DEFunc(nn.Module):
             if self.order > 1:
                 x = self.higher_order_forward(t, x)
             else:
-                x = self.vf(t, x, args=args)
+                x = self.vf(t, x, args=args) if self.takes_args else self.vf(t, x)
             return x
 
     def higher_order_forward(self, t: Tensor, x: Tensor, args: Dict = {}) -> Tensor:
-- 
2.43.0


From 8a68f636d01357517482cc844dbe7b217b0a5df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 19/52] fix: higher-order dynamics with an integral loss

---
 torchdyn/core/defunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/core/defunc.py b/torchdyn/core/defunc.py
index e1a4d78..cc9c9c8 100644
--- a/torchdyn/core/defunc.py
+++ b/torchdyn/core/defunc.py
@@ -81,7 +81,7 @@ class DEFunc(nn.Module):
             if len(dlds.shape) == 1:
                 dlds = dlds[:, None]
             if self.order > 1:
-                x_dyn = self.horder_forward(t, x_dyn, args)
+                x_dyn = self.higher_order_forward(t, x_dyn, args)
             else:
                 x_dyn = self.vf(t, x_dyn)
             return cat([dlds, x_dyn], 1).to(x_dyn)
-- 
2.43.0


From aaf194c3e1e60cd473cb977cbc5ec054e6dc9534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 20/52] fix: args reach higher-order vector fields and those
 with an integral loss

---
 torchdyn/core/defunc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torchdyn/core/defunc.py b/torchdyn/core/defunc.py
index cc9c9c8..abdb415 100644
--- a/torchdyn/core/defunc.py
+++ b/torchdyn/core/defunc.py
@@ -83,13 +83,13 @@ class DEFunc(nn.Module):
             if self.order > 1:
                 x_dyn = self.higher_order_forward(t, x_dyn, args)
             else:
-                x_dyn = self.vf(t, x_dyn)
+                x_dyn = self.vf(t, x_dyn, args=args) if self.takes_args else self.vf(t, x_dyn)
             return cat([dlds, x_dyn], 1).to(x_dyn)
 
         # regular forward
         else:
             if self.order > 1:
-                x = self.higher_order_forward(t, x)
+                x = self.higher_order_forward(t, x, args)
             else:
                 x = self.vf(t, x, args=args) if self.takes_args else self.vf(t, x)
             return x
@@ -99,7 +99,7 @@ class DEFunc(nn.Module):
         size_order = x.size(1) // self.order
         for i in range(1, self.order):
             x_new.append(x[:, size_order * i : size_order * (i + 1)])
-        x_new.append(self.vf(t, x))
+        x_new.append(self.vf(t, x, args=args) if self.takes_args else self.vf(t, x))
         return cat(x_new, dim=1).to(x)
 
 
-- 
2.43.0


From 9fb0c1f8d6b889ed51fc4c4ff4969718ab0e016f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 21/52] fix: solver_adjoint may be a solver module, as
 documented

---
 torchdyn/core/problems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index f202e39..a7df4f0 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -57,7 +57,7 @@ class ODEProblem(nn.Module):
             solver = str_to_solver(solver)
         if solver_adjoint is None:
             solver_adjoint = solver
-        else:
+        elif type(solver_adjoint) == str:
             solver_adjoint = str_to_solver(solver_adjoint)
 
         self.solver, self.interpolator, self.atol, self.rtol = (
-- 
2.43.0


From aad56d49abdb5a51e1c354fd10bfa70ea54c7eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 22/52] fix: problems in double precision do not use
 single-precision solver coefficients

---
 torchdyn/core/problems.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index a7df4f0..954e609 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -54,11 +54,12 @@ class ODEProblem(nn.Module):
         super().__init__()
         # instantiate solver at initialization
         if type(solver) == str:
-            solver = str_to_solver(solver)
+            # the tableau is cast to the dtype of the state at integration: do not round it before
+            solver = str_to_solver(solver, torch.float64)
         if solver_adjoint is None:
             solver_adjoint = solver
         elif type(solver_adjoint) == str:
-            solver_adjoint = str_to_solver(solver_adjoint)
+            solver_adjoint = str_to_solver(solver_adjoint, torch.float64)
 
         self.solver, self.interpolator, self.atol, self.rtol = (
             solver,
-- 
2.43.0


From 81a9e03e4e01c822d9ea9268a2142bce86cf83d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:03 +0000
Subject: [PATCH 23/52] fix: multiple shooting with more iterations than
 subintervals

---
 torchdyn/numerics/solvers/ode.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index adc3d9c..548a183 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -234,7 +234,8 @@ class MSZero(MultipleShootingDiffeqSolver):
         dt, n_subinterv = t_span[1] - t_span[0], len(t_span)
         sub_t_span = torch.linspace(0, dt, fine_steps).to(x)
         i = 0
-        while i <= maxiter:
+        # after `n_subinterv - 1` updates all shooting parameters are exact
+        while i <= maxiter and i < n_subinterv - 1:
             i += 1
             B_coarse = odeint_func(f, B[i-1:], sub_t_span, solver=self.coarse_method)[1][-1]
             B_fine = odeint_func(f, B[i-1:], sub_t_span, solver=self.fine_method)[1][-1]
@@ -264,7 +265,8 @@ class MSBackward(MultipleShootingDiffeqSolver):
         sub_t_span = torch.linspace(0, dt, fine_steps).to(x)
         i = 0
         B = B.requires_grad_(True)
-        while i <= maxiter:
+        # after `n_subinterv - 1` updates all shooting parameters are exact
+        while i <= maxiter and i < n_subinterv - 1:
             i += 1
             B_fine = odeint_func(f, B[i-1:], sub_t_span, solver=self.fine_method)[1][-1]
             B_out = torch.zeros_like(B)
-- 
2.43.0


From 83ad8c8ca7c9de1aea25bf11e5f38b3b67eebaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:35 +0000
Subject: [PATCH 24/52] fix: MSBackward applies the Newton update of the right
 subinterval with a jvp

---
 torchdyn/numerics/solvers/ode.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 548a183..56752ec 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -275,8 +275,11 @@ class MSBackward(MultipleShootingDiffeqSolver):
             for m in range(i, n_subinterv):
                 # instead of jvps here the full jacobian can be computed and the vector products
                 # which involve `B_in` can be performed. Trading memory ++ for speed ++
-                J_blk = torch.autograd.grad(B_fine[m-1], B, B_in - B[m-1], retain_graph=True)[0][m-1]
-                B_in = B_fine[m-1] + J_blk
+                # B_fine[m-i] starts from B[m-1]; jvp as the gradient of the vjp w.r.t. its (dummy) cotangent
+                u = torch.zeros_like(B_in, requires_grad=True)
+                vjp = torch.autograd.grad(B_fine[m-i], B, u, create_graph=True)[0][m-1]
+                J_blk = torch.autograd.grad(vjp, u, B_in - B[m-1], create_graph=True)[0]
+                B_in = B_fine[m-i] + J_blk
                 B_out[m] = B_in
             del B # manually free graph
             B = B_out
-- 
2.43.0


From 7090738eb222097e631756a38632443910f3146f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 25/52] fix: multiple shooting in double precision does not use
 single-precision solver coefficients

---
 torchdyn/numerics/solvers/templates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/solvers/templates.py b/torchdyn/numerics/solvers/templates.py
index f7e5e36..25234ab 100644
--- a/torchdyn/numerics/solvers/templates.py
+++ b/torchdyn/numerics/solvers/templates.py
@@ -69,8 +69,8 @@ class MultipleShootingDiffeqSolver(nn.Module):
         from torchdyn.numerics.solvers.ode import str_to_solver
 
         super(MultipleShootingDiffeqSolver, self).__init__()
-        if type(coarse_method) == str: self.coarse_method = str_to_solver(coarse_method)
-        if type(fine_method) == str: self.fine_method = str_to_solver(fine_method)
+        if type(coarse_method) == str: self.coarse_method = str_to_solver(coarse_method, torch.float64)
+        if type(fine_method) == str: self.fine_method = str_to_solver(fine_method, torch.float64)
 
     def sync_device_dtype(self, x, t_span):
         "Ensures `x`, `t_span`, `tableau` and other solver tensors are on the same device with compatible dtypes"
-- 
2.43.0


From 6e30243b010656ea24e9c3cff5013dccca818167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:35 +0000
Subject: [PATCH 26/52] fix: multiple shooting in double precision does not
 round its time grid to single precision

---
 torchdyn/numerics/solvers/ode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 56752ec..7b44311 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -232,7 +232,7 @@ class MSZero(MultipleShootingDiffeqSolver):
     # TODO (qol): extend to time-variant ODEs by using shifted_odeint
     def root_solve(self, odeint_func, f, x, t_span, B, fine_steps, maxiter):
         dt, n_subinterv = t_span[1] - t_span[0], len(t_span)
-        sub_t_span = torch.linspace(0, dt, fine_steps).to(x)
+        sub_t_span = torch.linspace(0, dt, fine_steps, dtype=t_span.dtype).to(x)
         i = 0
         # after `n_subinterv - 1` updates all shooting parameters are exact
         while i <= maxiter and i < n_subinterv - 1:
@@ -262,7 +262,7 @@ class MSBackward(MultipleShootingDiffeqSolver):
 
     def root_solve(self, odeint_func, f, x, t_span, B, fine_steps, maxiter):
         dt, n_subinterv = t_span[1] - t_span[0], len(t_span)
-        sub_t_span = torch.linspace(0, dt, fine_steps).to(x)
+        sub_t_span = torch.linspace(0, dt, fine_steps, dtype=t_span.dtype).to(x)
         i = 0
         B = B.requires_grad_(True)
         # after `n_subinterv - 1` updates all shooting parameters are exact
-- 
2.43.0


From 34581143e82d9e58ddaae1bc6e1b61d4657ec90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:40 +0000
Subject: [PATCH 27/52] fix: Galerkin layers with bias=False

---
 torchdyn/nn/galerkin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/nn/galerkin.py b/torchdyn/nn/galerkin.py
index 217d12b..5c0afa7 100644
--- a/torchdyn/nn/galerkin.py
+++ b/torchdyn/nn/galerkin.py
@@ -222,7 +222,7 @@ class GalLinear(GalLayer):
         input = input[:,:-1]
         w = self.calculate_weights(t)
         self.weight = w[0:self.in_features*self.out_features].reshape(self.out_features, self.in_features)
-        self.bias = w[self.in_features*self.out_features:(self.in_features+1)*self.out_features].reshape(self.out_features)
+        if self.bias is not None: self.bias = w[self.in_features*self.out_features:(self.in_features+1)*self.out_features].reshape(self.out_features)
         return torch.nn.functional.linear(input, self.weight, self.bias)
 
 
@@ -269,5 +269,5 @@ class GalConv2d(GalLayer):
         w = self.calculate_weights(t)
         n = self.oc*self.ic*self.ks*self.ks
         self.weight = w[0:n].reshape(self.oc, self.ic, self.ks, self.ks)
-        self.bias = w[n:].reshape(self.oc)
+        if self.bias is not None: self.bias = w[n:].reshape(self.oc)
         return torch.nn.functional.conv2d(input, self.weight, self.bias, stride=self.stride, padding=self.pad)
-- 
2.43.0


From 17b785222fe8feca9117b6a56439d4363a4a21b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:40 +0000
Subject: [PATCH 28/52] fix: GalConv2d works with any basis

---
 torchdyn/nn/galerkin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/nn/galerkin.py b/torchdyn/nn/galerkin.py
index 5c0afa7..9841229 100644
--- a/torchdyn/nn/galerkin.py
+++ b/torchdyn/nn/galerkin.py
@@ -260,7 +260,7 @@ class GalConv2d(GalLayer):
             self.bias = torch.Tensor(out_channels)
         else:
             self.register_parameter('bias', None)
-        self.coeffs = torch.nn.Parameter(torch.Tensor(((out_channels)*in_channels*(kernel_size**2)+out_channels), self.deg, 2))
+        self.coeffs = torch.nn.Parameter(torch.Tensor(((out_channels)*in_channels*(kernel_size**2)+out_channels), self.deg, self.n_eig))
         self.reset_parameters()
         
     def forward(self, input):
-- 
2.43.0


From ab78177e73cb793e95ad347f238b8015f020d115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:40 +0000
Subject: [PATCH 29/52] fix: non-adaptive radial bases use the centers and
 scales they are given

---
 torchdyn/nn/galerkin.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/torchdyn/nn/galerkin.py b/torchdyn/nn/galerkin.py
index 9841229..19a1254 100644
--- a/torchdyn/nn/galerkin.py
+++ b/torchdyn/nn/galerkin.py
@@ -34,8 +34,8 @@ class GaussianRBF(nn.Module):
             self.centers = torch.nn.Parameter(centers * torch.ones(deg + 1))
             self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg + 1)))
         else:
-            self.centers = 0
-            self.eps_scales = 2
+            self.centers = centers
+            self.eps_scales = eps_scales
 
     def forward(self, n_range, s):
         n_range_scaled = (n_range - self.centers) / self.eps_scales
@@ -63,8 +63,8 @@ class VanillaRBF(nn.Module):
             self.centers = torch.nn.Parameter(centers * torch.ones(deg + 1))
             self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg + 1)))
         else:
-            self.centers = 0
-            self.eps_scales = 2
+            self.centers = centers
+            self.eps_scales = eps_scales
 
     def forward(self, n_range, s):
         n_range_scaled = n_range / self.eps_scales
@@ -92,8 +92,8 @@ class MultiquadRBF(nn.Module):
             self.centers = torch.nn.Parameter(centers * torch.ones(deg + 1))
             self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg + 1)))
         else:
-            self.centers = 0
-            self.eps_scales = 2
+            self.centers = centers
+            self.eps_scales = eps_scales
 
     def forward(self, n_range, s):
         n_range_scaled = n_range / self.eps_scales
-- 
2.43.0


From f2ae9a5ea2063beafac7b8664dc868e864641694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:40 +0000
Subject: [PATCH 30/52] fix: adaptive radial bases have as many centers and
 scales as basis elements

---
 torchdyn/nn/galerkin.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/torchdyn/nn/galerkin.py b/torchdyn/nn/galerkin.py
index 19a1254..b78b697 100644
--- a/torchdyn/nn/galerkin.py
+++ b/torchdyn/nn/galerkin.py
@@ -31,8 +31,8 @@ class GaussianRBF(nn.Module):
         super().__init__()
         self.deg, self.n_eig = deg, 1
         if adaptive:
-            self.centers = torch.nn.Parameter(centers * torch.ones(deg + 1))
-            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg + 1)))
+            self.centers = torch.nn.Parameter(centers * torch.ones(deg))
+            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones(deg))
         else:
             self.centers = centers
             self.eps_scales = eps_scales
@@ -60,8 +60,8 @@ class VanillaRBF(nn.Module):
         super().__init__()
         self.deg, self.n_eig = deg, 1
         if adaptive:
-            self.centers = torch.nn.Parameter(centers * torch.ones(deg + 1))
-            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg + 1)))
+            self.centers = torch.nn.Parameter(centers * torch.ones(deg))
+            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones(deg))
         else:
             self.centers = centers
             self.eps_scales = eps_scales
@@ -89,8 +89,8 @@ class MultiquadRBF(nn.Module):
         super().__init__()
         self.deg, self.n_eig = deg, 1
         if adaptive:
-            self.centers = torch.nn.Parameter(centers * torch.ones(deg + 1))
-            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg + 1)))
+            self.centers = torch.nn.Parameter(centers * torch.ones(deg))
+            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones(deg))
         else:
             self.centers = centers
             self.eps_scales = eps_scales
-- 
2.43.0


From 708e4b253da2e977952568e2c4bc8bd7e624402f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:40 +0000
Subject: [PATCH 31/52] fix: Galerkin layers in double precision

---
 torchdyn/nn/galerkin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/nn/galerkin.py b/torchdyn/nn/galerkin.py
index b78b697..cb682fa 100644
--- a/torchdyn/nn/galerkin.py
+++ b/torchdyn/nn/galerkin.py
@@ -176,11 +176,11 @@ class GalLayer(nn.Module):
         
     def calculate_weights(self, t):
         "Expands `t` following the chosen eigenbasis"
-        n_range = torch.linspace(0, self.deg, self.deg).to(self.coeffs.device)
+        n_range = torch.linspace(0, self.deg, self.deg).to(self.coeffs)
         basis = self.expfunc(n_range, t*self.dilation.to(self.coeffs.device) + self.shift.to(self.coeffs.device))
         B = []  
         for i in range(self.n_eig):
-            Bin = torch.eye(self.deg).to(self.coeffs.device)
+            Bin = torch.eye(self.deg).to(self.coeffs)
             Bin[range(self.deg), range(self.deg)] = basis[i]
             B.append(Bin)
         B = torch.cat(B, 1).to(self.coeffs.device)
-- 
2.43.0


From a8bb299fcdef632b5432271c213ab2eb0b21e787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:52 +0000
Subject: [PATCH 32/52] fix: ConservativeLinearSNF can be evaluated

---
 torchdyn/models/energy.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/torchdyn/models/energy.py b/torchdyn/models/energy.py
index 0cedd20..a4b9155 100644
--- a/torchdyn/models/energy.py
+++ b/torchdyn/models/energy.py
@@ -37,13 +37,13 @@ class ConservativeLinearSNF(nn.Module):
         with torch.set_grad_enabled(True):
             self.n = x.shape[1] // 2
             x = x.requires_grad_(True)
-            dHdx = torch.autograd.grad(self.H(x).sum(), x, create_graph=True)[0]
-            dHdx = torch.einsum('ijk, ij -> ik', self._skew(x), dHdx)
+            dHdx = torch.autograd.grad(self.energy(x).sum(), x, create_graph=True)[0]
+            dHdx = torch.einsum('ijk, ij -> ik', self._generate_skew(x), dHdx)
         return dHdx
 
     def _generate_skew(self, x):
-        M = self.J(x).reshape(-1, *x.shape[1:])
-        return (M - M.transpose(0, 2, 1)) / 2
+        M = self.J(x).reshape(-1, x.shape[1], x.shape[1])
+        return (M - M.transpose(1, 2)) / 2
 
 class GNF(nn.Module):
     def __init__(self, energy:nn.Module):
-- 
2.43.0


From 4b2f5488b11f6b28b480e9140cb5288334b53960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:52 +0000
Subject: [PATCH 33/52] fix: NeuralSDE.trajectory can be called

---
 torchdyn/core/neuralde.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torchdyn/core/neuralde.py b/torchdyn/core/neuralde.py
index 7be9b3b..f553896 100644
--- a/torchdyn/core/neuralde.py
+++ b/torchdyn/core/neuralde.py
@@ -252,15 +252,15 @@ class NeuralSDE(SDEProblem, pl.LightningModule):
             return sol
 
     def trajectory(self, x: torch.Tensor, t_span: torch.Tensor):
-        x = self._prep_sdeint(x)
-        sol = sdeint(
+        x, t_span = self._prep_sdeint(x, t_span)
+        _, sol = sdeint(
             self.defunc,
             x,
             t_span,
             solver=self.solver,
+            bm=self.bm,
             rtol=self.rtol,
             atol=self.atol,
-            dt=self.ds,
         )
         return sol
 
-- 
2.43.0


From 5fa5f076befdf18e327be687974868729ebde750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:52 +0000
Subject: [PATCH 34/52] fix: gaussians on a ring or spiral in more than two
 dimensions

---
 torchdyn/datasets/static_datasets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/datasets/static_datasets.py b/torchdyn/datasets/static_datasets.py
index ec67452..42073ed 100644
--- a/torchdyn/datasets/static_datasets.py
+++ b/torchdyn/datasets/static_datasets.py
@@ -137,7 +137,7 @@ def generate_gaussians(n_samples=100, n_gaussians=7, dim=2,
 
     for i in range(n_gaussians):
         angle += 2*math.pi / n_gaussians
-        if dim > 2: dist.loc = torch.Tensor([radius*torch.cos(angle), torch.sin(angle), radius*torch.zeros(dim-2)])
+        if dim > 2: dist.loc = torch.cat([radius*torch.cos(angle), radius*torch.sin(angle), torch.zeros(dim-2)])
         else: dist.loc = torch.Tensor([radius*torch.cos(angle), radius*torch.sin(angle)])
         X[i*n_samples:(i+1)*n_samples] = dist.sample(sample_shape=(n_samples,)) + torch.randn(dim)*noise
         y[i*n_samples:(i+1)*n_samples] = i
@@ -179,7 +179,7 @@ def generate_gaussians_spiral(n_samples=100, n_gaussians=7, n_gaussians_per_loop
 
     for i in range(n_gaussians):
         angle += 2*math.pi / n_gaussians_per_loop
-        if dim > 2: dist.loc = torch.Tensor([radiuses[i]*torch.cos(angle), torch.sin(angle), radiuses[i]*torch.zeros(dim-2)])
+        if dim > 2: dist.loc = torch.cat([radiuses[i]*torch.cos(angle), radiuses[i]*torch.sin(angle), torch.zeros(dim-2)])
         else: dist.loc = torch.Tensor([radiuses[i]*torch.cos(angle), radiuses[i]*torch.sin(angle)])
         dist.scale = std_devs[i]
 
-- 
2.43.0


From fd534f02e12b457beaff57970ba32a6f644f0f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:52 +0000
Subject: [PATCH 35/52] fix: concentric spheres with an odd number of samples

---
 torchdyn/datasets/static_datasets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/datasets/static_datasets.py b/torchdyn/datasets/static_datasets.py
index 42073ed..6dd6673 100644
--- a/torchdyn/datasets/static_datasets.py
+++ b/torchdyn/datasets/static_datasets.py
@@ -61,10 +61,10 @@ def generate_concentric_spheres(n_samples:int=100, noise:float=1e-4, dim:int=3,
     X[:n_samples // 2] = cat(samples)
     X[:n_samples // 2] += zeros((n_samples // 2, dim)).normal_(0, std=noise)
     samples = []
-    for i in range(n_samples // 2):
+    for i in range(n_samples - n_samples // 2):
         samples.append(randnsphere(dim, outer_radius)[None, :])
     X[n_samples // 2:] = cat(samples)
-    X[n_samples // 2:] += zeros((n_samples // 2, dim)).normal_(0, std=noise)
+    X[n_samples // 2:] += zeros((n_samples - n_samples // 2, dim)).normal_(0, std=noise)
     return X, y
 
 
-- 
2.43.0


From 91b391cbd1f17dbb447e8c404cc31fa482d9c767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:52 +0000
Subject: [PATCH 36/52] fix: torchdyn.models.hybrid can be imported

---
 torchdyn/models/hybrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/models/hybrid.py b/torchdyn/models/hybrid.py
index b95958a..ab2bfe8 100644
--- a/torchdyn/models/hybrid.py
+++ b/torchdyn/models/hybrid.py
@@ -19,7 +19,7 @@ from torch.distributions import Normal, kl_divergence
 import pytorch_lightning as pl
 import torchsde
 
-from torchdyn.models import LSDEFunc
+from torchdyn.core.neuralde import NeuralSDE
 
 
 class HybridNeuralDE(nn.Module):
-- 
2.43.0


From 50176a804fcdea5b8ec3a7697e319fad41f85a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:52 +0000
Subject: [PATCH 37/52] fix: HybridNeuralDE reversed in time

---
 torchdyn/models/hybrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/models/hybrid.py b/torchdyn/models/hybrid.py
index ab2bfe8..7cf4d34 100644
--- a/torchdyn/models/hybrid.py
+++ b/torchdyn/models/hybrid.py
@@ -42,7 +42,7 @@ class HybridNeuralDE(nn.Module):
     def forward(self, x):
         h = c = self._init_latent(x)
         Y = torch.zeros(x.shape[0], *h.shape).to(x)
-        if self.reverse: x_t = x_t.flip(0)
+        if self.reverse: x = x.flip(0)
         for t, x_t in enumerate(x):
             h, c = self.jump_func(x_t, h, c)
             h = self.flow(h)
-- 
2.43.0


From c89dc4f90601191fa2c59622428c2d0c80310e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:39 +0000
Subject: [PATCH 38/52] fix: root_find searches along the direction its solver
 moves in

---
 torchdyn/numerics/solvers/root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/numerics/solvers/root.py b/torchdyn/numerics/solvers/root.py
index d17b6d9..3e90a7d 100644
--- a/torchdyn/numerics/solvers/root.py
+++ b/torchdyn/numerics/solvers/root.py
@@ -280,7 +280,7 @@ def root_find(g, z, alpha=0.1, f_tol=1e-2, f_rtol=1e-1, x_tol=1e-2, x_rtol=1, ma
 
         # line search subroutines
         if SEARCH_METHODS[search_method] is not None:
-            line_searcher = SEARCH_METHODS[search_method](g, geval, dz, z)
+            line_searcher = SEARCH_METHODS[search_method](g, geval, -dz, z) # `solver.step` moves along -dz
             alpha, phi = line_searcher.search()
 
         # logging
-- 
2.43.0


From cfb95875446ee6da172931286264f63ac0a91edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:39 +0000
Subject: [PATCH 39/52] fix: root_find performs at most maxiters iterations

---
 torchdyn/numerics/solvers/root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/numerics/solvers/root.py b/torchdyn/numerics/solvers/root.py
index 3e90a7d..bd9b834 100644
--- a/torchdyn/numerics/solvers/root.py
+++ b/torchdyn/numerics/solvers/root.py
@@ -272,7 +272,7 @@ def root_find(g, z, alpha=0.1, f_tol=1e-2, f_rtol=1e-1, x_tol=1e-2, x_rtol=1, ma
     J_inv = batch_jacobian(g, z).pinverse()
 
     iteration = 0
-    while iteration <= maxiters:
+    while iteration < maxiters:
         iteration += 1
 
         # solver step
-- 
2.43.0


From c19c5b692590a3117173c0d2f328451b4cc0cbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:39 +0000
Subject: [PATCH 40/52] fix: odeint_hybrid stops after j_span jumps

---
 torchdyn/numerics/odeint.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 5f0f34c..6cb33e4 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -280,6 +280,7 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 			x = x_inner
 			t = t_inner
 			i = min([i for i, x in enumerate(new_event_states.evid) if x == True])
+			jnum = jnum + 1
 
 			# save state and time BEFORE jump
 			sol.append(x.reshape(x_shape))
-- 
2.43.0


From dab2a286a84e06cfaf19d05700dfb4e77264a7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:39 +0000
Subject: [PATCH 41/52] fix: odeint_hybrid does not skip t_span points on
 rejected steps or events

---
 torchdyn/numerics/odeint.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 6cb33e4..7e21d05 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -235,19 +235,20 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 	while t < T and jnum < j_span:
 
 		############### checkpointing ###############################
-		if t + dt > t_span[-1]:
-			dt = t_span[-1] - t
+		t_new = t + dt
+		# steps clipped to `T` or to a checkpoint land on it exactly, whatever the rounding of `t + dt`
+		if t_new > T:
+			dt, t_new = T - t, T[None]
 		if t_eval is not None:
-			if (ckpt_counter < len(t_eval)) and (t + dt > t_eval[ckpt_counter]):
+			if (ckpt_counter < len(t_eval)) and (t_new > t_eval[ckpt_counter]):
 				dt_old, ckpt_flag = dt, True
-				dt = t_eval[ckpt_counter] - t
-				ckpt_counter += 1
+				dt, t_new = t_eval[ckpt_counter] - t, t_eval[ckpt_counter][None]
 
 		################ step
 		f_new, x_new, x_err, _ = solver.step(f, x, t, dt, k1=k1)
 
 		################ callback and events ########################
-		new_event_states = EventState([cb.check_event(t + dt, x_new) for cb in callbacks])
+		new_event_states = EventState([cb.check_event(t_new, x_new) for cb in callbacks])
 		triggered_events = sum([(a_ != b_)  & (b_ == False)
 								for a_, b_ in zip(new_event_states.evid, event_states.evid)])
 
@@ -295,7 +296,7 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 
 			# reset k1
 			k1 = None
-			dt = dt_pre
+			dt, ckpt_flag = dt_pre, False
 
 		else:
 			################# compute error #############################
@@ -311,14 +312,17 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 			accept_step = error_ratio <= 1
 
 			if accept_step:
-				t = t + dt
+				t = t_new
 				x = x_new
+				# the checkpoint is only passed once a step to it has been accepted
+				if (ckpt_counter < len(t_eval)) and (t == t_eval[ckpt_counter]): ckpt_counter += 1
 				sol.append(x.reshape(x_shape))
 				eval_times.append(t.reshape(t.shape))
 				k1 = f_new
 
 			if ckpt_flag:
-				dt = dt_old - dt
+				# the remainder can round to zero, which would stall the integration
+				if dt_old > dt: dt = dt_old - dt
 				ckpt_flag = False
 			################ stepsize control ###########################
 			dt = adapt_step(dt, error_ratio,
-- 
2.43.0


From 22bd05006f26d4a559cec888106d0703e241cfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:28 +0000
Subject: [PATCH 42/52] fix: odeint_hybrid looks for the event within the step
 that triggered it

---
 torchdyn/numerics/odeint.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 7e21d05..e72f06f 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -257,6 +257,7 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 		if triggered_events > 0:
 
 			dt_pre, t_inner, dt_inner, x_inner, niters = dt, t, dt, x, 0
+			switched = new_event_states # events at the end of the bracket [t_inner, t_inner + dt_inner]
 			max_iters = 100  # TODO (numerics): compute tol as function of tolerances
 
 			while niters < max_iters and event_tol < dt_inner:
@@ -273,14 +274,14 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 				if triggered_events == 0: # if no event, advance start point of bisection search
 					x_inner = x_
 					t_inner = t_inner + dt_inner
-					dt_inner = dt
 					k1 = f_new
+				else: switched = new_event_states
 					# TODO (qol): optional save
 					#sol.append(x_inner.reshape(x_shape))
 					#eval_times.append(t_inner.reshape(t.shape))
 			x = x_inner
 			t = t_inner
-			i = min([i for i, x in enumerate(new_event_states.evid) if x == True])
+			i = min([i for i, x in enumerate(switched.evid) if x == True])
 			jnum = jnum + 1
 
 			# save state and time BEFORE jump
-- 
2.43.0


From 0b50324effd3aeae4877fa8b3e5ffc6b1be9df88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:28 +0000
Subject: [PATCH 43/52] fix: odeint_hybrid does not react to events of rejected
 steps

---
 torchdyn/numerics/odeint.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index e72f06f..3e553f2 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -247,14 +247,26 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 		################ step
 		f_new, x_new, x_err, _ = solver.step(f, x, t, dt, k1=k1)
 
+		################# compute error #############################
+		if seminorm[0] == True:
+			state_dim = seminorm[1]
+			error = x_err[:state_dim]
+			error_scaled = error / (atol + rtol * torch.max(x[:state_dim].abs(), x_new[:state_dim].abs()))
+		else:
+			error = x_err
+			error_scaled = error / (atol + rtol * torch.max(x.abs(), x_new.abs()))
+
+		error_ratio = hairer_norm(error_scaled)
+		accept_step = error_ratio <= 1
+
 		################ callback and events ########################
 		new_event_states = EventState([cb.check_event(t_new, x_new) for cb in callbacks])
 		triggered_events = sum([(a_ != b_)  & (b_ == False)
 								for a_, b_ in zip(new_event_states.evid, event_states.evid)])
 
 
-		# if event, close in on switching state in [t, t + Δt] via bisection
-		if triggered_events > 0:
+		# if event on an accepted step, close in on switching state in [t, t + Δt] via bisection
+		if accept_step and triggered_events > 0:
 
 			dt_pre, t_inner, dt_inner, x_inner, niters = dt, t, dt, x, 0
 			switched = new_event_states # events at the end of the bracket [t_inner, t_inner + dt_inner]
@@ -275,10 +287,10 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 					x_inner = x_
 					t_inner = t_inner + dt_inner
 					k1 = f_new
-				else: switched = new_event_states
 					# TODO (qol): optional save
 					#sol.append(x_inner.reshape(x_shape))
 					#eval_times.append(t_inner.reshape(t.shape))
+				else: switched = new_event_states
 			x = x_inner
 			t = t_inner
 			i = min([i for i, x in enumerate(switched.evid) if x == True])
@@ -300,18 +312,6 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 			dt, ckpt_flag = dt_pre, False
 
 		else:
-			################# compute error #############################
-			if seminorm[0] == True:
-				state_dim = seminorm[1]
-				error = x_err[:state_dim]
-				error_scaled = error / (atol + rtol * torch.max(x[:state_dim].abs(), x_new[:state_dim].abs()))
-			else:
-				error = x_err
-				error_scaled = error / (atol + rtol * torch.max(x.abs(), x_new.abs()))
-
-			error_ratio = hairer_norm(error_scaled)
-			accept_step = error_ratio <= 1
-
 			if accept_step:
 				t = t_new
 				x = x_new
-- 
2.43.0


From 7be78e21634e411a9fd3ec371a52b1c89641ec7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:07 +0000
Subject: [PATCH 44/52] fix: dense_output passes its arguments to torchcde in
 the right order

---
 torchdyn/numerics/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/utils.py b/torchdyn/numerics/utils.py
index c8f7c3e..0247852 100644
--- a/torchdyn/numerics/utils.py
+++ b/torchdyn/numerics/utils.py
@@ -65,8 +65,8 @@ def adapt_step(dt, error_ratio, safety, min_factor, max_factor, order):
 
 def dense_output(sol, t_sol, t_eval, return_spline=False):
     t_sol = t_sol.to(sol)
-    spline_coeff = hermite_cubic_coefficients_with_backward_differences(t_sol, sol.permute(1, 0, 2))
-    sol_spline = CubicSpline(t_sol, spline_coeff)
+    spline_coeff = hermite_cubic_coefficients_with_backward_differences(sol.permute(1, 0, 2), t_sol)
+    sol_spline = CubicSpline(spline_coeff, t_sol)
     sol_eval = torch.stack([sol_spline.evaluate(t) for t in t_eval])
     if return_spline:
         return sol_eval, sol_spline
-- 
2.43.0


From 9fbfe3601bb68589686815a6d7c0a5c77e3656b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:00 +0000
Subject: [PATCH 45/52] fix: fixed-step integration over a decreasing t_span
 takes steps with negative dt

Negating the vector field did not reach the hypernetwork of hypersolvers, nor the
velocity of asynchronous leapfrog, whose backward integration was wrong.
---
 torchdyn/numerics/odeint.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 3e553f2..ee39e38 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -52,16 +52,19 @@ def odeint(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:Union[str, n
 		Tuple[Tensor, Tensor]: returns a Tuple (t_eval, solution).
 	"""
 	if type(t_span) == list: t_span = torch.cat(t_span)
-	if t_span[1] < t_span[0]: # time is reversed
+	# instantiate the solver in case the user has specified preference via a `str` and ensure compatibility of device ~ dtype
+	if type(solver) == str:
+		solver = str_to_solver(solver, x.dtype)
+
+	# time is reversed. Fixed-step methods simply take steps with negative `dt`: negating the vector field instead
+	# would not reach what else enters their steps (hypernetworks, velocities of asynchronous leapfrog)
+	if t_span[1] < t_span[0] and solver.stepping_class == 'adaptive':
 		if verbose: warn("You are integrating on a reversed time domain, adjusting the vector field automatically")
 		f_ = lambda t, x: -f(-t, x)
 		# integrated forward over the negated times, which are returned as the user gave them
 		t_span, save_at, sign = -t_span, [-t for t in save_at], -1
 	else: f_, sign = f, 1
 
-	# instantiate the solver in case the user has specified preference via a `str` and ensure compatibility of device ~ dtype
-	if type(solver) == str:
-		solver = str_to_solver(solver, x.dtype)
 	x, t_span = solver.sync_device_dtype(x, t_span)
 	stepping_class = solver.stepping_class
 
@@ -113,16 +116,19 @@ def odeint_symplectic(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:U
 		save_at (Union[List, Tensor], optional): Defaults to t_span
 	"""
 	if type(t_span) == list: t_span = torch.cat(t_span)
-	if t_span[1] < t_span[0]: # time is reversed
+	# instantiate the solver in case the user has specified preference via a `str` and ensure compatibility of device ~ dtype
+	if type(solver) == str:
+		solver = str_to_solver(solver, x.dtype)
+
+	# time is reversed. Fixed-step methods simply take steps with negative `dt`: negating the vector field instead
+	# would not reach what else enters their steps (hypernetworks, velocities of asynchronous leapfrog)
+	if t_span[1] < t_span[0] and solver.stepping_class == 'adaptive':
 		if verbose: warn("You are integrating on a reversed time domain, adjusting the vector field automatically")
 		f_ = lambda t, x: -f(-t, x)
 		# integrated forward over the negated times, which are returned as the user gave them
 		t_span, save_at, sign = -t_span, [-t for t in save_at], -1
 	else: f_, sign = f, 1
 
-	# instantiate the solver in case the user has specified preference via a `str` and ensure compatibility of device ~ dtype
-	if type(solver) == str:
-		solver = str_to_solver(solver, x.dtype)
 	x, t_span = solver.sync_device_dtype(x, t_span)
 	stepping_class = solver.stepping_class
 
-- 
2.43.0


From cf2c65e13ab95ea9f3c55e28d2f017c3a2407bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:00 +0000
Subject: [PATCH 46/52] fix: NeuralODE.trajectory uses the interpolator of the
 model like forward

---
 torchdyn/core/neuralde.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torchdyn/core/neuralde.py b/torchdyn/core/neuralde.py
index f553896..9d864b3 100644
--- a/torchdyn/core/neuralde.py
+++ b/torchdyn/core/neuralde.py
@@ -138,7 +138,8 @@ class NeuralODE(ODEProblem, pl.LightningModule):
     def trajectory(self, x: torch.Tensor, t_span: Tensor):
         x, t_span = self._prep_integration(x, t_span)
         _, sol = odeint(
-            self.vf, x, t_span, solver=self.solver, atol=self.atol, rtol=self.rtol
+            self.vf, x, t_span, solver=self.solver, atol=self.atol, rtol=self.rtol,
+            interpolator=self.interpolator
         )
         return sol
 
-- 
2.43.0


From ba94df4e55a9d920112f33b93b7998e8eafa2288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:06 +0000
Subject: [PATCH 47/52] fix: MSBackward works where gradients are disabled
 (adjoint sensitivities, no_grad)

---
 torchdyn/numerics/solvers/ode.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 7b44311..00b2550 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -261,6 +261,12 @@ class MSBackward(MultipleShootingDiffeqSolver):
         super().__init__(coarse_method, fine_method)
 
     def root_solve(self, odeint_func, f, x, t_span, B, fine_steps, maxiter):
+        # the Jacobian products need a graph also where the caller has disabled gradients, e.g. in the forward of an adjoint
+        with torch.enable_grad():
+            B = self._root_solve(odeint_func, f, x, t_span, B, fine_steps, maxiter)
+        return B if torch.is_grad_enabled() else B.detach()
+
+    def _root_solve(self, odeint_func, f, x, t_span, B, fine_steps, maxiter):
         dt, n_subinterv = t_span[1] - t_span[0], len(t_span)
         sub_t_span = torch.linspace(0, dt, fine_steps, dtype=t_span.dtype).to(x)
         i = 0
-- 
2.43.0


From 4b5a0611652f2ca69766e8e1a790a86a75f4bc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:54 +0000
Subject: [PATCH 48/52] fix: Chebychev basis lets gradients reach depth,
 dilation and shift

---
 torchdyn/nn/galerkin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torchdyn/nn/galerkin.py b/torchdyn/nn/galerkin.py
index cb682fa..94619c8 100644
--- a/torchdyn/nn/galerkin.py
+++ b/torchdyn/nn/galerkin.py
@@ -151,14 +151,14 @@ class Chebychev(nn.Module):
 
     def forward(self, n_range, s):
         max_order = n_range[-1].int().item()
-        basis = [1]
+        basis = [torch.ones_like(s)]
         # Based on numpy's Cheb code
         if max_order > 0:
             s2 = 2 * s
-            basis += [s.item()]
+            basis += [s]
             for i in range(2, max_order):
                 basis += [basis[-1] * s2 - basis[-2]]
-        return [torch.tensor(basis).to(n_range)]
+        return [torch.cat([b.reshape(1) for b in basis]).to(n_range)]
 
 
 class GalLayer(nn.Module):
-- 
2.43.0


From 87335c86c7d04aac25cc0d7ee854decd66952e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:44 +0000
Subject: [PATCH 49/52] fix: HybridNeuralDE hidden state takes the type of the
 sequence (double precision)

---
 torchdyn/models/hybrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/models/hybrid.py b/torchdyn/models/hybrid.py
index 7cf4d34..b90259d 100644
--- a/torchdyn/models/hybrid.py
+++ b/torchdyn/models/hybrid.py
@@ -52,7 +52,7 @@ class HybridNeuralDE(nn.Module):
 
     def _init_latent(self, x):
         x = x[0]
-        return torch.zeros(x.shape[0], self.jump.hidden_size).to(x.device)
+        return torch.zeros(x.shape[0], self.jump.hidden_size).to(x)
 
     def _jump_latent(self, *args):
         x_t, h, c = args[:3]
-- 
2.43.0


From d27d978a7f2a1a1586e4545603c7291ac3f20dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:10 +0000
Subject: [PATCH 50/52] fix: a solver used in single precision keeps its
 coefficients for later double-precision problems

---
 torchdyn/numerics/solvers/templates.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/torchdyn/numerics/solvers/templates.py b/torchdyn/numerics/solvers/templates.py
index 25234ab..45874f8 100644
--- a/torchdyn/numerics/solvers/templates.py
+++ b/torchdyn/numerics/solvers/templates.py
@@ -31,7 +31,9 @@ class DiffEqSolver(nn.Module):
         "Ensures `x`, `t_span`, `tableau` and other solver tensors are on the same device with compatible dtypes"
         device = x.device
         if self.tableau is not None:
-            c, a, bsol, berr = self.tableau
+            # always cast from the original: coefficients rounded for a problem in lower precision would stay rounded
+            if not hasattr(self, '_tableau'): self._tableau = self.tableau
+            c, a, bsol, berr = self._tableau
             self.tableau = c.to(x), [a.to(x) for a in a], bsol.to(x), berr.to(x)
         t_span = t_span.to(device)
         self.safety = self.safety.to(device)
-- 
2.43.0


From 6fb7d45a5ba28319e41b71a21703db2b1a37a64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:39 +0000
Subject: [PATCH 51/52] fix: parallel implicit Euler residual for states that
 are not two-dimensional

---
 torchdyn/numerics/solvers/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 00b2550..9945f77 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -306,7 +306,7 @@ class ParallelImplicitEuler(MultipleShootingDiffeqSolver):
     def _residual(f, x, B, t_span):
         dt = t_span[1:] - t_span[:-1]
         F = f(0., B[1:])
-        residual = torch.sum((B[2:] - B[1:-1] - dt[1:, None, None] * F[1:]) ** 2)
+        residual = torch.sum((B[2:] - B[1:-1] - dt[1:].reshape(-1, *[1] * x.dim()) * F[1:]) ** 2)
         residual += torch.sum((B[1] - x - dt[0] * F[0]) ** 2)
         return residual
 
-- 
2.43.0


From 1ccfa4b31c47390ff8c7bb630f3d94a2f43b7d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:16 +0000
Subject: [PATCH 52/52] fix: ODEProblem integrates fields of higher order as
 declared

---
 torchdyn/core/problems.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index 954e609..26472ab 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -10,7 +10,7 @@ from torchdyn.numerics.sensitivity import (
 from torchdyn.numerics.odeint import odeint, odeint_mshooting, _locate_save_at
 from torchdyn.numerics.solvers.ode import str_to_solver, str_to_ms_solver
 from torchdyn.core.utils import standardize_vf_call_signature
-from torchdyn.core.defunc import SDEFunc
+from torchdyn.core.defunc import DEFunc, SDEFunc
 from torchdyn.numerics import sdeint
 from torchsde._brownian import BrownianInterval
 
@@ -76,6 +76,9 @@ class ODEProblem(nn.Module):
 
         # wrap vector field if `t, x` is not the call signature
         vector_field = standardize_vf_call_signature(vector_field)
+        # higher-order fields return the highest derivative only (`DEFunc`s, e.g. of Neural ODEs, handle it already)
+        if order > 1 and not isinstance(vector_field, DEFunc):
+            vector_field = DEFunc(vector_field, order)
 
         self.vf, self.order, self.sensalg = vector_field, order, sensitivity
         optimizable_params = tuple(optimizable_params)
-- 
2.43.0

