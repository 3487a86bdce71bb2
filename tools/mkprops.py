"""Writes /verif/properties.jsonl (kept as a script so that the texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=m, where=files[0]) for m in mech])))
N='torchdyn/numerics/'; S=N+'solvers/'
p('C01','Explicit ODE steppers are the Runge-Kutta methods they are named after',
 'One step of euler, midpoint, rk4, dopri5 or tsit5 from (t, x) with step dt returns x + dt*sum(b_i k_i) with every stage evaluated at the time t + c_i dt and state x + dt*sum(a_ij k_j) of that published method, for any vector field, time-varying ones included. The result satisfies all order conditions up to the advertised order 1, 2, 4, 5, 5. A first stage supplied by the caller is used in place of evaluating the field at (t, x), and double-precision problems get double-precision coefficients, also through the problem and model classes.',
 ['inputs','programs'],'all vector fields f(t,x), states, times, steps dt of either sign',
 'Tests integrate a few autonomous fields and compare endpoints at loose tolerances: a wrong stage time or one wrong coefficient stays below the tolerance or is invisible for autonomous fields.',
 [S+'ode.py',S+'_constants.py',S+'templates.py','torchdyn/core/problems.py'],['*.step of the explicit solvers','construct_rk4/dopri5/tsit5','sync_device_dtype'])
p('C02','Adaptive steppers return a faithful embedded error estimate and reusable slope',
 'For dopri5 and tsit5 the error returned with a step is the difference between the fifth-order solution and an embedded fourth-order one: it vanishes identically on every problem that a fourth-order method integrates exactly and not on those it does not. The slope returned with the step equals the vector field at the end point (t + dt, new state), and the returned stages are the seven slopes the step used.',
 ['inputs','programs'],'all vector fields, states, times, steps',
 'No test looks at the error estimate or the returned slope; a wrong error weight only makes accepted steps too large or too small.',
 [S+'ode.py',S+'_constants.py'],['DormandPrince45.step','Tsitouras45.step','berr of the tableaus'])
p('C03','Fixed-step integration returns the right state at every requested time',
 'With a fixed-step solver, odeint returns x0 at the first time and at every later time of t_span the result of one solver step from the previous grid point with the local step, for uniform and non-uniform grids and states of any shape, in one-to-one correspondence with the returned times. With save_at it returns exactly the requested times and their states, in the order requested, and rejects times that are not in t_span or are repeated.',
 ['inputs','configurations'],'all strictly increasing grids (any spacing), all save_at subsets and orders, all step functions',
 'Tests use uniform linspace grids and check lengths; the mapping of times to states under non-uniform, dense or permuted requests is not sampled.',
 [N+'odeint.py'],['_fixed_odeint','odeint dispatch','save_at'])
p('C04','Adaptive integration returns exactly the requested time points',
 'For every history of accepted and rejected steps and every sequence of step sizes proposed by the controller, adaptive odeint terminates and returns one state for each time of t_span, in order, the first being the initial state and each later one the end state of an accepted step that ends at that time. When all evaluated points are requested, the result additionally contains every accepted step in increasing time, and still contains every time of t_span.',
 ['histories','inputs'],'all accept/reject histories and step sizes within the bounds; all increasing t_span',
 'Tests run a handful of smooth problems where almost no step is rejected or collides with a checkpoint.',
 [N+'odeint.py'],['_adaptive_odeint checkpointing','return_all_eval'])
p('C05','A step is accepted iff its scaled error norm is at most one',
 'An adaptive step from x to x_new is accepted exactly when the root mean square of error / (atol + rtol * max(|x|, |x_new|)) is at most 1, with the tolerances the caller gave (restricted to the leading entries when a seminorm is requested). A rejected step leaves state, time, slope and results untouched and is retried with a smaller step; after acceptance the next step starts from the new time, the new state and the slope returned with it, and no step goes beyond the next requested time (without interpolation) or the end of t_span.',
 ['histories','inputs'],'all errors, states, tolerances and accept/reject histories within the bounds',
 'Tests only see endpoint accuracy with tolerances far from the acceptance threshold.',
 [N+'odeint.py',N+'utils.py'],['error_ratio','hairer_norm','accept_step','k1 chaining'])
p('C06','The step-size controller stays within its declared bounds',
 'After a step of size dt with scaled error norm e, the next proposed size is dt * min(max_factor, max(safety / e^(1/order), min_factor)), with the lower bound raised to 1 when e < 1, and dt * max_factor when e is zero: accepted steps with e < 1 never shrink, rejected ones never grow, and the factor is never outside [min_factor, max_factor]. The initial step is positive, scales with the tolerances as the standard starting-step algorithm prescribes and never exceeds 100 times its first guess.',
 ['inputs'],'all errors, steps, orders and factors',
 'Tests never inspect the step sizes; a controller that is slightly off still converges on the sampled problems.',
 [N+'utils.py'],['adapt_step','init_step','hairer_norm'])
p('C07','Dense output interpolates the computed solution at the requested times',
 'With interpolation enabled, adaptive odeint still returns exactly one state per time of t_span, and the state at an interior time is the fourth-order interpolant of the accepted step containing it: it matches the two end states, their slopes and the midpoint estimate of that step, so that a time at a step boundary gets the boundary state. The stand-alone dense output over a computed trajectory reproduces the trajectory at its own times.',
 ['inputs','histories'],'all end states, slopes, stages, evaluation times; all positions of requested times relative to accepted steps within the bounds',
 'One test compares an interpolated run with a tolerance; no test evaluates the interpolant against its defining conditions.',
 [N+'interpolators.py',N+'odeint.py',N+'utils.py'],['FourthOrder.fit','Interpolator.evaluate','construct_4th','dense_output'])
p('C08','Integrating over a decreasing t_span is integration backward in time',
 'For a decreasing t_span, odeint returns the times as the caller gave them and the states of the trajectory followed backward from x0: each step has the negative increment t_{k+1} - t_k of the same method, each step evaluates the vector field only at times of the caller\'s interval, and save_at, return_all_eval and interpolation mean the same as in the forward direction.',
 ['inputs','configurations'],'all decreasing grids, vector fields and solvers within the bounds',
 'The suite has no assertion on reversed integration; time-varying fields on reversed grids are never sampled.',
 [N+'odeint.py'],['time reversal in odeint and odeint_symplectic','negative steps in _fixed_odeint'])
p('C09','Asynchronous leapfrog is time-reversible and integrates the pair (x, v)',
 'One asynchronous-leapfrog step from (x, v) at t with step dt evaluates the field once at the midpoint (t + dt/2, x + dt/2 v) and returns the leapfrog update; a step of -dt from the result at t + dt returns exactly the original pair. Symplectic integration over a grid chains these steps and returns one state per requested time.',
 ['inputs'],'all fields, states, times, steps',
 'Tests check only that the solver runs; reversibility needs every input.',
 [S+'ode.py',N+'odeint.py'],['AsynchronousLeapfrog.step','odeint_symplectic'])
p('C10','Hypersolvers add exactly the learned residual at the next order',
 'A hypersolver step over euler, midpoint or rk4 equals the step of its base method plus dt^(p+1) times the residual network evaluated at (t, x), p being the order of the base method, so that a zero network reproduces the base solver and the correction affects only terms of order p+1.',
 ['inputs','programs'],'all fields, residual networks, states, steps',
 'Hypersolvers are only exercised for not crashing.',
 [S+'hyper.py'],['HyperEuler','HyperMidpoint','HyperRungeKutta4'])
p('C11','Parallel-in-time solvers converge to the sequential fine solution',
 'On a uniform grid and for an autonomous field, after k+1 multiple-shooting sweeps the first k+2 shooting states equal the sequential fine solution whatever the initial guess of the later states, and the sequential fine solution is a fixed point; with the Newton-type solver one sweep is exact for affine fields. The number of sweeps is the requested maximum (plus the initial one), the first state is always x0, and more sweeps than subintervals are harmless.',
 ['inputs','configurations'],'all initial guesses, fields, numbers of subintervals and sweeps within the bounds',
 'The suite compares one problem with a tolerance after convergence; wrong blocks or a wrong Jacobian product only slow convergence down.',
 [S+'ode.py',N+'odeint.py','torchdyn/core/problems.py'],['MSZero.root_solve','MSBackward.root_solve','odeint_mshooting'])
p('C12','Implicit Euler solvers minimise the residual of the implicit equation',
 'The function that the implicit Euler step minimises is the squared residual of x1 = x + dt f(t + dt, x1), with its exact gradient, started from x, and the parallel version minimises the sum of these residuals over all shooting states chained from x0; the step returns the minimiser found. Hence a zero of the objective is a solution of the implicit equations and vice versa.',
 ['inputs','programs'],'all fields, states, candidate minimisers, steps',
 'The implicit solver is only run on one autonomous problem; the time argument and the gradient are not observable there.',
 [S+'ode.py'],['ImplicitEuler.step','ImplicitEuler._residual','ParallelImplicitEuler.root_solve'])
p('C13','Hybrid integration applies jumps at events, in order, at most j_span times',
 'When an accepted step makes a callback\'s event true, odeint_hybrid localises the switching time inside that step to event_tol, records the state before the jump and the state after it at that same time, and applies the jump map of the first triggered callback exactly once. Integration resumes from the state after the jump; recorded times never decrease, no more than j_span jumps are made, and every t_span time reached before the last jump allowed or the end is among the recorded times, also after rejected steps and events.',
 ['histories','inputs'],'all event patterns, accept/reject histories and step sizes within the bounds',
 'No test covers hybrid integration; event patterns relative to checkpoints are combinatorial.',
 [N+'odeint.py',N+'utils.py'],['odeint_hybrid','EventState','EventCallback'])
p('C14','Adjoint gradients are the gradients of the integrated system',
 'With sensitivity="adjoint", the gradients of any loss on the returned trajectory with respect to the initial state, every parameter of the vector field and the integration times equal the continuous-time sensitivities: on problems that the solvers integrate exactly they coincide with the true gradients. Losses may involve any subset of the returned times, fields may be time-varying, parameters may have any shape or be unused, and t_span may be non-uniform or decreasing.',
 ['inputs','programs','configurations'],'all parameters, initial states, loss cotangents and grids in the exactly integrable families stated',
 'Tests compare adjoint and autograd on one problem with a loss on the last state and a loose tolerance.',
 [N+'sensitivity.py','torchdyn/core/problems.py','torchdyn/core/neuralde.py'],['_gather_odefunc_adjoint'])
p('C15','Interpolated-adjoint gradients agree with the true sensitivities',
 'With sensitivity="interpolated_adjoint", the returned trajectory is the one of the other sensitivities (one state per time of t_span), and the gradients with respect to the initial state and the parameters equal the continuous-time sensitivities on problems where solver and spline are exact, for losses on any subset of the returned times, non-uniform and decreasing t_span. The backward pass uses the adjoint solver and adjoint tolerances.',
 ['inputs','configurations'],'all parameters, initial states, cotangents and grids in the exactly integrable families stated',
 'Tests compare one problem, last state only, uniform increasing grid, loose tolerance.',
 [N+'sensitivity.py','torchdyn/core/problems.py'],['_gather_odefunc_interp_adjoint'])
p('C16','Integral losses are accumulated along the flow and differentiated consistently',
 'With an integral loss and autograd sensitivity the first state dimension integrates the loss of the remaining dimensions, whose dynamics are unaffected by it. With the adjoint sensitivities the gradient with respect to the initial state and parameters is that of trajectory loss plus the time integral of the integral loss along the trajectory.',
 ['inputs','programs'],'all fields, integral losses, states and cotangents within the stated families',
 'One test checks that an integral loss runs.',
 ['torchdyn/core/defunc.py',N+'sensitivity.py','torchdyn/core/neuralde.py'],['DEFunc.forward integral_loss branch','adjoint dg term'])
p('C17','Model forward passes equal the functional integration they wrap',
 'A NeuralODE or ODEProblem returns the same times and states as calling odeint with its vector field, solver, tolerances and interpolator, whichever sensitivity is selected, honours save_at, and returns only the solution when asked to; its trajectory method returns the same states. Without t_span the interval [0, 1] is used, and multiple-shooting problems pass their iteration count, fine steps and initial guess on unchanged.',
 ['inputs','configurations'],'all fields, states, grids and the configurations of sensitivity, save_at, return_t_eval',
 'Tests check shapes and that configurations run, not that the configurations agree.',
 ['torchdyn/core/problems.py','torchdyn/core/neuralde.py',N+'sensitivity.py'],['ODEProblem.odeint','NeuralODE.forward','NeuralODE.trajectory','MultipleShootingProblem'])
p('C18','Vector-field wrapping preserves the dynamics the user wrote',
 'Whatever the signature of the vector field (state only, time and state, with or without args; function or module), the wrapped field evaluates it at the given time and state with the given args and counts evaluations. For higher-order dynamics the derivative of block i is block i+1 and the last block is the user\'s field of the whole state; modules that need the depth variable receive the current time on every evaluation.',
 ['inputs','programs','configurations'],'all fields, times, states, args and orders within the bounds',
 'Tests use a few modules and check shapes.',
 ['torchdyn/core/utils.py','torchdyn/core/defunc.py','torchdyn/core/neuralde.py'],['standardize_vf_call_signature','DEFuncBase','DEFunc','higher_order_forward'])
p('C19','SDE steppers implement their schemes and refuse SDEs of another type',
 'One step of euler (Ito), eulerHeun (Stratonovich), milstein_ito and milstein_stratonovich equals the published update in terms of drift, diffusion and the Brownian increment over [t, t + dt], evaluating drift and diffusion at the scheme\'s times; with zero diffusion each is the deterministic Euler step. Constructing a solver for an SDE of the other calculus or of an unknown noise type raises an error.',
 ['inputs','configurations'],'all drifts, diffusions, states, increments, times, steps; all type combinations',
 'SDE tests check shapes or statistical closeness; a wrong correction term hides in the noise.',
 [S+'sde.py','torchdyn/core/defunc.py'],['EulerMaruyama','EulerHeun','MilsteinBase','_check_types','SDEFunc'])
p('C20','SDE integration tiles the interval with consecutive Brownian increments',
 'sdeint queries the Brownian motion exactly on the consecutive subintervals of t_span, so that the increments used sum to the total increment, and returns x0 at the first time and at each later time the result of the solver step over the subinterval before it; save_at selects requested times in the order requested. NeuralSDE forward and trajectory return the same path, with drift and diffusion called with or without time according to their signature.',
 ['inputs','configurations'],'all grids, drifts, diffusions, Brownian paths, save_at subsets within the bounds',
 'Tests cannot see which increments were used.',
 [N+'sdeint.py','torchdyn/core/neuralde.py','torchdyn/core/problems.py','torchdyn/core/defunc.py'],['_fixed_sdeint','sdeint','NeuralSDE','SDEFunc.f/g'])
p('C21','Continuous normalizing flows propagate exactly the negative divergence',
 'The CNF vector field returns the network output for the data dimensions and minus the trace of its Jacobian in the first dimension; with the Hutchinson estimator it returns minus the quadratic form of the Jacobian in the sampled noise, whose mean over the noise is minus the trace. The value of the first dimension never influences the dynamics, and the noise is drawn per integration, not per evaluation.',
 ['inputs','programs'],'all networks in the stated families (including arbitrary differentiable ones), states, noises',
 'Tests evaluate one network with a loose tolerance.',
 ['torchdyn/models/cnf.py','torchdyn/core/neuralde.py'],['CNF.forward','autograd_trace','hutch_trace','_prep_integration'])
p('C22','Energy-based models have the structure that makes them stable or conservative',
 'HNN dynamics are the symplectic gradient of the network (the Hamiltonian is conserved along the field), conservative stable neural flows are a skew-symmetric matrix times the energy gradient (energy conserved), gradient flows are minus the energy gradient (energy non-increasing). Lagrangian networks return velocities and the accelerations that satisfy the Euler-Lagrange equation. Each sample of a batch is treated independently.',
 ['inputs','programs'],'all energies / Hamiltonians / Lagrangians in the stated families, all states',
 'Tests only check that training code runs.',
 ['torchdyn/models/energy.py'],['HNN','ConservativeLinearSNF','GNF','LNN'])
p('C23','Galerkin layers evaluate their basis expansion at the current depth',
 'A Galerkin layer is the linear (or convolutional) layer whose weights and bias are the sum over basis elements of coefficient times basis value at dilation * t + shift, t being the depth appended by DepthCat, with the Fourier, polynomial, Chebyshev or radial basis selected. bias=False means no bias, and passed centers and scales are used.',
 ['inputs','configurations'],'all coefficients, inputs, depths, dilations, shifts; the bases and sizes within the bounds',
 'Tests check that the layers run with zero-initialised coefficients, for which every basis gives the same output.',
 ['torchdyn/nn/galerkin.py'],['GalLayer.calculate_weights','GalLinear','GalConv2d','basis classes'])
p('C24','Augmentation, depth and data-control layers place their inputs correctly',
 'Augmenter concatenates zeros, or the output of its augmentation function, before or after the data along the chosen dimension and leaves the data unchanged; DepthCat appends the current time to every row along its dimension; DataControl appends the initial condition of the integration, which stays fixed during it and is set anew for each call.',
 ['inputs','configurations'],'all data, times, dimensions, orders within the bounds',
 'Tests check shapes.',
 ['torchdyn/nn/node_layers.py','torchdyn/core/neuralde.py','torchdyn/core/defunc.py'],['Augmenter','DepthCat','DataControl','_prep_integration'])
p('C25','Quasi-Newton root finding steps, updates and stops as specified',
 'A Broyden step moves to z - alpha * J_inv g(z), and the updated inverse Jacobian satisfies the secant equation up to its regularisation. The line searches look along the direction of motion and return a step with no larger residual or the smallest allowed one; root_find stops at the first iterate meeting both tolerance tests, never does more than maxiters iterations, and returns a root of an affine system with exact inverse after one full step.',
 ['inputs','histories'],'all residual functions, iterates, inverse Jacobians; iteration bounds stated',
 'Tests check convergence on one function; stalls and off-by-one iterations go unnoticed.',
 [S+'root.py'],['Broyden.step','update_jacobian','NaiveSearch','TerminationCondition','root_find'])
p('C26','Synthetic datasets have the documented geometry, sizes and labels',
 'Every generator returns the documented number of points and matching labels for any valid size, and without noise each point lies on its geometric locus: spheres of the two radii, two half-moons, two arms of the spiral, rings and spirals of Gaussians with the given radii, angles, dimensions and spreads. Noise only adds to that.',
 ['inputs','configurations'],'all random draws (as symbolic values), radii, noises; sizes and dimensions within the bounds',
 'Tests only check that the generators run with default arguments.',
 ['torchdyn/datasets/static_datasets.py'],['generate_concentric_spheres','generate_moons','generate_spirals','generate_gaussians','generate_gaussians_spiral','ToyDataset'])
p('C27','Adaptive integration reaches requested times exactly under float rounding',
 'In floating-point arithmetic, whatever the rounding of t + dt, a step clipped to a requested time ends exactly at that time, so adaptive and hybrid integration return every requested time and terminate; the remaining step kept after a clipped one is never zero or negative.',
 ['inputs','histories'],'all floating-point times and steps (bit-precise) for the bounded number of steps',
 'The failing roundings are rare bit patterns that sampling misses.',
 [N+'odeint.py'],['_adaptive_odeint time bookkeeping'])
p('C28','Built-in benchmark systems are the published vector fields',
 'The Lorenz, Van der Pol, Rabinovich-Fabrikant, linear and Fourier-type systems return, for every state, batch shape and time, the right-hand side of the published equations with the documented constants and their own parameters.',
 ['inputs'],'all states, times, parameters',
 'The systems are only used as integrands in runs without reference values.',
 [N+'systems.py'],['Lorenz','VanDerPol','ODEProblem4','LTISystem','FourierSystem','SineSystem'])
p('C29','Samples of a batch do not influence each other under fixed-step integration',
 'For a vector field that acts on each sample separately, fixed-step integration of a batch gives each sample the trajectory it has when integrated alone, and permuting the batch permutes the result; the same holds for gradients of the sum of per-sample losses. Integration does not modify the initial state or the time grid passed by the caller.',
 ['inputs','configurations'],'all row-wise fields, states, grids, batch permutations within the bounds',
 'Tests do not compare batched with single integration.',
 [N+'odeint.py',S+'ode.py',N+'sensitivity.py'],['_fixed_odeint','solver steps','adjoint flattening'])
p('C30','Hybrid sequence models alternate jumps and flows over the sequence in order',
 'HybridNeuralDE starts from a zero hidden state and for each sequence element in order (in reversed order when asked) applies the jump cell to element and hidden state (and cell state for LSTM cells) and then the flow; it returns the read-out of all post-flow states, or of the last one only.',
 ['inputs','configurations'],'all sequences, cells, flows, read-outs within the bounds',
 'The module is not imported by any test.',
 ['torchdyn/models/hybrid.py'],['HybridNeuralDE'])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
