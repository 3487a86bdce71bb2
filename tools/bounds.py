BOUNDS['C01'] = 'one step, states of 1-17 entries, any field (uninterpreted function) and the elementary-weight systems up to order 5.'
BOUNDS['C02'] = 'one step; rooted-tree systems up to order 5 and uninterpreted fields.'
BOUNDS['C03'] = 'grids of 2-5 symbolic times, states up to 2x2, every save_at selection/order of those grids, uninterpreted one-step method.'
BOUNDS['C04'] = 'grids of 2-4 symbolic times, histories of up to 4 (thorough 6) accepted or rejected steps with arbitrary proposed sizes.'
BOUNDS['C05'] = 'one step with any error, states, slopes and tolerances in [0.01, 1], then the start of the next one; state shapes up to (2, 2) and seminorm prefixes.'
BOUNDS['C06'] = 'one controller call with any inputs, and 2-3 successive steps of odeint/odeint_hybrid; starting step for states of up to 4 entries and any tolerances; orders 1, 2, 5.'
BOUNDS['C07'] = '3-4 times, up to 4 steps with any history; polynomial exactness of the interpolant and tree order up to 4.'
BOUNDS['C08'] = '2-4 decreasing symbolic times, every fixed-step method, adaptive histories of up to 4 steps, any field.'
BOUNDS['C09'] = 'one step there and back and trajectories over 3-4 symbolic times, states up to 6 entries, any field.'
BOUNDS['C10'] = 'one step and 3 symbolic times of either direction, any field and hypernetwork, states up to 4 entries.'
BOUNDS['C11'] = 'uniform grids of 2-5 times, 1-10 sweeps, any guess, any autonomous field, states up to 2 entries, 2-3 fine points. Non-uniform grids are outside (MSZero/MSBackward take the first spacing).'
BOUNDS['C12'] = 'one step and 2-3 symbolic times, any field, any candidate states, states up to 4 entries; the inner LBFGS minimiser is scripted, its objective and its settings are checked.'
BOUNDS['C13'] = '2-4 requested times, up to 2 events, up to 4 steps outside the bisection, scripted step sizes in [0.05, 1].'
BOUNDS['C14'] = '2-4 symbolic times of either direction; polynomial systems (linear, nilpotent, quadratic) on which the method is exact, and one step of any field.'
BOUNDS['C15'] = 'as C14, with the interpolated adjoint; one step of any field per sample and dimension up to 2.'
BOUNDS['C16'] = '2-3 symbolic times, states up to 4 entries, any field and any loss, euler/midpoint/rk4, orders 1 and 2.'
BOUNDS['C17'] = '2-3 symbolic times of either direction, states up to 4 entries, any field; all sensitivities, solvers by name and as objects, save_at selections.'
BOUNDS['C18'] = 'any field, time, state and arguments, orders 1-4, blocks of up to 2 coordinates, batches up to 2.'
BOUNDS['C19'] = 'one step of every implemented scheme and noise type, any drift and diffusion, states up to 4 entries.'
BOUNDS['C20'] = '3-5 symbolic times, any Brownian path, states up to 4 entries.'
BOUNDS['C21'] = 'networks of 1-4 coordinates (uninterpreted with uninterpreted derivatives), batches up to 3, any noise; integration over 2-3 symbolic times.'
BOUNDS['C22'] = 'uninterpreted energies of 1-6 coordinates, batches up to 3.'
BOUNDS['C23'] = 'degrees up to 6, layers up to 2x3 features and the listed convolution geometries, any coefficients, inputs and depth.'
BOUNDS['C24'] = 'the listed data shapes of up to 4 dimensions, any data, times and augmentation networks; trajectories over 2-3 symbolic times.'
BOUNDS['C25'] = 'residuals of 1-2 variables (uninterpreted or affine), up to 3 iterations, up to 3 line-search trials.'
BOUNDS['C26'] = '1-7 samples and dimensions 1-4 with symbolic draws, radii, centers and noise. generate_diffeqml (image file, scipy) is outside.'
BOUNDS['C27'] = 'IEEE bit-precise (half, single and double) times in [-4, 4]: 2-4 times, at most 2-3 steps with any proposed sizes in [0.25, 16]; states and errors are scripted.'
BOUNDS['C28'] = 'the listed batch shapes, any state, time and parameters, 1-3 harmonics.'
BOUNDS['C29'] = '2-4 samples of the listed shapes, 2-5 symbolic times, any per-sample field.'
BOUNDS['C30'] = 'sequences of 1-8 elements, batches of 1-2, any cell, flow and read-out (uninterpreted).'
