prop("C19", "Simulated trajectories solve the discretised Langevin equation",
     "Every step of the integrator is the classical fourth-order Runge-Kutta step of the generalised Langevin equation: fitted force plus noise minus the trapezoidal memory integral over the whole available past, interpolated between the two ends of the step. This holds for any history given as initial condition (returned unchanged at the head of the trajectory), kernel longer or shorter than the run, truncated, position-dependent or constant kernels, with the noise added or set to zero; times continue from the history in units of the time step. Initial conditions drawn from data are windows of the data.",
     ["inputs", "configurations", "histories"], "all histories, forces, kernels, noises and time steps of the sizes in the bound",
     [PK + "gle_integrate.py"], [("Integrator_gle.run, _rk_step, _f_rk, _mem_int_red, initial_conditions", PK + "gle_integrate.py"), ("Integrator_gle_const_kernel", PK + "gle_integrate.py")],
     "2 to 8 steps, 2 to 5 kernel values, up to 5 history points, 1 or 2 coordinates; with the kernel given, up to 50 steps, 40 kernel values, 30 history points and 3 coordinates")
prop("C20", "Coloured noise has the covariance of the kernel",
     "The stationary noise is white noise, one independent source per coordinate, convolved with one symmetric filter whose circular autocorrelation is the kernel at every lag (scaled by the square root of the time step); a noise shorter than the filter is the beginning of a longer one. The Karhunen-Loeve noise is linear in its white noise with covariance equal to the given matrix times the time step, refuses to be longer than that matrix, and the stationary covariance matrix built from a kernel has the kernel at the time difference in every entry.",
     ["inputs", "configurations"], "all kernels with a non-negative spectrum, all positive covariance matrices, all white noises of the sizes in the bound",
     [PK + "gle_integrate.py"], [("ColoredNoiseGenerator, KarhunenLoeveNoiseGenerator, ft, ift", PK + "gle_integrate.py")],
     "stationary noise with 2 or 3 kernel values (circular lengths 3 and 5), covariance matrices of 2 to 7 times, 2 or 3 for the decomposition")
prop("C22", "Finite elements evaluate their own functions anywhere in the mesh",
     "At any point of the mesh, the finite element basis returns the shape functions of the element containing the point in the columns of that element's degrees of freedom, zero elsewhere, with their gradient coordinate by coordinate; they sum to one and the points are left untouched. This holds whatever the order of the vertices, the refinement or the elongation of the elements. The mesh helpers return grids with the requested ends, number of cells and spacing or ratio, and simplifying a hull removes only a short edge.",
     ["inputs", "configurations"], "all points of the cells of the meshes tried, all end points, ratios and data for the mesh helpers",
     [PK + "basis/_fem_features.py", PK + "basis/_mesh_utils.py"], [("ElementFinder, FEMScalarFeatures", PK + "basis/_fem_features.py"), ("uniform_line, non_uniform_line, data_driven_line, get_intersect, remove_one_point", PK + "basis/_mesh_utils.py")],
     "9 fixed meshes of segments, triangles and tetrahedra with P1 and P2 elements, 1 or 2 points; grids of 1 to 5 cells")

prop("C18", "A model saved and loaded again is the same model",
     "Saving a model, with or without going through a file, and loading it gives back every fitted quantity, the settings that evaluation depends on and the same axes, and the loaded model evaluates force, kernel, noise and correlation with the noise exactly as the original; loading does not depend on which quantities had been computed. Estimation with saving on writes the correlations and the kernel actually computed under the names that the prefix and file names ask for, changes none of the results, and writes nothing when saving is off.",
     ["inputs", "configurations", "histories"], "all coefficients, kernels, projections and evaluation points, for every model",
     [PK + "models.py", PK + "gle_estimation.py"], [("ModelBase.save_model, load_model", PK + "models.py"), ("Estimator_gle.compute_corrs, compute_kernel, to_gfpe (saveall)", PK + "gle_estimation.py")],
     "3 kernel times, up to 4 basis functions, 1 or 2 coordinates; netCDF replaced in the encoding by its contract and used for real in every replay")
prop("C25", "Projecting a deficient basis keeps its range and nothing else",
     "The projection chosen for a deficient basis has orthonormal rows, keeps the range of the instantaneous correlation of the basis up to the requested tolerance (all that is above it, nothing that is below), and is applied to every correlation function at every lag, to the gram matrix and to the kernel evaluation. A kernel expressed on the projected functions is indistinguishable, in its evaluation, in the noise, memory and correlations with the noise, from the same kernel written on the whole basis. A regular basis is left alone, and so is any basis when no projection is asked for.",
     ["inputs", "configurations"], "all projections, kernels and trajectories of the sizes in the bound; all data and tolerances for the choice of the projection",
     [PK + "models.py", PK + "gle_estimation.py"], [("ModelBase._set_range_projection, kernel_eval, compute_noise, compute_corrs_w_noise", PK + "models.py"), ("Estimator_gle.compute_corrs, compute_gram_kernel", PK + "gle_estimation.py")],
     "use: up to 6 functions, rank up to 3, 4 points; choice: 3 points, 1 or 2 lags, up to two non-constant functions, singular value decomposition by its contract")

prop("C21", "Fits of the memory kernel evaluate to what was fitted",
     "Each family of functions is fitted, with equal weights, to exactly the data given, component by component, and evaluating the result of a fit at any times returns the documented function with the fitted parameters, every component in its place. The Prony fit of samples of a sum of exponentials finds one term per exponential (decaying or alternating) and gives the samples back, also between and beyond them; asking for more terms than there are changes nothing; diverging terms are removed unless told otherwise. Unknown types and data of several components are refused. The friction is the Simpson integral of each component.",
     ["inputs", "configurations"], "all data, parameters, amplitudes, decays and evaluation times of the sizes in the bound, any outcome of the optimiser",
     [PK + "fit_memory.py", PK + "fit_prony.py"], [("memory_fit, memory_fit_eval, memory_fit_kernel, memory_kernel_eval, markovian_friction", PK + "fit_memory.py"), ("ldl_hankel, get_jacobi_matrix_reduced, clean_eigenvalues, prony_fit_kernel, prony_series_eval, prony_series_kernel_eval, prony_inspect_data", PK + "fit_prony.py")],
     "3 to 6 samples, one or two exponentials, up to 3 functions and 3 coordinates; the optimiser may return anything, eigenvalues and singular values by their contract; quality of the optimisation not covered")

prop("C23", "Calls leave their inputs alone and nothing leaks between calls",
     "No computation changes the data, basis, coefficients, kernel or correlation functions it is given (the Fokker-Planck projection adds its one variable), and no result depends on what was computed before with the same estimator, model, basis or integrator: the same call with the same arguments gives the same result whatever other calls came in between, in whatever order, on the same object or on another one. What the user does with a returned array changes nothing inside. A batch of points gives the values of the points taken one at a time.",
     ["inputs", "histories"], "all data, coefficients and points, over the listed sequences of calls",
     [PK + "gle_estimation.py", PK + "models.py", PK + "gle_integrate.py", PK + "basis"], [("Estimator_gle", PK + "gle_estimation.py"), ("models", PK + "models.py"), ("Integrator_gle", PK + "gle_integrate.py"), ("bases", PK + "basis/_local_features.py"), ("composite bases", PK + "basis/_multidim_basis.py")],
     "histories of up to 15 calls, 2 to 5 points, 3 or 4 lags, 3 kernel times, up to 6 functions; one basis object shared between estimators is fitted again by design")

prop("C26", "Projecting the basis on itself gives a conservative Fokker-Planck equation",
     "Turning an estimator into a generalised Fokker-Planck equation takes the basis itself (or that of the model given) as observable: the observable, its drift and all its correlations are the velocity contracted with the gradient of the basis, and the kernel is a matrix between basis functions. With a basis that sums to one, drift, kernel and time evolution conserve the total probability, whatever the data. The probability flux returned with the correlations is at every time the drift applied to the correlation plus minus the documented quadrature of the kernel against the correlation over the available memory, and its balance agrees with the time evolution.",
     ["inputs", "configurations"], "all trajectories, coefficients, kernels and correlations of the sizes in the bound",
     [PK + "models.py", PK + "gle_estimation.py"], [("to_gfpe", PK + "gle_estimation.py"), ("ModelBase.flux_from_volterra, evolve_volterra", PK + "models.py")],
     "bases of 2 or 3 functions, trajectories of 3 to 6 points, up to 9 steps and 8 kernel times (60 and 40 for the flux with one factor given)")

prop("C27", "Binned free energy and forces are those of all the data",
     "The free energy along one coordinate is computed from the histogram of the points of all trajectories together, the extreme ones included, on cells of equal width between the smallest and the greatest position, in the number given or that of the numpy rule named; the histogram sums to one. The free energy is minus the logarithm of the occupied cells' fractions, its minimum at zero, at their centres; acceleration and squared velocity are averages over the points of each cell, whatever trajectory they belong to. The forces are the slopes of the interpolating cubic splines: opposite to that of the free energy and proportional to the temperature, and that of the squared velocity times the fraction, divided by the fraction. The order of the trajectories does not matter.",
     ["inputs", "configurations"], "all positions, velocities and accelerations of the sizes in the bound",
     [PK + "__init__.py"], [("compute_1d_fe", PK + "__init__.py")],
     "histogram: 3 or 4 points, 2 or 3 cells, all positions symbolic; forces: 7 or 8 points in 4 to 6 cells, one position symbolic, all velocities and accelerations symbolic")

prop("C28", "Trajectories in chunks give the results of the same data in memory",
     "Trajectories held as chunked (dask) arrays, whatever the length of the chunks along time, give the same frames, velocities and accelerations, data description, Gram matrices, means, masses, mean force, correlations, kernel, Fokker-Planck observable, noise, memory, correlations with the noise and binned free energy as the same trajectories in memory, with the same axes and coordinates, for every kind of model and correlation method, serial or parallel.",
     ["inputs", "configurations"], "all trajectories, coefficients and kernels of the sizes in the bound",
     [PK + "__init__.py", PK + "gle_estimation.py", PK + "models.py"], [("xframe, compute_va, compute_a, concat_underdamped, compute_1d_fe", PK + "__init__.py"), ("describe_data, compute_mean_force, compute_corrs, compute_kernel, compute_projected_corrs, to_gfpe", PK + "gle_estimation.py"), ("compute_noise, compute_corrs_w_noise", PK + "models.py")],
     "one or two trajectories of 3 to 7 points in chunks of 2 to 4, 1 or 2 coordinates; dask itself is run, in the process, on the symbolic values")
