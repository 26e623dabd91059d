#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PK = "VolterraBasis/"
BAS = [PK + "basis/_basis_features.py", PK + "basis/_local_features.py", PK + "basis/_multidim_basis.py", PK + "basis/_data_describe.py"]
ONLYSHAPES = "The stable tests only look at array shapes of a few bases on one fixed data set; nothing compares values"
TECH = "symbolic execution of the current Python source and of gfortran's GIMPLE of fkernel.f90; each claim negated and decided by SMT (z3, QF_NRA); counterexamples replayed on the real package"

P = []


def prop(id, title, statement, over, text, files, mech, note, why=None, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, files=files, mech=mech, note=note, why=why, observe=observe, state=state))


prop("C01", "Trajectory frames and finite differences are exact",
     "A trajectory frame holds the given positions, velocities, accelerations, times and time step unchanged (or, on request, a regular time axis with the given or rounded step). Velocities and accelerations derived from it are the documented finite differences (blended forward/backward difference for the velocity, central second difference for the acceleration, central difference of the velocities) divided by the frame's time step, aligned with the interior times, in every coordinate. The input data are left as they were, and joining positions and velocities into one phase-space frame keeps their order.",
     ["inputs", "configurations"], "all positions, time steps, start times and blending parameters; every trajectory length and dimension up to the bound",
     [PK + "__init__.py"], [("xframe, compute_va, compute_va_gjf, compute_a, compute_a_from_vel, concat_underdamped", PK + "__init__.py")],
     "trajectories of 4 to 12 points, 1 to 3 dimensions")
prop("C02", "Periodic jumps are removed from derived velocities",
     "When jump correction is requested, a displacement whose size reaches the threshold is replaced by the displacement to the nearest periodic image, with the default angular period as well as with a given one, in each coordinate independently. A trajectory wrapped into a periodic box thus gives the same velocities and accelerations as the unwrapped one, while the positions are kept.",
     ["inputs", "configurations"], "all displacement patterns and crossings, all periods and thresholds",
     [PK + "__init__.py"], [("compute_va / compute_va_gjf with correct_jumps", PK + "__init__.py")],
     "3 to 5 points, 1 to 2 dimensions; every displacement below twice the period")
prop("C03", "Gradients and Hessians of a basis are its exact derivatives",
     "For every one-dimensional-per-coordinate basis family (linear, polynomial, Fourier, spline, spline function, smooth indicator), the gradient and the Hessian returned are the first and second partial derivatives of the basis functions returned at the same points, the constant function being dropped from derivatives when requested. The basis functions themselves are the documented ones (linear, optionally centred; the chosen polynomial family by degree; normalised sine/cosine pairs; splines summing to one).",
     ["inputs", "configurations"], "all evaluation points, centring data, frequencies, transition zones and spline coefficients, for each family, order and dimension within the bound",
     BAS, [("LinearFeatures, PolynomialFeatures, FourierFeatures, SplineFctFeatures", PK + "basis/_basis_features.py"), ("BSplineFeatures, SmoothIndicatorFeatures", PK + "basis/_local_features.py")],
     "1 or 2 evaluation points, 1 to 3 dimensions, degree up to 7, order up to 6, knots fixed for splines")
prop("C04", "Antiderivatives of a basis integrate it exactly",
     "For every basis family that offers an antiderivative, differentiating the returned functions gives back the basis functions at the same points, so that free energies integrated from a fitted force are consistent with that force.",
     ["inputs", "configurations"], "all evaluation points, centring data, frequencies and spline coefficients",
     BAS, [("antiderivative methods", PK + "basis/_basis_features.py"), ("antiderivative of BSplineFeatures", PK + "basis/_local_features.py")],
     "1 or 2 points, 1 to 2 dimensions, orders as for the gradients")
prop("C05", "Smooth indicators form a partition of unity with plateaus",
     "The smooth state indicators are between zero and one, sum to one at every point, equal one on their own plateau, and only neighbouring states share a transition zone, where they follow the boundary function asked for; with periodic states the first and the last plateau belong to the same state. The value at a point does not depend on the other points evaluated with it.",
     ["inputs", "configurations"], "all evaluation points and all ordered transition zones (in either bound order), every built-in boundary shape and a user supplied one",
     [PK + "basis/_local_features.py"], [("SmoothIndicatorFeatures, boundary functions", PK + "basis/_local_features.py")],
     "1 to 3 transition zones, 1 to 3 points")
prop("C06", "Combined and tensor-product bases agree with their members",
     "A combination of bases returns the members' functions, gradients and Hessians side by side in member order, with the same layout for each. A two-dimensional tensor product returns every product of one function of each factor, with gradient and Hessian given by the product rule, each factor being fitted on its own coordinate.",
     ["inputs", "configurations"], "all evaluation points and fitting data, for each pairing of member families tried",
     [PK + "basis/_basis_features.py", PK + "basis/_multidim_basis.py"], [("FeaturesCombiner", PK + "basis/_basis_features.py"), ("TensorialBasis2D", PK + "basis/_multidim_basis.py")],
     "1 or 2 points, 1 to 2 dimensions, 2 to 3 members")
prop("C07", "Correlation functions are the averages they claim to be",
     "At every lag the auto- or cross-correlation returned is the mean over all available pairs of the first signal times the second signal that many steps later, for every pair of components, whether computed by Fourier transform or directly. Asking for a number of lags keeps exactly the first ones, and the signals are left untouched.",
     ["inputs", "configurations"], "all signals, and each length, component count and truncation within the bound",
     [PK + "correlation.py", PK + "fkernel.f90"], [("correlation_ND, correlation_1D, correlation_direct_ND, correlation_direct_1D", PK + "correlation.py")],
     "signals of 2 to 17 points, up to 3 components; with one signal given, up to 90 points and 60 lags")
prop("C08", "Several trajectories are pooled by their lengths",
     "Everything estimated from several trajectories (data description with number of points, extrema, mean, variance, skewness and kurtosis; Gram matrices, basis means, time correlations) is the average over all their points, i.e. the length-weighted mean of the single-trajectory results, independent of the order of the trajectories and of the number of parallel jobs. The number of lags kept follows the truncation time, counted from the start of each trajectory, and is limited by the shortest trajectory.",
     ["inputs", "configurations", "schedules"], "all trajectories of the sizes in the bound, in any order, serial or parallel",
     [PK + "gle_estimation.py", PK + "basis/_data_describe.py"], [("Estimator_gle._loop_over_trajs, describe_data, set_traj", PK + "gle_estimation.py"), ("describe, sum_describe", PK + "basis/_data_describe.py")],
     "1 to 3 trajectories of 2 to 5 points")
prop("C09", "Mean force and masses are orthogonal projections of the data",
     "The estimated mean force is the least-squares projection of the observable on the force basis: the residual is orthogonal to every force basis function over the pooled data, and data generated by a force in the span of the basis give its coefficients back; a force set to zero has a zero for each force basis function. The effective mass is the inverse of the mean square velocity, the position-dependent inverse mass is the projection of the squared velocity, and the stored Gram matrices are those of the force and kernel bases.",
     ["inputs", "configurations"], "all trajectories (with regular Gram matrix) of the sizes in the bound, for each kind of model",
     [PK + "gle_estimation.py", PK + "models.py"], [("compute_mean_force, compute_effective_mass, compute_pos_effective_mass, compute_gram_force, compute_gram_kernel", PK + "gle_estimation.py")],
     "1 to 3 trajectories of 2 to 4 points, up to 3 basis functions, 1 or 2 dimensions (3 for the mass); regular Gram matrices")
prop("C10", "Each model's projection vectors match its dynamics",
     "For every kind of model, the force vector is the force basis at the trajectory points, the memory vector is the documented one (velocity times basis gradient, basis values, velocity, or velocity and basis values together), and the third vector is its total time derivative along the trajectory. The parts requested separately for force, kernel or potential are consistent with those vectors, have the advertised sizes, and an unknown request is refused.",
     ["inputs", "configurations"], "all positions, velocities and accelerations, for each model, basis family and dimension in the bound",
     [PK + "models.py"], [("basis_vector of Pos_gle, Pos_gle_with_friction, Pos_gle_no_vel_basis, Pos_gle_overdamped, Pos_gle_const_kernel, Pos_gle_hybrid", PK + "models.py")],
     "2 trajectory points, 1 to 3 dimensions, polynomial, linear and Fourier bases")
prop("C11", "Volterra correlation matrices are those of the model's vectors",
     "The correlation matrices computed for the Volterra equation are, at every kept lag, the averages of memory vector with memory vector, memory vector with the observable minus its mean force, and the derivative vector with each of these. They do not depend on the correlation method or on vectorisation, change neither data nor force, and are refused when the mean force or the observable is missing.",
     ["inputs", "configurations"], "all trajectories and force coefficients of the sizes in the bound, for every model and method",
     [PK + "gle_estimation.py", PK + "correlation.py", PK + "models.py"], [("compute_corrs", PK + "gle_estimation.py")],
     "one trajectory of 3 to 8 points, 2 to 7 lags, up to 3 basis functions, 1 or 2 coordinates")
prop("C12", "First-kind inversions solve their discretised Volterra equation",
     "For the rectangular, midpoint, Richardson-extrapolated midpoint, trapezoidal and Simpson first-kind methods, the returned kernel satisfies, at every step, the equation 'quadrature of basis correlation times kernel equals minus the correlation with the observable' for that quadrature rule and the given time step, for matrix-valued kernels (after the documented smoothing for the trapezoidal rule). The kernel comes with its times, initial value as given or derived from time zero, the method name, and leaves the correlations untouched; unknown methods and missing correlations are refused.",
     ["inputs", "configurations"], "all correlation functions and time steps (with regular leading matrices) of the sizes in the bound",
     [PK + "gle_estimation.py", PK + "fkernel.f90"], [("compute_kernel", PK + "gle_estimation.py"), ("kernel_first_kind_rect, _midpoint, _trapz, _simpson", PK + "fkernel.f90")],
     "2 to 12 lags, 1 to 3 basis functions, 1 to 3 coordinates; with the correlation of the basis given, up to 70 lags")
prop("C13", "Second-kind inversions solve their discretised Volterra equation",
     "For the rectangular, trapezoidal and Simpson second-kind methods, the returned kernel satisfies at every step 'basis correlation at time zero times kernel equals derivative correlation with the observable plus quadrature of the derivative correlation times kernel' for that rule and time step. Its initial value is the given one or solves that equation at time zero, the times and method are recorded, and the correlations are left untouched.",
     ["inputs", "configurations"], "all correlation functions and time steps (with regular leading matrices) of the sizes in the bound",
     [PK + "gle_estimation.py", PK + "fkernel.f90"], [("compute_kernel", PK + "gle_estimation.py"), ("kernel_second_kind_rect, _trapz, _simpson", PK + "fkernel.f90")],
     "2 to 8 lags, 1 to 3 basis functions, 1 to 3 coordinates; with the correlation of the basis given, up to 70 lags")
prop("C14", "Observable decomposes exactly into force, memory and noise",
     "Along any trajectory, the mean force, the memory term and the noise returned add up to the observable at every time; the force is the fitted expansion and the memory is minus the quadrature (rectangular or trapezoidal, following the kernel's method) of past memory vectors with the kernel. Requested kernel truncation and trajectory windows are respected, times count from the trajectory's start in units of the time step, and kernels obtained by a method without reconstruction are refused.",
     ["inputs", "configurations"], "all trajectories, force coefficients and kernels of the sizes in the bound, for every model",
     [PK + "models.py", PK + "fkernel.f90"], [("compute_noise", PK + "models.py"), ("memory_rect, memory_trapz", PK + "fkernel.f90")],
     "3 to 10 points, 1 to 5 kernel values, 1 or 2 coordinates; with the trajectory given, up to 90 points, 40 kernel values and 3 coordinates")
prop("C15", "Noise correlations use the orthogonally projected noise",
     "The correlation returned at each kernel lag is the average, over all start times, of the left observable at the start with the noise propagated by the projected dynamics (initial fluctuation plus the kernel quadrature over the elapsed lag only). This holds for the default left observable, a named one, a function, or an array, for rectangular and trapezoidal kernels, and several trajectories are averaged with their lengths.",
     ["inputs", "configurations"], "all trajectories, kernels, coefficients and left observables of the sizes in the bound",
     [PK + "models.py", PK + "gle_estimation.py", PK + "fkernel.f90"], [("compute_corrs_w_noise", PK + "models.py"), ("compute_projected_corrs", PK + "gle_estimation.py"), ("corrs_rect, corrs_trapz", PK + "fkernel.f90")],
     "3 to 8 points, 2 to 6 kernel values, 1 or 2 coordinates; with the trajectory given, up to 40 points, 20 kernel values and 3 coordinates")
prop("C16", "Time evolution solves the discretised integro-differential equation",
     "Evolving an initial matrix with a fitted force and kernel gives, at every step, the solution of the implicit discretised equation (rectangular or trapezoidal memory quadrature) for every kernel length, truncation and number of steps, starting at the given matrix. The stabilised variant returns non-negative matrices of unit sum, equal to the normalised positive part of the plain step; coefficients that are not square are refused.",
     ["inputs", "configurations"], "all initial matrices, force coefficients, kernels and time steps of the sizes in the bound",
     [PK + "models.py", PK + "fkernel.f90"], [("evolve_volterra", PK + "models.py"), ("solve_ide_rect, solve_ide_trapz, solve_ide_trapz_stab", PK + "fkernel.f90")],
     "2 to 5 kernel values, 3 to 8 steps, 1 or 2 basis functions; with the kernel given, up to 15 kernel values, 40 steps and 3 functions")
prop("C17", "Evaluating a fitted model returns its expansion",
     "Force, kernel, friction, inverse mass and constant kernel part evaluated at arbitrary points are the stored (or explicitly given) coefficients times the basis functions there; minus the gradient of the free energy is the force (times mass, in units of kT), and its zero is set at its minimum when requested. Asking a model for anything that has not been computed yet raises an error instead of returning numbers.",
     ["inputs", "configurations"], "all coefficients, evaluation points, masses and temperatures, for every model",
     [PK + "models.py"], [("force_eval, kernel_eval, pmf_eval, pmf_num_int_eval, inv_mass_eval, friction_force_eval, get_const_kernel_part", PK + "models.py")],
     "2 to 4 points, up to 3 basis functions, 1 or 2 dimensions")
prop("C24", "Kernel diagnostics recompute what they claim",
     "Checking a Volterra inversion recomputes minus the trapezoidal quadrature of basis correlation times kernel at every lag. The Laplace transform of a kernel is, at each requested frequency, the composite Simpson quadrature of kernel times exponential over the kernel's own times, with frequencies equally spaced over the requested or default range.",
     ["inputs", "configurations"], "all kernels, correlation functions, time steps and frequency ranges of the sizes in the bound",
     [PK + "gle_estimation.py", PK + "models.py"], [("check_volterra_inversion", PK + "gle_estimation.py"), ("laplace_transform_kernel", PK + "models.py")],
     "3 to 5 kernel values (up to 40 lags and 3 coordinates with the correlations given), up to 3 frequencies")

exec(open(os.path.join(HERE, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "props_more.py")) else None

NA = globals().get("NA", [])


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda q: q["id"]):
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                 "why_tests_cant": (p["why"] or ONLYSHAPES + "; the claim is about " + p["text"] + "."),
                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}}
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(d) + "\n")
    na = {n["property"] for n in NA}
    m = {"version": 1,
         "setup_cmd": "/opt/venv/bin/python tools/setup.py",
         "checks": [{"property": p["id"], "quick_cmd": "/opt/venv/bin/python run.py %s quick" % p["id"], "thorough_cmd": "/opt/venv/bin/python run.py %s thorough" % p["id"],
                     "evidence_file": "evidence/%s.json" % p["id"], "technique": TECH, "level": "model_checking",
                     "level_note": "Holds for every real value of all symbolic inputs within the sizes explored (" + p["note"] + "); floating point read as exact reals, numpy/scipy primitives by contract, outside the sizes nothing is claimed."}
                    for p in sorted(P, key=lambda q: q["id"]) if p["id"] not in na],
         "not_applicable": NA,
         "notes": "One engine (vsym/): the package's Python source is executed on symbolic reals with numpy/scipy replaced by exact stand-ins, fkernel.f90 through gfortran's GIMPLE; see DESIGN.md. run.py --replay FILE re-executes a counterexample on the real package."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
