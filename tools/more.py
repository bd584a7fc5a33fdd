def tnote(mod, driver, bound):
    return NOTE.format(spec=mod + ".tla", trace=mod + "Trace.tla", driver="harness/%s.py" % driver, bound=bound)


prop("P07", "The requested rank rule decides how many modes are kept",
     "For any matrix of snapshots and any rank request the number of modes kept is: the requested integer (of any integer type) capped by the matrix size; for a fraction, the least number of leading singular values reaching that share of the energy; for 0, the number of singular values above the optimal hard threshold (at least one); for -1, all of them. The truncated decomposition has orthonormal factors, the leading singular values and the best approximation of that rank, and every estimator that takes a rank obeys the same rule on the matrix it decomposes.",
     ["inputs", "configurations"], "all matrices (tall, wide, square, complex), all rank requests, all estimators taking a rank",
     "Tests try a few ranks on one tall matrix; boundaries of the energy rule, the threshold for wide matrices and integer types are not sampled.",
     ["pydmd/utils.py", "pydmd/edmd.py", "pydmd/dmdoperator.py"],
     M(rank="pydmd/utils.py:_compute_rank, _svht, compute_svd, compute_rank", edmd="pydmd/edmd.py:_compute_rank_from_svals"),
     ["compute_rank", "compute_svd", "len(eigs)"],
     note=tnote("Rank", "rank", "matrices up to 12 x 12 with prescribed integer singular values, exact rational rank rules, ties of the rules excluded"))
prop("P11", "Multi-resolution DMD splits the record in time and in slow/fast content",
     "At every level the tree's pieces tile the record exactly, in order and without overlap; a piece contains exactly the modes of its residual that make fewer than the allowed cycles in it; each level sees what the levels above left; summing all levels over all pieces gives the data back when every mode is slow somewhere. Partial modes, dynamics, eigenvalues, amplitudes and reconstructions of a level or node, and the bins, eigenvalues, frequencies and amplitudes of a time window, are those of exactly the nodes concerned. Too deep trees are reduced to what the record supports, refits and copies behave like new objects, and the result does not depend on how the sub-DMDs are specified (one instance, one per level, a function).",
     ["inputs", "configurations", "histories"], "all record lengths, depths, cycle limits, spectra, windows, ways to give the sub-DMDs",
     "Tests use one record length that is divisible by the number of pieces and check shapes.",
     ["pydmd/mrdmd.py"],
     M(fit="pydmd/mrdmd.py:fit", tree="pydmd/mrdmd.py:_build_tree, _dmd_builder", windows="pydmd/mrdmd.py:time_window_bins, partial_time_interval", partial="pydmd/mrdmd.py:partial_*"),
     ["reconstructed_data", "partial_*", "time_window_*", "max_level"],
     note=tnote("MrTree", "mrtree", "records of up to 40 snapshots, up to 4 levels, 9 groups of exact modes"))
prop("P12", "DMD with control identifies the plant and predicts its response",
     "When the snapshots obey x(k+lag) = A x(k) + B u(k) exactly and the experiment identifies A and B, DMD with control reports the eigenvalues of A, the true B (when it is not given; the given one otherwise), a reconstruction equal to the data under the training input, and for any other control input the plant's response to it from the same initial state. Refits, copies and the form in which data, inputs and B are passed do not matter; inputs of the wrong length are rejected and nothing changes.",
     ["inputs", "configurations", "histories"], "all plants, inputs, lags, option combinations and sequences of fits",
     "Tests use one random plant with lag 1 or 2 and reconstruct only the training input.",
     ["pydmd/dmdc.py"],
     M(known="pydmd/dmdc.py:DMDBKnownOperator", unknown="pydmd/dmdc.py:DMDBUnknownOperator", response="pydmd/dmdc.py:reconstructed_data"),
     ["eigs", "B", "reconstructed_data(control)"],
     note=tnote("Control", "control", "plants of 1-3 states, 1-2 inputs, lag 1-3, identifiability certified by rank modulo a prime"))
prop("P13", "Continuous-time fits recover the spectrum at any sampling instants",
     "When the samples are a sum of complex exponentials taken at any increasing instants (regular or not, starting anywhere) and the rank equals their number, BOPDMD and VarProDMD report exactly the continuous-time eigenvalues and mode-times-amplitude products, in the requested order, a reconstruction equal to the data and forecasts at arbitrary instants equal to the signal, with zero spread over bagging trials; results follow the active modes. Eigenvalue constraints (stable, imaginary, conjugate pairs) hold exactly for any data. A refit depends only on the new data, fitting from a precomputed SVD gives the same result, and the caller's arrays and initial guesses are left alone. (Convergence is required only from a supplied initial guess near the solution or for well separated spectra on regular samples.)",
     ["inputs", "configurations", "histories"], "all spectra, sampling instants, options, constraints, sequences of fits and mask changes",
     "Tests use one two-mode signal on a regular grid; irregular or shifted grids, bagging with masks, refits and constraint combinations are not sampled.",
     ["pydmd/bopdmd.py", "pydmd/varprodmd.py"],
     M(varpro="pydmd/bopdmd.py:_variable_projection", fit="pydmd/bopdmd.py:fit, fit_econ, forecast", constraints="pydmd/bopdmd.py:_push_eigenvalues", varprodmd="pydmd/varprodmd.py:compute_varprodmd_any, VarProDMD"),
     ["eigs", "modes*amplitudes", "reconstructed_data", "forecast", "*_std"],
     note=tnote("Cont", "cont", "1-5 exponentials, 9-14 instants, 1-2 fits per object; local convergence of the optimiser assumed only where stated"))
prop("P14", "Parametric DMD interpolates the dynamics between training parameters",
     "With exact linear training trajectories and sufficient ranks, the prediction at a training parameter is that trajectory, and at any other parameter the interpolator's combination of the training trajectories, at every instant of the current output window inside or beyond the training one, in the order in which the parameters were given. This holds for the monolithic and the partitioned scheme alike, for scalar and vector parameters; refits, copies and saved objects behave like new ones, and a rejected fit or parameter set leaves the object as it was.",
     ["inputs", "configurations", "histories"], "all training sets, parameters, windows, schemes and histories of fits and changes",
     "Tests check one smooth family with tolerance and mostly shapes; mixing up parameter, space and time blocks shows only for asymmetric sizes.",
     ["pydmd/paramdmd.py"],
     M(fit="pydmd/paramdmd.py:fit, _arrange_parametric_snapshots", predict="pydmd/paramdmd.py:reconstructed_data, forecasted_modal_coefficients, interpolated_modal_coefficients", time="pydmd/paramdmd.py:dmd_time"),
     ["reconstructed_data", "forecasted_modal_coefficients", "dmd_timesteps"],
     note=tnote("Param", "param", "2-4 training parameters, 4 sensors, histories of up to 5 operations"))
prop("P15", "Pre/post-processing wrappers are transparent",
     "For a 2-D matrix of snapshots, wrapping an estimator that fits the pre-processed data exactly - any nesting of zero-mean removal (any average), SVD projection, randomized projection, Hankel delays and user-defined stateful pre/post processing - leaves the observable answers those of the original signal: reconstructed_data equals the original snapshots at the requested instants (stacked with their delays under Hankel pre-processing), also beyond the training window and after changing dmd_time; switching modes off removes exactly their contribution and keeps the removed average; eigenvalues are those of the signal; attributes are forwarded to the inner estimator; fit returns the wrapper and forwards extra arguments; callable results (DMDc) are post-processed when called; refits, copies, pickles and saved objects answer like new ones; the input arrays are never modified.",
     ["inputs", "configurations", "histories"], "all stacks of wrappers, inner estimators, signals, windows and histories of fits, selections and copies",
     "Tests wrap one estimator once and mostly check that callbacks are called.",
     ["pydmd/preprocessing"],
     M(core="pydmd/preprocessing/pre_post_processing.py", zm="pydmd/preprocessing/zero_mean.py", svd="pydmd/preprocessing/svd_projection.py", rand="pydmd/preprocessing/randomized.py", hankel="pydmd/preprocessing/hankel.py"),
     ["reconstructed_data", "eigs", "fit", "dmd_time", "copy/pickle/save"],
     note=tnote("Prep", "prep", "stacks of up to 3 wrappers, integer signals of up to 4 modes, histories of up to 6 operations; DMDc wrapped: Control.tla through harness/controlw.py"))
prop("P16", "COSTS bands partition what its windows contain",
     "For any record, window length, step and sharpness: the windows start every step snapshots, cover the record and end at its last snapshot (one extra window when the step does not fit), each with its own times and mean; each window holds the continuous-time decomposition of its mean-free, edge-rounded data, fitted alone (with its own basis and rank, or with the global basis, rank and the first window's starting guess). Clustering gives every eigenvalue of every window the band of the nearest centroid in the requested transformation, bands ordered by centroid. Each band is, at each instant, the weighted average (weights largest mid-window) of what the band contains in the windows covering that instant, the window means going to the lowest band only and only if asked; the bands add up to the global reconstruction, low and high frequency parts to its split; periods are those of the non-lowest bands. Conversion to xarray and back gives an object with the same answers that can be clustered again; refits and re-clusterings replace everything; a sweep returns one of the offered numbers and changes nothing; the caller's data and options are untouched; impossible windows, times and transformations raise ValueError.",
     ["inputs", "configurations", "histories"], "all records, windows, steps, ranks, bases, transformations, numbers of bands, sequences of fit/cluster/store/load",
     "Tests use one record whose windows fit exactly, one clustering, and compare a relative error with a loose threshold.",
     ["pydmd/costs.py"],
     M(windows="pydmd/costs.py:fit, get_window_indices", bands="pydmd/costs.py:cluster_omega, transform_omega", reassembly="pydmd/costs.py:scale_reconstruction, global_reconstruction, scale_separation", store="pydmd/costs.py:to_xarray, from_xarray"),
     ["fit", "cluster_omega", "scale_reconstruction", "global_reconstruction", "scale_separation", "to_xarray", "from_xarray"],
     note=tnote("Costs", "costs", "records of up to 26 snapshots of 3-4 sensors, up to 9 windows, 2-3 bands; windows whose optimisation is chaotic (changes under a 1e-9 perturbation) are not compared; not claimed: user-given cluster centroids"))
prop("P17", "mrCOSTS levels form a chain that loses nothing",
     "For any record and list of window lengths, steps, ranks and bases: level 1 decomposes the record and each further level what the previous one left in its lowest band, as a COSTS fit of its own. After global clustering, every eigenvalue outside the lowest band of its level - of every level and window - belongs to the global band with the nearest centroid, the others to none; each global band of each level is the weighted average of its windows' contents; for each level the global bands add up to its non-lowest bands; the background is the lowest band of the last level, and the global reconstruction is background plus all bands. Saving to netcdf and loading - the files in any order, any options - gives an object with the same answers that can be clustered and fitted again; refits, re-clusterings and sweeps replace everything; a hyperparameter sweep picks the best score and becomes the default number of bands; the caller's arguments are untouched; premature accesses and contradictory or missing arguments raise ValueError. (Global clustering requires every coarser level to have non-lowest bands in at least two windows, with the centre of some first-level window between them.)",
     ["inputs", "configurations", "histories"], "all records, levels, windows, steps, ranks, bases, transformations, numbers of bands, sequences of fit/cluster/sweep/save/load",
     "Tests fit one record with two levels whose windows divide evenly and compare relative errors; eigenvalues dropped by the interpolation between levels, or attributed to a neighbouring window, pass.",
     ["pydmd/mrcosts.py", "pydmd/costs.py"],
     M(chain="pydmd/mrcosts.py:fit", bands="pydmd/mrcosts.py:global_cluster_omega, multi_res_interp, multi_res_deterp", reassembly="pydmd/mrcosts.py:global_scale_reconstruction, global_reconstruction, get_background", store="pydmd/mrcosts.py:to_netcdf, from_netcdf"),
     ["fit", "global_cluster_omega", "global_scale_reconstruction", "get_background", "global_reconstruction", "to_netcdf", "from_netcdf"],
     note=tnote("MrCosts", "mrcosts", "records of up to 32 snapshots of 4 sensors, 2-3 levels of up to 14 windows, 2-3 bands; same exclusions as P16"))
prop("P18", "Physics-informed DMD returns the best operator on the requested manifold",
     "For every manifold (unitary, triangular, banded in all its forms, symmetric, skew-symmetric, Toeplitz, Hankel, circulant and its unitary/symmetric/skew versions, symmetric tridiagonal, block circulant families) and every pair of snapshot matrices, real or complex, whose rows are linearly independent (for the triangular and banded manifolds: any), the operator computed with the full rank lies on the manifold and satisfies the first-order optimality conditions of least squares on it - so data produced by a member of the manifold give that member back; predict applies the same operator; the number of modes is the size of the operator; invalid manifolds and options raise ValueError; inputs are untouched and a refit answers like a new object. (symmetric_tridiagonal: real data only.)",
     ["inputs", "configurations", "histories"], "all manifolds, options, sizes, real and complex data, sequences of fits",
     "Tests use one real random data set per manifold and compare structure with a loose tolerance; wrong conjugations, off-by-one bands and non-optimal members pass.",
     ["pydmd/pidmd.py", "pydmd/pidmd_utils.py"],
     M(manifolds="pydmd/pidmd_utils.py", op="pydmd/pidmd.py:PiDMDOperator.compute_operator, _compute_procrustes"),
     ["A", "predict", "eigs"],
     note=tnote("Pi", "pi", "operators up to 6 x 6, Gaussian-integer snapshots, 19 manifolds; optimality of unitary members checked by necessary conditions of the polar factor"))
prop("P20", "LANDO learns the map behind the samples and splits it exactly",
     "With a linear, polynomial or custom polynomial kernel, samples y = F(x) of a polynomial map whose features span the kernel's feature space are learned exactly: f equals F at every point, whatever the order, permutation, rescaling, solver, shape of the snapshots, and whether the samples came in one fit, online, or by later updates; the dictionary is a subset of the samples, as large as the feature space. With the RBF kernel f interpolates the samples. The analysis about a base point is the exact split f(b + x) = bias + linear x + nonlinear(x) with linear the derivative of f at b, eigenvalues and modes those of it, ordered by modulus; an update redoes it for the new model. predict iterates the model, or integrates it, from the given state and returns exactly tend points. Results always belong to the last fit, update and analysis (a refit forgets the old analysis, a deep copy keeps its own), a single record means consecutive pairs, inputs are untouched, and unusable arguments or premature accesses raise ValueError.",
     ["inputs", "configurations", "histories"], "all sample sets spanning the feature space, kernels and parameters, rescalings, base points, histories of fit/update/analysis",
     "Tests use three fixed systems and compare norms with loose thresholds, never re-analyse, refit, or use multi-dimensional snapshots or the RBF analysis.",
     ["pydmd/lando.py"],
     M(model="pydmd/lando.py:fit, compute_operator, f", analysis="pydmd/lando.py:analyze_fixed_point, compute_linear_operator, bias, linear, nonlinear", online="pydmd/lando.py:update, _update_online", prediction="pydmd/lando.py:predict"),
     ["fit", "update", "analyze_fixed_point", "f", "bias", "linear", "nonlinear", "predict", "sparse_dictionary"],
     note=tnote("Lando", "lando", "up to 4 features, degree up to 3, samples with entries up to 3; ill-conditioned sample sets are skipped; not claimed: a zero first sample with a homogeneous kernel, complex data"))

prop("P21", "On inexact data the fit is the documented best approximation",
     "For arbitrary snapshots (not produced by a linear system), real or complex, tall or wide, given as one record or as two matrices: the operator is the least-squares map from X to Y restricted to the kept leading singular directions (after the total-least-squares projection if tlsq_rank asks for one; with ridge term tikhonov_regularization times the Frobenius norm of X if given), projected modes and eigenvalues rebuild exactly its projection on those directions (predict), exact modes are its eigenvectors, the eigenvalues sum to its trace, and rescale_mode and sorted_eigs change none of this; amplitudes leave a residual orthogonal to all modes - of the first snapshot, of snapshot opt, or of the whole record with opt=True; SpDMD amplitudes leave a residual orthogonal to the modes it keeps and are zero on the others, keep everything without penalty and nothing under a huge one; OptDMD predicts with the optimal operator of its rank (the least-squares operator projected on the leading left singular vectors of its fit), in both factorizations; the inputs are untouched. (opt=True with projected modes on a single record: see KNOWN_FINDINGS.)",
     ["inputs", "configurations"], "all snapshot matrices, ranks and option combinations of DMD, HankelDMD, RDMD, CDMD, SpDMD, OptDMD",
     "Tests use data that a low-rank model fits exactly or compare with stored results of the same code; a biased estimate that still fits clean data passes.",
     ["pydmd/dmdoperator.py", "pydmd/dmdbase.py", "pydmd/dmd.py", "pydmd/cdmd.py", "pydmd/rdmd.py", "pydmd/spdmd.py", "pydmd/optdmd.py", "pydmd/utils.py"],
     M(operator="pydmd/dmdoperator.py:_least_square_operator, _compute_modes", amplitudes="pydmd/dmdbase.py:_compute_amplitudes, _optimal_dmd_matrices", sparse="pydmd/spdmd.py:_optimal_amplitudes, _find_zero_amplitudes", tlsq="pydmd/utils.py:compute_tlsq"),
     ["predict", "modes", "eigs", "amplitudes"],
     note=tnote("BestFit", "bestfit", "X up to 8 x 8 with prescribed exact singular structure, arbitrary integer Y; ill-conditioned mode bases are skipped"))
prop("P19", "HAVOK builds a forced linear model of delay coordinates",
     "For any real record, HAVOK's delay embedding stacks the snapshots at the requested lag and its unravelling inverts it; the reported coordinates are the leading singular triplets of the embedding; the operator is the least squares regression of their second-order time differences on them, split into A, B, linear coordinates and forcing, with eigs those of A; predict is the response of dv/dt = A v + B u from the given initial state (or stored coordinate) at the first given time - whatever that time is - mapped back through the linear coordinates only, and is affine in state and forcing; reconstructions are that prediction from the stored forcing; the threshold is the mean of the two tail quantiles of the forcing histogram (float p), or an intersection of the histogram with the Gaussian (integer p); unusable arguments and access before fit raise ValueError; inputs stay untouched and a refit answers like a new object. Structured HAVOK: same, without the statement about the operator.",
     ["inputs", "configurations", "histories"], "all records, delays, lags, ranks, numbers of forcing terms, time grids, forcings, initial states",
     "Tests use one Lorenz record with lag 1 and a time axis starting at 0 and check shapes and rough error.",
     ["pydmd/havok.py"],
     M(embed="pydmd/havok.py:hankel, dehankel", fit="pydmd/havok.py:fit, _compute_operator", response="pydmd/havok.py:predict, _compute_embeddings, _embeddings_to_original", threshold="pydmd/havok.py:compute_threshold"),
     ["hankel", "dehankel", "operator", "A", "B", "predict", "reconstructed_data", "compute_threshold"],
     note=tnote("Havok", "havok", "records of up to 19 snapshots of 1-2 sensors, up to 4 delays, lag 1-3, rank up to 4; the response is checked on a short step against its Taylor expansion and globally by linearity"))
