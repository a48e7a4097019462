"""Writes properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

M = "src/models/"; S = "src/simulation/"; I = "src/identification/"

add("C01", "Vectorisation and real/complex embeddings are exact and reversible",
 "Stacking a matrix column by column and unstacking it returns the same matrix, and the stacking obeys vec(AXB) = (B^T kron A) vec(X). The real stacked form of a complex vector and the 2x2 block real form of a complex matrix (dense, CSR, CSC or COO, keeping the sparse format) preserve sums, products, matrix-vector products and conjugate transposes. The complex reconstructions (vectors, dense, CSR and CSC matrices) undo them exactly.",
 ["inputs"], "every shape including empty, single and rectangular ones, every numeric type, dense and sparse storage, and numpy matrix objects",
 "The tests use a handful of fixed small matrices; the algebraic laws must hold for every shape, storage and type combination because all estimators are written in that algebra.",
 [M+"matrix_operations.py"],
 [("column vectorisation", M+"matrix_operations.py:vectorize_matrix/unvectorize_matrix"), ("real/complex embedding", M+"matrix_operations.py:make_real_*/make_complex_*")],
 observe=["return values of the helpers"])

add("C02", "Symmetric and Laplacian parameter compressions are lossless",
 "For every matrix size, compressing a symmetric matrix to its column-ordered lower triangle and expanding it back returns the matrix, and a non symmetric one is replaced by its symmetric part; the Laplacian compression to one parameter per node pair (minus the off-diagonal entry) and its expansion are inverse and always rebuild a symmetric matrix with zero row sums. Re-inserting deleted rows or columns puts every remaining entry back at its original place with zeros at the deleted indexes, whatever order the indexes come in.",
 ["inputs"], "every matrix size n >= 1, every real or complex matrix and every deletion set on either axis",
 "Tests pin the matrices for n = 2..4; the estimators rely on them for any network size, and an index error can show only from some size on.",
 [M+"matrix_operations.py"],
 [("index formulas", M+"matrix_operations.py:duplication_matrix, transformation_matrix, elimination_sym_matrix, elimination_lap_matrix, undelete")],
 observe=["products of the generated matrices with vectorised data"])

add("C03", "Polar sensor noise is converted to its true Cartesian covariance",
 "For independent Gaussian noise added to magnitude and phase, the exact covariance equals the real second central moments of the noisy phasor, the linearised one equals the first order propagation, and the measurement-conditioned one equals the exact covariance averaged over the true phasors compatible with the noisy measurement. This holds for every magnitude, angle and pair of standard deviations.",
 ["inputs"], "all magnitudes (zero included), all angles in every quadrant, small to large standard deviations, scalar and per-column magnitudes",
 "Tests check a few angles with unit deviations against the same closed formula; they cannot show that the formula is the covariance of the noise for all angles and scales.",
 [M+"noise_transformation.py"],
 [("polar to Cartesian moments", M+"noise_transformation.py:exact_noise_covariance, naive_noise_covariance, average_true_*")],
 observe=["entries of the returned sparse covariance"])

add("C04", "Noise covariance matrices line up with the data and invert exactly",
 "The covariance of a T-by-n data set is a real symmetric positive semi-definite 2Tn square sparse matrix whose entry for sample t and channel i depends only on that measurement and that channel's magnitude deviation and the common phase deviation, and sits where column-stacked real-then-imaginary data has it. Per-channel magnitude deviations give exactly what treating each channel alone would give, any numeric scalar type is accepted, and asking for the inverted form returns the matrix inverse.",
 ["inputs"], "all T, n, scalar or per-channel deviations, python int/float and numpy scalars, all three covariance models, direct and inverted",
 "Tests use one or two measurements with zero entries; misaligned blocks or a wrong inverse only appear with several channels, samples and correlated real/imaginary parts.",
 [M+"noise_transformation.py"],
 [("block assembly and inversion", M+"noise_transformation.py: *_noise_covariance")],
 observe=["returned sparse matrices"])

add("C05", "Least squares estimate is the optimum for any data",
 "The ordinary least squares estimate minimises the squared residual over all complex matrices (the residual is orthogonal to every column of the regressors), is the smallest one when several exist, and recovers the exact parameters from noise-free data. It is equivariant to scaling, to a change of basis of inputs or outputs and to reordering of samples, and refitting the same object leaves no trace of earlier data.",
 ["inputs", "histories"], "all complex data sets, tall, square, wide or rank deficient, one or several outputs, any sequence of fits on one object",
 "Tests fit one exact 2-parameter example once; optimality is a statement about every other candidate and every data set.",
 [M+"regression.py", M+"abstract_models.py"], [("pseudo-inverse solution", M+"regression.py:ComplexRegression.fit")],
 state=[("fitted_admittance_matrix", "latest estimate", M+"abstract_models.py:GridIdentificationModel")], observe=["fitted admittance matrix"])

add("C06", "Total least squares estimate needs the smallest possible correction",
 "The total least squares estimate is exactly consistent with a corrected data set whose Frobenius distance to the measured one equals the smallest possible distance (the trailing singular values of the stacked data), for one or several outputs. It recovers the exact parameters from noise-free data, is equivariant to unitary changes of basis, common scaling and sample reordering, and keeps the shape of a single-output problem.",
 ["inputs", "histories"], "all complex data sets with at least as many samples as stacked columns, one or several outputs, any sequence of fits on one object",
 "The test recovers one exact noise-free matrix, for which any consistent estimator passes; the optimality under noise is not tested.",
 [M+"error_in_variable.py"], [("SVD solution", M+"error_in_variable.py:TotalLeastSquares.fit")], observe=["fitted admittance matrix"])

add("C07", "Bayesian priors encode exactly the declared beliefs",
 "After any sequence of declarations (exact value, sparsity, adaptive sparsity, weighted sum, ratio; Gaussian, absolute-value or counting order; scalar or per-belief weights) the quadratic form, linear term and penalty evaluated at a point equal the sum over the declared beliefs, each centred on its declared value with its declared weight and smoothed by the smoothness parameter. The dense and sparse versions agree, the order of declarations does not matter, and a prior copied from another one holds the same beliefs and can be extended without altering the source.",
 ["histories", "inputs"], "all sequences of declarations of any mix and length (none and one included), all dimensions, weights, orders and evaluation points",
 "The only tests build one five-belief history and evaluate it once (and disagree with the code); interactions between histories, storage and copying are not exercised.",
 [M+"bayesian_prior.py", M+"smooth_prior.py"],
 [("row accumulation", M+"bayesian_prior.py:BayesianPrior.add_*"), ("smoothed quadratic form", M+"smooth_prior.py:SmoothPrior.log_distribution, SparseSmoothPrior.log_distribution")],
 state=[("beliefs", "accumulated linear beliefs, centres, orders", M+"bayesian_prior.py")], observe=["log_distribution results"])

add("C08", "Regularised regression iterations solve the stated problem and stop rightly",
 "Every iterate of the regularised least squares fit solves the reweighted problem built from the data, the prior evaluated at the previous iterate and the regularisation weight, and the reported target equals squared misfit plus weighted penalty at that iterate. The smoothed objective never increases, iterations stop only at the iteration limit or once the target has settled within the absolute or relative tolerance, and the final estimate is the last iterate. Fitting again on the same object gives what a fresh object would give and leaves the iteration records handed out earlier as they were.",
 ["inputs", "histories"], "all data sets, priors, regularisation weights, tolerances, iteration limits, full, symmetric and Laplacian parametrisations, and any sequence of fits",
 "The only test of this estimator crashes; nothing observes its iterates, targets, stopping or reuse.",
 [M+"regression.py", M+"smooth_prior.py"], [("majorisation-minimisation loop", M+"regression.py:BayesianRegression.fit"), ("stationarity test", M+"regression.py:BayesianRegression._is_stationary_point")],
 state=[("iterations", "history of iterates and targets of the fit", M+"regression.py")], observe=["iterations", "fitted admittance matrix"])

add("C09", "Error-in-variables MAP iterations are alternating minimisation steps",
 "Each iteration first corrects the measured inputs optimally for the current parameters, given the input and output weights (identity if none are given), then updates the parameters optimally for the corrected inputs and the prior; the reported target equals weighted input misfit plus weighted output misfit plus weighted penalty. The smoothed objective never increases, stopping follows the tolerances and the iteration limit, the final estimate is the last iterate, noise-free data with a negligible prior keep the true parameters, and a second fit equals a fresh one and leaves earlier iteration records as they were.",
 ["inputs", "histories"], "all data sets, distinct input and output weight matrices (or none), priors, regularisation weights, iteration limits, full, symmetric and Laplacian parametrisations, and any sequence of fits",
 "Both tests of this estimator fail before reaching it because its signature changed; no test observes weighting, symmetry assumptions or the objective.",
 [M+"error_in_variable.py"], [("alternating minimisation", M+"error_in_variable.py:BayesianEIVRegression.fit")],
 state=[("iterations", "history of iterates and targets of the fit", M+"error_in_variable.py")], observe=["iterations", "fitted admittance matrix"])

add("C10", "Information matrix behaves like information and its bound is the inverse",
 "The information matrix of the admittance parameters is real, symmetric and positive semi-definite, adds up over independent samples, is inversely proportional to the noise covariances and never grows when noise is added on inputs or outputs. With exact inputs it is the classical information of weighted linear least squares, and circular input noise is never understated. The returned error covariance is its inverse, and the uncertainty study reports this information for the centred measurements with the covariances of their own sensors, saves and reloads exactly what it returned and is reproducible.",
 ["inputs", "histories"], "all data sets, parameter matrices and noise covariances with diagonal real/imaginary blocks; saved and reloaded studies",
 "There is no test of the uncertainty code at all, and the scaling laws quantify over all data and noise levels.",
 [M+"error_in_variable.py", I+"run.py"], [("weight propagation and assembly", M+"error_in_variable.py:TotalLeastSquares.fisher_info"), ("uncertainty study", I+"run.py:eiv_fim")], observe=["returned information and covariance matrices", "fim_results file"])

add("C11", "A network and its admittance matrix describe the same circuit",
 "The admittance matrix of any network equals, in bus order, the per-unit nodal matrix of its in-service lines: symmetric, with minus the line admittance between neighbours and zero row sums without shunts, whatever the bus numbering, line orientation, creation route or order. Building a network from such a matrix and recomputing it returns the matrix, removing buses or lines removes exactly their contribution, and the three-phase matrix is the phase image of the zero, positive and negative sequence line matrices.",
 ["inputs", "programs"], "all connected radial and meshed topologies, bus numberings, voltages, line lengths and impedances, line states, and sequences of additions and removals, in one and three phases",
 "Tests check one library network against wrong constants and one three-bus rebuild with consecutive numbering.",
 [S+"network.py", S+"network_3ph.py", S+"abstract_network.py", S+"lines.py", S+"net_templates.py", S+"net_templates_3ph.py"],
 [("line creation", S+"network.py:create_line, create_lines, create_lines_from_ybus"), ("three-phase lines", S+"network_3ph.py:create_lines, make_y_bus"), ("removal", S+"abstract_network.py:remove_*")],
 observe=["make_y_bus result"])

add("C12", "Reduced networks are electrically equivalent to the full ones",
 "Eliminating nodes from an admittance matrix gives the matrix that relates voltages and currents of the kept nodes, in order, whenever the eliminated nodes inject no current; eliminating in steps or at once is the same. The list of passive nodes per phase contains exactly the non-feeding buses without load, and the reduction of a simulated network returns a matrix that matches the remaining columns one to one and maps their centred voltages to their centred currents, with hidden loads represented by their mean current over mean voltage as incremental admittance, wherever the feeding bus sits in the bus order.",
 ["inputs", "configurations"], "all networks, sets of passive and hidden nodes, positions of the feeding bus, Laplacian or not, one and three phases, phase or sequence reduction",
 "No test touches the reduction; templates happen to list the feeding bus last, so samples cannot expose index shifts.",
 [S+"abstract_network.py", S+"run.py", S+"run3ph.py"],
 [("Kron reduction", S+"abstract_network.py:kron_reduction, give_passive_nodes"), ("network reduction", S+"run.py:reduce_network, "+S+"run3ph.py:reduce_network")], observe=["returned index list and matrix"])

add("C13", "Simulated measurements obey circuit laws at every time step",
 "For every time step and bus, the returned voltage and current phasors give the power requested for that bus at that step, currents equal the admittance matrix times voltages, the feeding bus holds its set voltage (exactly in one phase, behind its source impedance in three) and supplies all loads plus losses, and rows and columns follow the order of the requested steps and of the buses. The saved result tables agree with the returned phasors, and simulating leaves the network description unchanged so that simulating again gives the same result.",
 ["inputs", "histories"], "all networks of lines and loads connected to the feeding bus (constant power, or constant current and impedance parts; self-built or imported), load series (zero, negative, unbalanced), series lengths beyond one digit, bus numberings, one and three phases, repeated simulations",
 "The tests run one six-bus network and check shapes and a few means; they never relate power, voltage and current at the same step.",
 [S+"simulation.py", S+"simulation_3ph.py"],
 [("time-series run", S+"simulation.py:SimulatedNet.run"), ("phasor extraction", S+"simulation.py:get_current_and_voltage"), ("three phases", S+"simulation_3ph.py")], observe=["voltage and current matrices", "result tables"])

add("C14", "Phase and sequence coordinates are equivalent descriptions",
 "Converting measurements or admittance matrices from phase to sequence values and back returns the original for any number of nodes. Ohm's law holds in one description exactly when it holds in the other for symmetric line matrices, a balanced set appears only in the positive sequence and equal phasors only in the zero sequence, and balanced line matrices become diagonal per node pair with the sequence admittances as entries.",
 ["inputs"], "all node counts, all complex measurements, all symmetric and balanced admittance matrices",
 "No test covers the transforms.",
 [S+"lines.py"], [("Fortescue transforms", S+"lines.py:admittance_*, measurement_*")], observe=["transformed matrices"])

add("C15", "Injected sensor noise has the declared size, shape and independence",
 "Polar noise perturbs magnitudes and phases independently by zero-mean Gaussian errors with the declared absolute standard deviations, per channel when given per channel, so that its Cartesian covariance is the one the estimators are given; Cartesian noise has zero mean and a deviation of one third of the declared accuracy times each channel's mean absolute value. Channels and samples are independent, zero deviation returns the data unchanged, the input is never modified and the same seed gives the same noise.",
 ["inputs"], "all measurement sets (any ratio of signal to noise, dead channels included), angles, scalar (python or numpy, int or float) and per-channel deviations",
 "Tests compare two 2x2 samples with a 5% tolerance; distribution, scale per channel, angle dependence and independence are not observable in them.",
 [S+"noise.py"], [("noise models", S+"noise.py:add_*")], observe=["noisy measurement arrays"])

add("C16", "Resampling and filtering keep signals and scale noise as declared",
 "Each measurement channel is linearly interpolated to the sensor instants and averaged over consecutive blocks, so constant and linear signals are kept, blocks are in time order and channels do not mix; averaging k samples divides the noise variance by k, and the equivalent-noise shortcut gives the same noise level as sampling and averaging. The measurement stage returns noisy and noise-free data of equal shape, the true averaging factor and per-channel ratings that follow the column order of the data, with the feeding bus rated for all loads, and reloading it returns what was saved.",
 ["inputs", "configurations"], "all series, sampling grids, averaging factors, noise levels, network layouts (loads listed in any order, symmetric and per-phase loads), with and without equivalent noise, one and three phases, fresh or reloaded",
 "No test covers filtering or the measurement stage.",
 [S+"noise.py", S+"run.py", S+"run3ph.py"], [("block averaging", S+"noise.py:filter_and_resample_measurement"), ("measurement stage", S+"run.py:add_noise_and_filter, "+S+"run3ph.py:add_noise_and_filter")], observe=["returned arrays", "filtered_results file"])

add("C17", "Load series respect nominal powers, windows and seeds",
 "Each bus load is the sum of whole household profiles of the requested time windows, taken in order, with as many households as its nominal power holds at the mean 90th percentile, active and reactive power separately and phase by phase; the array and text file readers select the same windows. Random Gaussian loads have the nominal mean and the declared relative deviation around positive or negative nominal powers. The load stage blends nominal power into the selected nodes only, is reproducible, and reloading returns what was saved with one time stamp per row.",
 ["inputs", "configurations"], "all profile files, windows, nonnegative nominal powers (any sign for Gaussian loads), node sets, one and three phases, profile or Gaussian loads, fresh or reloaded",
 "One test draws Gaussian loads once; profile reading and the load stages are untested because the data files are not in the repository.",
 [S+"load_profile.py", S+"run.py", S+"run3ph.py"], [("household assignment", S+"load_profile.py:load_profile_from_numpy, load_profile_from_csv"), ("gaussian loads", S+"load_profile.py:generate_gaussian_load"), ("load stage", S+"run.py:generate_loads, "+S+"run3ph.py:generate_loads")], observe=["returned load arrays", "sim_loads file"])

add("C18", "Simulation runs are reproducible, restartable and self-consistent",
 "Running the simulation command twice gives identical results, and recomputing any later subset of its stages from the saved earlier ones gives what the full run gave. Its result file is consistent: voltages, currents, ratings and phase labels have one entry per kept node and phase in the same order, the admittance matrix maps the centred noise-free voltages to the centred noise-free currents when only load-free nodes are removed, and the averaging factor and noise level describe the data.",
 ["histories", "configurations"], "all sequences of stage flags, networks, load sources, Laplacian or not, one phase, three phases and sequence values, with and without equivalent noise, different seeds",
 "The command is only imported by the build; no test runs it, and the guarantee spans several processes and files.",
 ["simulate_network.py", S+"run.py", S+"run3ph.py", "conf/simulation.py"], [("stage control", "simulate_network.py:simulate"), ("stage files", S+"run.py, "+S+"run3ph.py")],
 state=[("data/simulations_output/*.npz", "stage and result files", "simulate_network.py")], observe=["npz files in the output folder"])

add("C19", "Identification runs recover the grid and restart from saved results",
 "From noise-free measurements of a simulated grid the identification command recovers its admittance matrix, and all estimates respect the symmetry or Laplacian structure they are asked for. Redoing only the standard or only the Bayesian part equals the corresponding part of a full run, continuing an identification starts from the saved estimate and appends to its history, and the requested phase or sequence is identified from its own data only with its own reference. Without synchronization, the Bayesian estimate depends only on the magnitudes and on the angle between voltage and current of each measurement. Every option combination the command accepts ends with complete, mutually consistent result files.",
 ["histories", "configurations"], "all networks, option combinations (weighted, Laplacian, exact values, unsynchronised, uncertainty, phases and sequences; three phases together only with the standard methods) and sequences of partial runs after a full one",
 "The command is only imported by the build; no test runs it.",
 ["identify_network.py", I+"run.py", I+"run3ph.py"], [("command flow", "identify_network.py:identify"), ("estimation stages", I+"run.py:standard_methods, bayesian_eiv")],
 state=[("standard_results, bayesian_results, reference_results, uncertainty_results", "saved estimates", I+"run.py")], observe=["npz result files"])

add("C20", "Error metrics are true distances",
 "The Frobenius and maximum errors are zero exactly for equal matrices, symmetric, scale with the data and satisfy the triangle inequality, the maximum being the largest entry error. The relative error is the Frobenius error over the norm of the reference in percent, the average relative one is the same restricted to non-zero reference entries, and the combined report holds exactly these four numbers, for vectors and matrices, real or complex, whatever the layout in memory.",
 ["inputs"], "all pairs of equally shaped real or complex vectors and matrices with zero and non-zero references",
 "Existing tests compare one pair per metric, and three of them disagree with the documented percentages.",
 [M+"error_metrics.py"], [("metrics", M+"error_metrics.py")], observe=["returned numbers"])

add("C21", "Reports show the saved results, not something else",
 "For any saved reference and estimates, the report command writes the four error metrics of each available estimate against the reference, converted to phase or sequence values alike when asked, plots for exactly these matrices with their data saved next to them, and the error and target history of the Bayesian iterations in order, with the errors on the parameters that the reference does not have for all estimates alike. It never alters the saved results, uses the data of the identified phase, and works with any subset of the optional result files.",
 ["inputs", "configurations"], "all result file contents and subsets, single phase, sequences and three phases, converted or not, any whole plot limits",
 "Plotting is only imported by the build; no test runs it.",
 ["plot_results.py", I+"utils.py"], [("report flow", "plot_results.py:plot_results"), ("plot helpers", I+"utils.py")], observe=["text reports, plot data files and figures in the data folder"])

add("C22", "GPU helper functions equal the CPU ones",
 "The accelerated versions of the vectorisation and real/complex conversion helpers return the same values, shapes and sparse formats as the processor versions for every input, so that results do not depend on the hardware in use.",
 ["inputs", "configurations"], "all matrix shapes, types and storage formats",
 "The accelerated module needs a GPU library and is never imported by build or tests here.",
 [M+"gpu_matrix_operations.py", M+"matrix_operations.py"], [("duplicate helpers", M+"gpu_matrix_operations.py")], observe=["return values of both modules"])

add("C23", "Default identification priors express the documented beliefs",
 "The priors used for identification give each off-diagonal parameter an absolute-value sparsity weight inversely proportional to the unregularised estimate, tie each row's off-diagonal sum (or the total) to the reference taken from the estimate with the declared relative weight for real and imaginary parts, and leave the diagonal free unless asked otherwise (priors of the error-in-variables estimate). Known line values are added centred on these values, and all priors have one real and one imaginary coordinate per free parameter in the order the estimators use.",
 ["inputs", "configurations"], "all network sizes, estimates, symmetric or Laplacian parametrisation and prior options",
 "No test builds these priors; index sets are computed for a general size.",
 [I+"run.py", I+"run3ph.py"], [("prior builders", I+"run.py:build_lasso_prior, build_complex_prior, add_known_lines, build_loads_id_prior")], observe=["quadratic form and penalty of the built prior"])

add("C24", "Simultaneous or rapid simulations keep their results apart",
 "Simulations that share an output folder, run one right after the other or at the same time in several processes, each report the result of their own loads, and the result folder each one reports keeps holding exactly its own tables afterwards.",
 ["schedules", "histories"], "all interleavings of two or more simulations of equal or different networks and lengths in one or several processes",
 "The tests give every simulation its own temporary folder and run them one at a time.",
 [S+"simulation.py", S+"simulation_3ph.py"], [("result folder naming", S+"simulation.py:SimulatedNet.run, "+S+"simulation_3ph.py:SimulatedNet3P.run")],
 state=[("result folder", "tables of one simulation", S+"simulation.py")], observe=["result_path and its tables", "returned phasors"])

add("C25", "Library calls leave their inputs alone and do not depend on history",
 "No estimator, covariance, prior, noise, filter, transform, reduction, metric or network-building call modifies the arrays, lists, priors or templates it is given, and calling it again with the same arguments (and seed) gives the same result whatever was called in between.",
 ["histories", "inputs"], "all public calls, in any order and repetition, on shared data",
 "Each test uses fresh data and calls a function once.",
 [M+"matrix_operations.py", M+"noise_transformation.py", M+"regression.py", M+"error_in_variable.py", M+"smooth_prior.py", M+"error_metrics.py", S+"noise.py", S+"lines.py", S+"network.py", S+"run.py", I+"run.py"],
 [("copies at entry", I+"run.py:standard_methods, bayesian_eiv"), ("deep copies of the network", S+"simulation.py:SimulatedNet.run")], observe=["arguments before and after calls", "repeated results"])

add("C26", "Sequences are identified independently and assembled in place",
 "Identifying the zero, positive and negative sequences together gives, for each sequence, exactly the estimates of identifying it alone, placed at the rows and columns of its own channels with zeros between sequences, whatever the order of the channels and with the known lines of each sequence used for that sequence only. The combined iteration history has the joint estimate at each common iteration and the sum of the targets, and asking only to reload returns the saved joint result.",
 ["inputs", "configurations"], "all channel orders, node counts, Laplacian or not, weighted or not, iteration limits and reloads",
 "No test touches the three-phase identification.",
 [I+"run3ph.py", I+"run.py"], [("per-sequence loop", I+"run3ph.py:standard_methods, bayesian_eiv")], observe=["returned estimates and iterations", "saved files"])

add("C27", "Accelerated estimators give the processor's results",
 "With an accelerator available, least squares, total least squares, regularised and error-in-variables fits return, up to single precision, the same estimates, iterates, targets and number of iterations as on the processor, and the same information matrix and error bound. Results come back as ordinary arrays, on repeated fits as well.",
 ["inputs", "configurations", "histories"], "all data, priors, weights, parametrisations, iteration limits and tolerances, one or several fits",
 "No test can take the accelerated branches without the hardware.",
 [M+"regression.py", M+"error_in_variable.py", M+"gpu_matrix_operations.py"], [("accelerated branches", M+"regression.py:BayesianRegression.fit, "+M+"error_in_variable.py:BayesianEIVRegression.fit, TotalLeastSquares.fisher_info")], observe=["estimates, iterations and information matrices of both variants"])

add("C28", "Batch studies run every declared setting and restore the configuration",
 "A noise study or a sample size study runs, for every declared seed and every declared noise level or number of days, simulation, identification and report in this order with exactly these values in effect and no other setting changed. Afterwards the configuration files are as before, also when a command fails, and unknown flags are refused without running anything. The documented command lines are accepted by the commands.",
 ["configurations", "fault_sequences"], "all lists of seeds, noise levels and days, flags in any combination, failures of any of the commands",
 "The script is never run by a test, and settings are substituted in files by text patterns whose matches depend on the values.",
 ["run_multiple_sims.sh", "simulate_network.py", "identify_network.py", "plot_results.py"], [("substitution and restoration of settings", "run_multiple_sims.sh")], observe=["configuration seen by each command", "command lines", "configuration files afterwards"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
