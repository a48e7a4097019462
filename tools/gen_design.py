"""Writes vf/meta.json and DESIGN.md (texts here; findings from KNOWN_FINDINGS.txt, planted bugs from seeded/ and
tools/detection.json)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {}


def prop(i, technique, oracle, workload, nontrivial, reach, bounds, assume=()):
    P[i] = dict(technique="runtime monitoring: " + technique, oracle=oracle, workload=workload, reach=reach, bounds=bounds,
                rule="Seeded random cases of each monitor: %s. A case is non-trivial when %s; distinct by its printed key." % (
                    workload, nontrivial),
                level_note=oracle[:1].upper() + oracle[1:] + ". Bounds: " + bounds, assumptions=list(assume))


prop("C01", "algebraic-law monitors on the real helpers",
     "entry-by-entry reference of the stacking and of the 2x2 block form; the algebra (sums, products, conjugate transpose, Kronecker law) evaluated on both sides",
     "matrices of every shape including empty and single ones, all numeric types, dense in four memory layouts, numpy matrix, CSR, CSC and COO; entries up to 280 decades apart in one matrix",
     "the data have a non-zero entry", "tests fix a few small matrices; storage and type combinations decide which branch runs",
     "up to 8x8, larger ones in the real-size monitors", ["numpy and scipy arithmetic are correct"])
prop("C02", "reference-model monitors on the generated matrices",
     "direct loops over the lower triangle and node pairs; round trips in both directions; deletion compared with re-insertion",
     "every size 1..12 then sizes up to 47, Laplacian and arbitrary symmetric data, deletion sets of every size in any order and as array, list or floats",
     "there is at least one parameter (or deleted line)", "index formulas may fail from some size on, integer types may overflow",
     "n <= 47 (the matrices grow as n^4)")
prop("C03", "quadrature and sampling oracles against the real covariances",
     "Gauss-Hermite integration of the declared noise distribution (second central moments; for the conditioned form their average over the compatible true phasors) and first-order propagation; a sampled comparison as a cross-check of the quadrature",
     "magnitudes and deviations over many decades (down to currents of 1e-9 with deviations of 1e-13), all angles and quadrants, scalar and per-channel deviations",
     "the covariance is above rounding", "tests compare two points; the formulas are trigonometric series where a wrong term hides at special angles",
     "phase deviation up to 1 rad, quadrature of 40+ nodes; relative tolerance 1e-9, sampling at 6 sigma")
prop("C04", "structural monitors on the sparse covariances",
     "each entry recomputed for its own sample and channel alone and placed at its column-stacked position; symmetry, eigenvalues, product with the inverted form",
     "T x n data with mixed magnitudes, exact zeros and measurements on the axes, one sample or channel, large T, scalar or vector deviations of every numeric type",
     "there is more than one entry", "an index slip stays invisible on square or constant data", "T*n <= 70000, condition <= 1e8 for inverses")
prop("C05", "optimality-condition monitors on real fits",
     "normal equations, null-space component, random candidate matrices, exact recovery, equivariance laws, comparison with a fresh object after arbitrary histories",
     "tall, square, wide, rank-deficient and graded problems (condition up to 2e9), rare excitations down to 1e-11 of the rest, complex and real, vectors and matrices, data changed in place between fits",
     "the problem is conditioned well enough to judge", "optimality is a statement over all candidates; state can leak only on a second fit",
     "n <= 9, T <= 90 n, condition <= 2e9")
prop("C06", "optimality monitors with Eckart-Young bound",
     "consistency with the projected data set and its distance, equal to the trailing singular values; recovery, unitary equivariance, exchange of inputs and outputs, fresh-object comparison",
     "noise levels 1e-4..2, parameters over ten decades, one or several outputs (also more or fewer outputs than inputs), real and complex, histories with data changed in place",
     "the spectral gap and the solution block allow a unique estimate", "the smallest correction is a minimum over all corrections",
     "n, m <= 7, T <= 300, gap > 1e-4")
prop("C07", "shadow-state monitor over declaration histories",
     "the monitor keeps the declared beliefs itself and sums their quadratic forms, linear terms and penalties one by one; dense/sparse twins, reordered and copied priors, energy derivative",
     "random sequences of up to 12 declarations of six kinds, orders 0/1/2, scalar, list, integer or array weights, units of weights and values from 1e-7 to 1e5 (mixed in one prior), copies extended on either side",
     "at least one belief is declared", "tests evaluate single declarations; interactions, copies and types are histories",
     "n <= 12 parameters; comparisons allow the rounding of the sums they check")
prop("C08", "trace monitor over every iteration of real fits",
     "the reweighted normal equations are rebuilt from data, prior and previous iterate and each recorded iterate must satisfy them; target identity, monotone majorised objective, stopping rule, last iterate, fresh-object comparison",
     "three parametrisations, random priors of all orders, tolerances over 7 decades, limits 0..60, refits on shared objects and arrays, dead instruments and exact fixed points from the start",
     "iterations ran", "the guarantees are about each step of a history of unknown length", "n <= 4 nodes, T <= 30",
     ["the smoothed objective is the one whose majorisation the reweighting is (derived in vf/props/c08.py: energy)"])
prop("C09", "trace monitor over every iteration of real fits",
     "both sub-problems (input correction, parameter step) are solved densely from their definition and compared with each recorded iterate; target identity, monotonicity, stopping, fixed point at the truth, identity-weight equivalence",
     "weights absent, scalar, diagonal, block, polar and full; three parametrisations; all priors; refits on shared objects and arrays; dead instruments",
     "iterations ran", "an exchanged transpose or weight stays plausible on symmetric or unweighted data", "n <= 4 nodes, T <= 22")
prop("C10", "law monitors on the information matrix and the uncertainty study",
     "symmetry, eigenvalues, additivity over samples, inverse scaling, Loewner monotonicity, product with the returned covariance; saved study compared with the information of the centred campaign, reloaded and repeated",
     "random data sets, covariances of every kind, split and joined samples, Laplacian and symmetric parametrisations",
     "the matrix is invertible", "laws quantify over pairs of data sets", "n <= 4, T <= 20")
prop("C11", "reference-model monitor (nodal analysis from the line list)",
     "per-unit nodal matrix assembled from first principles; round trip through creation from a matrix; contribution of removed elements; three-phase image of the sequence matrices",
     "random trees and meshes, parallel and broken lines, any bus numbering, orientation and creation route, line types with inductive and resistive parts, impedances over eight decades, tiny and mixed admittances compared entry by entry, power flows run between removals, voltage dependent loads, all documented templates",
     "there is a line", "tests use one numbering; the bus order, status and type tables decide the index maps", "up to 60 buses (56 and 123 for the templates)")
prop("C12", "reference-model monitor (Schur complement, superposition of loads)",
     "dense elimination, step-wise elimination, forward check on simulated measurements: kept voltages must map to kept currents; passive list recomputed from the load tables per phase",
     "eliminated sets of any size, several adjacent hidden nodes, feeding bus anywhere, one and three phases, hidden loads (tiny ones included), admittances of very different size",
     "a node is eliminated", "the equivalence must hold for every node set and bus order", "up to 80 nodes for the elimination, 10 buses for networks, 5 in three phases")
prop("C13", "first-principles monitor of every simulated time step",
     "complex power balance per bus and step, Ohm's law with the independently assembled matrix, slack voltage, total balance with losses, tables against phasors, description before and after",
     "random feeders with positive and negative loads, reordered buses, repeated runs, one and three phases, the stage functions, voltage dependent loads, imported networks with several loads per bus, a transformer, a turned feeding bus and another power base, a whole day of more than 1000 steps; networks with a phase-shifting transformer are recorded as a known finding",
     "loads differ between buses and steps", "the laws are quantified over time steps and networks", "up to 20 buses with 12 steps, or 1100 steps on a small feeder",
     ["pandapower's Newton iteration converges to 1e-6 for the generated loads"])
prop("C14", "metamorphic monitors", "explicit Fortescue matrices per node, round trips, Ohm's law in both descriptions, balanced sets and balanced lines",
     "1..8 nodes, symmetric, balanced, arbitrary matrices, units from 1e-14 to 1e9, dense layouts", "more than one node or a non-zero value",
     "exchanged sequences are invisible on balanced single-node data", "8 nodes")
prop("C15", "statistical monitors at 6+ sigma with exact zero-noise and seed monitors",
     "moments, correlations between channels, samples, parts and quantities, Cartesian covariance against the quadrature oracle, equality for equal seeds",
     "scalar and per-channel deviations, all angles, many channels or many samples, signals below the noise, dead channels, phase noise beyond a turn", "the deviation is positive",
     "tests look at one mean; independence and covariance need many pairs", "up to 60000 draws per case; false alarm probability below 1e-8 per run",
     ["numpy's generator is a good source"])
prop("C16", "reference-model and statistical monitors",
     "linear interpolation and block means recomputed by loops; noise variance of averages; equivalent noise against sampled averages; stage results against their inputs; reload equality",
     "constant, linear and arbitrary signals, block sizes that do and do not divide, both stages, equivalent noise on and off, instruments without noise, 75 measurements per average",
     "there is more than one block", "block order and channel mixing only show with distinct data", "up to 2000 instants")
prop("C17", "reference-model monitors on profile files written by the monitor",
     "household windows selected by loops, percentile household counts, per-phase sums, blending of nominal power, Gaussian moments at 6 sigma, reload equality, repeat equality",
     "array and text profiles, several windows of different lengths, any number of days (also parts of days), loads numbered independently of buses, households that inject or are capacitive, zero and negative nominal powers, selected nodes, one and three phases",
     "there is a non-zero load", "windows, phases and seeds are combinations no test enumerates", "up to 8 loads, windows of a few days")
prop("C18", "whole-program monitors: the command runs in forked processes on generated template networks",
     "file of the full run against circuit laws, repeat runs, every later subset of stages, changed intermediate files, hidden nodes, one/three phases/sequences",
     "random feeders and option sets, the stage files of one run used by the next, stage files written by the monitor", "the run produced a result file",
     "restart behaviour is about histories of program runs", "up to 6 buses, tens of time steps")
prop("C19", "whole-program monitors on simulated and synthetic measurement files",
     "result files re-derived from documented parts, partial runs against full ones, continuation histories, selection of phases, noise level used for weights, turned and unsynchronized measurements, recovery of the grid from noise-free data",
     "all option combinations, one/three phases, sequences, orders of channels", "estimates were produced",
     "options interact; restart is a history", "up to 5 nodes, 40 samples",
     ["-p 123 with the Bayesian part is documented as not implemented and must say so"])
prop("C20", "reference-model and metric-law monitors", "exact sums in plain Python; metric axioms", "vectors and matrices, five numeric types, units over 24 decades, zeros in the reference, four layouts",
     "the reference is not zero", "metric laws quantify over triples", "up to 8x8")
prop("C21", "whole-program monitors on made-up result files", "the texts, plotted arrays and plot data files are compared with the metrics and matrices the monitor computes; result files are compared before and after",
     "all subsets of result files, one/three phases/sequences with and without conversion, histories", "a report was written",
     "tests do not run the command", "up to 4 nodes; the sparsity reports are compared between the estimates and with the true errors up to one common factor, their relative errors are not judged", ["the colour table of webcolors is provided by the monitor (the installed version lacks it)"])
prop("C22", "differential monitor", "results of the processor helpers", "vectors and matrices of every shape, type and storage through a numpy-backed stand-in of the GPU library",
     "data are not all zero", "no GPU here; the tests of these helpers cannot run", "the stand-in implements the calls the helpers make", ["the stand-in behaves as cupy does for the calls used"])
prop("C23", "shadow-belief monitor", "the documented beliefs are listed by the monitor, evaluated one by one and compared with the prior's quadratic form, linear term and penalty",
     "random estimates, Laplacian and symmetric, all prior options, known lines of three kinds", "at least two nodes",
     "the prior is only seen through estimates in the tests", "up to 6 nodes")
prop("C24", "multi-process and multi-thread monitors with injected delays", "each run's tables against the power flow of its own loads; contents of every reported folder re-read at the end",
     "bursts in one process, processes released by a barrier, threads, frozen clocks, delays around folder creation and between creation and reading",
     "runs overlapped or followed within one second", "collisions depend on the schedule", "up to 12 simultaneous processes and 9 threads",
     ["simultaneous runs use a local file system with atomic mkdir"])
prop("C25", "purity and history monitors", "results of the same call in a fresh process (before and after in-place changes of the data); structural comparison of all inputs after every call",
     "random sessions over the library's calls sharing data, objects, networks and templates", "always",
     "history dependence needs histories", "sessions of up to 40 calls")
prop("C26", "differential monitor of joint and separate identification", "assembly of the three separate runs, iteration by iteration; reordered channels; reload",
     "block, interleaved and random channel orders, known lines of some sequences, unequal sequence sizes and signal levels, uneven histories, weighted and unweighted",
     "estimates are finite", "positions mix only for particular orders", "2..4 nodes per sequence")
prop("C27", "differential monitor between two processes, one with the accelerated branches switched on",
     "the processor results of the same call, iterate by iterate, with a tolerance measured by nudging the data by single precision; results must be ordinary arrays",
     "regularised and error-in-variables fits with three parametrisations, all priors, weights of every kind, refits and tolerances; least squares and information matrices",
     "both variants ran", "the accelerated branches cannot run without the hardware; a processor-backed stand-in (vf/fakegpu) plays the library",
     "n <= 5, T <= 24, moderate conditioning (single precision)",
     ["the stand-in has the arithmetic of numpy and scipy and only models that device arrays must be brought back by get(); it does not refuse every mixture of host and device arrays the library refuses"])
prop("C28", "trace monitor over the commands a batch run starts",
     "stand-ins for the interpreter record each command line and the configuration files it would see; the recorded trace must be the full grid of declared settings, three stages each, with nothing else changed, and the files must end as they began",
     "both studies alone and together, own lists of seeds, levels and days, failing commands, unknown flags, and every command line of the documentation",
     "at least one command ran", "text substitutions match or miss depending on the values in the lists",
     "up to 4 seeds x 4 values of the listed kinds")


def main():
    meta = {i: {k: p[k] for k in ("technique", "level_note", "rule", "assumptions")} for i, p in P.items()}
    json.dump(meta, open(os.path.join(V, "vf", "meta.json"), "w"), indent=1)
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    out = [open(os.path.join(V, "tools", "design_head.md")).read().rstrip(), "", "## Properties and how each is decided", ""]
    cost = {}
    f = os.path.join(V, "tools", "cost.json")
    if os.path.isfile(f):
        cost = json.load(open(f))
    for p in props:
        q = P[p["id"]]
        out += ["### %s %s" % (p["id"], p["title"]), "", "* Specified: %s" % p["statement"], "* Deciding method: %s." % q["technique"],
                "* Oracle: %s." % q["oracle"], "* Workload: %s." % q["workload"], "* Bounds: %s." % q["bounds"],
                "* Why tests cannot settle it: %s." % q["reach"]]
        if q["assumptions"]:
            out.append("* Assumes: %s." % "; ".join(q["assumptions"]))
        if p["id"] in cost:
            out.append("* Cost (quick, 8 cores): %s." % cost[p["id"]])
        out.append("")
    out.append(open(os.path.join(V, "tools", "design_tail.md")).read().rstrip())
    out += ["", "## Findings", "", "Repaired in /repo (each `fix:` commit; taking any of them back is reported by the property's check):", ""]
    for l in open(os.path.join(V, "KNOWN_FINDINGS.txt")):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
        if m:
            out.append("* %s `%s` %s" % m.groups())
    out += ["", "Recorded, not repaired:", ""]
    for l in open(os.path.join(V, "KNOWN_FINDINGS.txt")):
        m = re.match(r"KNOWN-FINDING: property=(\S+) id=(\S+) (.*)", l)
        if m:
            out.append("* %s (%s) %s" % m.groups())
    out += ["", "## Planted bugs", "", "One line per folder of seeded/: what the change needs to show, and the monitors of the property's own check that report it.",
            "", "| id | needs | reported by |", "|---|---|---|"]
    det = {}
    f = os.path.join(V, "tools", "detection.json")
    if os.path.isfile(f):
        det = json.load(open(f))
    for b in sorted(os.listdir(os.path.join(V, "seeded"))):
        m = json.load(open(os.path.join(V, "seeded", b, "meta.json")))
        out.append("| %s | %s | %s |" % (b, m["needs"].replace("|", "/"), det.get(b, "not tried")))
    open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")


main()
