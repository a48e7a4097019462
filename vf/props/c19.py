"""C19: the identification command, its stages and its files, on simulated and on synthetic measurement files."""
import numpy as np
from conf import identification, simulation
from src.identification import run
from src.models.error_in_variable import TotalLeastSquares, BayesianEIVRegression
from src.models.matrix_operations import duplication_matrix, elimination_sym_matrix, elimination_lap_matrix, \
    transformation_matrix
from src.models.noise_transformation import average_true_noise_covariance
from vf.core import monitor, dense
from vf import gen, cli
from vf.props import c18
from vf.props.c26 import Options

REGISTRY = []
KINDS = {"reference": "ypl", "standard": "otl", "bayesian": "yi"}


def read(name, kind):
    with np.load(cli.result(kind + "_results_" + name + ".npz"), allow_pickle=True) as z:
        return {k: z[k] for k in z.files}


def have(name, kind):
    return cli.result(kind + "_results_" + name + ".npz").is_file()


def wipe(name):
    for fn in cli.result("").glob("*" + name + "*.npz"):
        fn.unlink()


def same_hist(case, a, b, what, rtol=1e-5):
    """Equal histories; a converged fit may take a step more or less."""
    a, b = list(a), list(b)
    n = min(len(a), len(b))
    if len(a) != len(b):
        long = a if len(a) > len(b) else b
        t0 = long[n - 1].target_function if n else np.inf
        case.check(all(abs(x.target_function - t0) <= 1e-6 * abs(t0) for x in long[n:]), what + ": length", len(a), len(b))
    for x, y in zip(a, b):
        case.close(x.fitted_parameters, y.fitted_parameters, what, rtol)
        case.check(abs(x.target_function - y.target_function) <= max(rtol, 1e-12) * abs(y.target_function), what + ": targets",
                   x.target_function, y.target_function)


def same_results(case, a, b, what, rtol=0.):
    """rtol: allowed difference of values that are computed again (the order of operations is not specified)."""
    for k in b:
        case.check(k in a, what + ": entry " + k)
        if k == "i":
            same_hist(case, a[k], b[k], what + ": history", rtol)
        elif rtol and a[k].dtype.kind in "fc":
            case.close(a[k], b[k], what + ": entry " + k, rtol)
        else:
            case.same(a[k], b[k], what + ": entry " + k)


def tls(x, z):
    """Total least squares by the singular value decomposition."""
    n = x.shape[1]
    v = np.linalg.svd(np.hstack((x, z)))[2].conj().T
    return -v[:n, n:] @ np.linalg.inv(v[n:, n:])


def centre(v, i, lap):
    return (v - v.mean(), i) if lap else (v - v.mean(axis=0), i - i.mean(axis=0))


class Grid:
    """A measurement file made from a matrix, without a power flow."""

    def __init__(self, case, kind=None, n=None, t=None, lap=None):
        rng = self.rng = case.rng
        self.case = case
        self.kind = kind or gen.pick(rng, "one", "one", "phases", "sequences")
        self.lap = bool(rng.rand() < .35) if lap is None else lap
        self.name = "c19x%s%d" % (case.mon.name.replace("_", ""), case.index)
        n = n or rng.randint(2, 5)
        if self.kind == "one":
            self.h = np.ones(n, dtype=int)
        else:
            labels = (1, 2, 3) if self.kind == "phases" else (0, 1, 2)
            if rng.rand() < .5:
                self.h = np.tile(labels, n)
            else:
                counts = rng.randint(2, n + 2, size=3)
                self.h = rng.permutation(np.repeat(labels, counts))
        m = len(self.h)
        self.t = t or 2 * m + rng.randint(6, 30)
        self.y = np.zeros((m, m), dtype=complex)
        if self.kind == "phases" and rng.rand() < .5:
            self.y = self.matrix(m)
        else:
            for s in set(self.h):
                k = np.where(self.h == s)[0]
                self.y[np.ix_(k, k)] = self.matrix(len(k))
        amp, e = .05, float(gen.pick(rng, 1e-3, 5e-3))
        ang = np.zeros(m)
        if self.kind == "phases":
            ang = np.array([0., -2., 2.])[self.h - 1] * np.pi / 3
        self.w = (1 + amp * gen.cplx(rng, (self.t, m), "gauss")) * np.exp(1j * ang)
        self.j = self.w @ self.y.T
        self.v = self.w + e * amp * gen.cplx(rng, (self.t, m), "gauss")
        self.i = self.j + e * amp * gen.cplx(rng, (self.t, m), "gauss")
        self.p = rng.uniform(.5, 2., m)
        self.f = int(gen.pick(rng, 1, 4, 25, 3000, 100000))
        sd = [e * amp * rng.uniform(.5, 1.5) * np.sqrt(self.f) for _ in range(4)]
        self.set = dict(simulation__voltage_magnitude_sd=sd[0], simulation__current_magnitude_sd=sd[1],
                        simulation__voltage_phase_sd=sd[2], simulation__current_phase_sd=sd[3],
                        identification__lambda_lasso=float(10. ** rng.uniform(-10, -6)),
                        identification__lambda_eiv=float(10. ** rng.uniform(-9, -5)),
                        identification__lambdaprime=float(gen.pick(rng, 200., 20., 1.)),
                        identification__abs_tol=float(10. ** rng.uniform(-13, -9)),
                        identification__rel_tol=float(gen.pick(rng, 1e-16, 1e-9)),
                        identification__use_tls_diag=bool(rng.rand() < .3),
                        identification__contrast_each_row=bool(rng.rand() < .8))

    def matrix(self, n):
        y = gen.laplacian(self.rng, n, .6)
        return y if self.lap else y + np.diag(self.rng.rand(n) + .3)

    def save(self, keep=None, name=None, label=None):
        k = slice(None) if keep is None else keep
        y = self.y if keep is None else self.y[np.ix_(keep, keep)]
        h = self.h[k] if label is None else np.full(len(keep), label)
        cli.result("").mkdir(parents=True, exist_ok=True)
        np.savez(cli.result((name or self.name) + ".npz"), i=self.i[:, k], v=self.v[:, k], j=self.j[:, k], w=self.w[:, k],
                 y=y, p=self.p[k], f=self.f, h=h)

    def run(self, args, name=None, ok=True, limit=200, **kw):
        s = dict(self.set)
        s.update(kw)
        a = ["-n", name or self.name] + list(args)
        code, out = cli.call("identify_network.py", a, limit, **s)
        if ok:
            self.case.check(code == 0, "the command ends normally with %s" % (a[2:],), code, out[-900:])
        self.case.event("command runs")
        return code, out

    def load(self, name=None, kinds=KINDS):
        out = {}
        for k in kinds:
            self.case.check(have(name or self.name, k), "result file of kind " + k)
            out[k] = read(name or self.name, k)
            for e in KINDS.get(k, ""):
                self.case.check(e in out[k], "entry %s of the %s results" % (e, k))
        return out

    def groups(self, phases):
        """Channels of each separately identified part."""
        if phases == "012":
            return [np.where(self.h == s)[0] for s in range(3)]
        if phases == "123":
            return [np.arange(len(self.h))]
        return [np.where(self.h == int(phases))[0]]

    def choice(self):
        if self.kind == "one":
            return "1", []
        if self.kind == "phases":
            return str(gen.pick(self.rng, 1, 2, 3)), []
        return str(gen.pick(self.rng, "012", "012", "012", 0, 1, 2)), ["-q"]


def select(p):
    return ([] if p == "1" else ["-p", p])


def sym(y):
    return np.max(np.abs(y - y.T))


def structure(case, g, y, lap, what):
    s = np.max(np.abs(y))
    case.check(sym(y) <= 1e-7 * s, what + ": symmetric", sym(y), s)
    if lap:
        r = np.max(np.abs(y.sum(axis=1)))
        case.check(r <= 1e-6 * s, what + ": Laplacian", r, s)


def judge(case, g, phases, flags, its):
    """Files of a full run against independent estimates and the library's estimators."""
    lap, weighted, unsync = "-l" in flags, "-w" in flags, "-r" in flags
    r = g.load()
    gr = g.groups(phases)
    kept = np.sort(np.concatenate(gr))
    case.same(r["reference"]["y"], g.y[np.ix_(kept, kept)], "reference of the identified channels")
    case.check(str(r["reference"]["p"]) == phases and bool(r["reference"]["l"]) == lap, "reference labels",
               r["reference"]["p"], r["reference"]["l"])
    m = len(kept)
    pos = {c: i for i, c in enumerate(kept)}
    for e in "otl":
        case.check(r["standard"][e].shape == (m, m), "shape of the estimates", e, r["standard"][e].shape)
    case.check(r["bayesian"]["y"].shape == (m, m), "shape of the estimates", r["bayesian"]["y"].shape)
    hist = list(r["bayesian"]["i"])
    case.check(1 <= len(hist) <= its, "number of iterations", len(hist), its)
    if len(gr) == 1:
        case.same(hist[-1].fitted_parameters, r["bayesian"]["y"], "the estimate is the last iterate")
    for part in gr:
        k = np.ix_([pos[c] for c in part], [pos[c] for c in part])
        v, i = centre(g.v[:, part], g.i[:, part], lap)
        case.close(r["standard"]["o"][k], np.linalg.lstsq(v, i, rcond=None)[0], "least squares estimate", 1e-6)
        want = tls(v, i)
        case.close(r["standard"]["t"][k], want, "total least squares estimate", 1e-5)
        structure(case, g, r["standard"]["l"][k], lap, "lasso")
        structure(case, g, r["bayesian"]["y"][k], lap, "Bayesian estimate")
        case.check(np.all(np.isfinite(r["standard"]["l"])) and np.all(np.isfinite(r["bayesian"]["y"])), "finite estimates")
        if not unsync:
            n = len(part)
            with Options(**{a.split("__")[1]: b for a, b in g.set.items() if a.startswith("identification")}):
                prior = run.build_complex_prior(n, identification.lambdaprime, (want + want.T) / 2, lap,
                                                identification.use_tls_diag, identification.contrast_each_row,
                                                identification.regularize_diag)
                if "-e" in flags and not lap:
                    prior = run.add_known_lines(n, prior, identification.lambdaprime, g.y[np.ix_(part, part)])
                dt, e = duplication_matrix, elimination_sym_matrix
                if lap:
                    dt = lambda q: duplication_matrix(q) @ transformation_matrix(q)
                    e = lambda q: elimination_lap_matrix(q) @ elimination_sym_matrix(q)
                model = BayesianEIVRegression(prior, lambda_value=identification.lambda_eiv, abs_tol=identification.abs_tol,
                                              rel_tol=identification.rel_tol, max_iterations=its, verbose=False,
                                              dt_matrix_builder=dt, e_matrix_builder=e)
                wv = wi = None
                if weighted:
                    q = np.sqrt(g.f)
                    wv = average_true_noise_covariance(g.v[:, part], g.set["simulation__voltage_magnitude_sd"] / q,
                                                       g.set["simulation__voltage_phase_sd"] / q, True)
                    wi = average_true_noise_covariance(g.i[:, part], g.set["simulation__current_magnitude_sd"] / q * g.p[part],
                                                       g.set["simulation__current_phase_sd"] / q, True)
                model.fit(v, i, wv, wi, (want + want.T) / 2)
            first = model.iterations[0]
            case.close(hist[0].fitted_parameters[k], first.fitted_parameters, "first Bayesian iterate of the saved data",
                       5e-3 if "-e" in flags else 1e-4)
            case.event("first iterates compared")
            if len(model.iterations) == len(hist) and len(hist) <= 3:
                case.close(r["bayesian"]["y"][k], model.fitted_admittance_matrix, "Bayesian estimate of the saved data",
                           2e-2 if "-e" in flags else 1e-3)
                case.event("estimates compared")
    if len(gr) > 1:
        lab = g.h[kept]
        off = lab[:, None] != lab[None, :]
        for y in (r["standard"]["o"], r["standard"]["t"], r["standard"]["l"], r["bayesian"]["y"]):
            case.check(not np.any(y[off]), "zeros between sequences")
    case.event("result sets judged")
    return r


@monitor(REGISTRY, quick=80, thorough=1200, limit=300)
def options(case):
    """Every option combination ends with complete and consistent files."""
    rng = case.rng
    g = Grid(case)
    phases, flags = g.choice()
    its = int(gen.pick(rng, 1, 2, 3, 6))
    flags = flags + select(phases) + ["-i", its]
    if g.lap:
        flags.append("-l")
    for f, p in (("-w", .5), ("-u", .35), ("-r", .15), ("-v", .2)):
        if rng.rand() < p:
            flags.append(f)
    case.cover("%s %s %s T=%d m=%d f=%d" % (g.kind, phases, " ".join(map(str, flags)), g.t, len(g.h), g.f))
    g.save()
    code, out = g.run(flags)
    r = judge(case, g, phases, flags, its)
    # the measurement file is left alone
    with np.load(cli.result(g.name + ".npz")) as z:
        case.same(z["v"], g.v, "measurement file")
        case.same(z["h"], g.h, "measurement file")
    single = phases != "012"
    if "-u" in flags and single and "-r" not in flags:
        case.check(have(g.name, "uncertainty"), "uncertainty results")
        u = read(g.name, "uncertainty")
        k = g.groups(phases)[0]
        q = np.sqrt(g.f)
        est = TotalLeastSquares()
        for e, v, i, y in (("e", g.w, g.j, g.y[np.ix_(k, k)]), ("b", g.v, g.i, r["bayesian"]["y"])):
            sv = average_true_noise_covariance(v[:, k], g.set["simulation__voltage_magnitude_sd"] / q,
                                               g.set["simulation__voltage_phase_sd"] / q, False)
            si = average_true_noise_covariance(i[:, k], g.set["simulation__current_magnitude_sd"] / q * g.p[k],
                                               g.set["simulation__current_phase_sd"] / q, False)
            vv, ii = centre(v[:, k], i[:, k], g.lap)
            fim, cov = est.fisher_info(vv, ii, sv, si, y)
            case.close(u[e], dense(cov), "error covariance (%s)" % e, 1e-5)
            case.event("covariances compared")
    else:
        case.check(not have(g.name, "uncertainty"), "no uncertainty results unless asked for")
    wipe(g.name)


@monitor(REGISTRY, quick=30, thorough=500, limit=300)
def partial_runs(case):
    """Redoing one part, in any order, equals that part of the full run and leaves the other part alone."""
    rng = case.rng
    g = Grid(case)
    phases, flags = g.choice()
    flags = flags + select(phases) + ["-i", int(gen.pick(rng, 1, 3, 5))] + (["-l"] if g.lap else [])
    if rng.rand() < .4:
        flags.append("-w")
    g.save()
    g.run(flags)
    full = g.load()
    hist = []
    for _ in range(rng.randint(2, 5)):
        part = gen.pick(rng, ["-s"], ["-b"], ["-s", "-b"], [])
        spoil = rng.rand() < .3
        if spoil and part == ["-b"]:
            # only the part that is redone changes
            y = full["bayesian"]["y"]
            np.savez(cli.result("bayesian_results_" + g.name + ".npz"), y=0 * y, i=full["bayesian"]["i"][:1])
        elif spoil and part == ["-s"]:
            np.savez(cli.result("standard_results_" + g.name + ".npz"), **{k: 0 * v for k, v in full["standard"].items()})
        hist.append("".join(part) or "all")
        left = g.load()
        case.cover("%s %s %s then %s" % (g.kind, phases, " ".join(map(str, flags)), " ".join(hist)))
        g.run(flags + part)
        got = g.load()
        for k in KINDS:
            same_results(case, got[k], full[k], "%s results after %s" % (k, hist), 1e-5)
        if part == ["-s"]:
            same_results(case, got["bayesian"], left["bayesian"], "the other part")
        if part == ["-b"]:
            same_results(case, got["standard"], left["standard"], "the other part")
        case.event("partial runs")
    # a part uses the saved other part
    if rng.rand() < .5:
        std = dict(full["standard"])
        y = std["t"] * 1.05
        std["t"] = y
        np.savez(cli.result("standard_results_" + g.name + ".npz"), **std)
        g.run(flags + ["-b"])
        got = g.load()
        same_results(case, got["standard"], std, "loaded standard results")
        case.check(not np.array_equal(got["bayesian"]["y"], full["bayesian"]["y"]), "the Bayesian part starts from the loaded one")
    wipe(g.name)


@monitor(REGISTRY, quick=30, thorough=500, limit=300)
def continuation(case):
    """Continuing starts from the saved estimate and appends to the history."""
    rng = case.rng
    g = Grid(case)
    phases, flags = g.choice()
    flags = flags + select(phases) + (["-l"] if g.lap else []) + (["-w"] if rng.rand() < .4 else [])
    g.save()
    g.run(flags + ["-i", int(rng.randint(1, 4) if rng.rand() < .6 else rng.randint(8, 20))])
    start = g.load()
    other = g.name + "ref"
    past = list(start["bayesian"]["i"])
    for step in range(rng.randint(1, 4)):
        prev = g.load()
        its = int(rng.randint(1, 4))
        part = gen.pick(rng, [], [], ["-b"], ["-b"], ["-s"], ["-s", "-b"])
        case.cover("%s %s %s step %d its %d %s" % (g.kind, phases, " ".join(map(str, flags)), step, its, " ".join(part)))
        g.run(flags + ["-c", "-i", its] + part)
        got = g.load()
        same_results(case, got["reference"], start["reference"], "reference")
        if part == ["-s"]:
            same_results(case, got["bayesian"], prev["bayesian"], "Bayesian results when only the standard part is redone")
            continue
        # the same from a standard result that is the saved estimate
        g.save(name=other)
        np.savez(cli.result("standard_results_" + other + ".npz"), **dict(start["standard"], t=prev["bayesian"]["y"]))
        g.run(flags + ["-b", "-i", its], name=other)
        ref = g.load(other)
        new = list(ref["bayesian"]["i"])
        case.close(got["bayesian"]["y"], ref["bayesian"]["y"], "continued from the saved estimate", 1e-4)
        h = list(got["bayesian"]["i"])
        case.check(len(h) > len(past), "history length", len(h), len(past), len(new))
        same_hist(case, h[:len(past)], past, "earlier history", 0.)
        same_hist(case, h[len(past):], new, "appended iterates", 1e-4)
        past = h
        case.event("continued runs")
    wipe(g.name)


@monitor(REGISTRY, quick=40, thorough=600, limit=300)
def selection(case):
    """The requested phase or sequence is identified from its own data only, with its own reference."""
    rng = case.rng
    g = Grid(case, gen.pick(rng, "phases", "sequences"))
    labels = sorted(set(g.h))
    s = gen.pick(rng, *labels)
    q = ["-q"] if g.kind == "sequences" else []
    flags = ["-i", int(gen.pick(rng, 1, 3))] + (["-l"] if g.lap else []) + (["-w"] if rng.rand() < .4 else [])
    if rng.rand() < .2:
        flags += ["-u"]
    case.cover("%s %d of %s %s" % (g.kind, s, g.h, " ".join(map(str, flags))))
    g.save()
    g.run(q + flags + ["-p", s])
    got = g.load()
    k = np.where(g.h == s)[0]
    alone = g.name + "alone"
    g.save(keep=k, name=alone, label=1)
    g.run(flags, name=alone)
    want = g.load(alone)
    case.same(got["reference"]["y"], g.y[np.ix_(k, k)], "own reference")
    case.check(str(got["reference"]["p"]) == str(s), "label of the reference", got["reference"]["p"], s)
    same_results(case, got["standard"], want["standard"], "standard estimates of its own data", 1e-6)
    same_results(case, got["bayesian"], want["bayesian"], "Bayesian estimates of its own data", 1e-5)
    if "-u" in flags:
        for e in "eb":
            case.close(read(g.name, "uncertainty")[e], read(alone, "uncertainty")[e], "covariance of its own data", 1e-5)
    wipe(g.name)


@monitor(REGISTRY, quick=20, thorough=200, limit=300)
def refused(case):
    """Requests for data that are not there are refused and leave the saved results alone."""
    rng = case.rng
    g = Grid(case)
    flags = ["-i", 1] + (["-l"] if g.lap else [])
    phases, q = g.choice()
    g.save()
    g.run(q + flags + select(phases))
    before = g.load()
    kind = gen.pick(rng, "absent", "absent", "two", "mixed", "nofile")
    name = g.name
    if kind == "absent":
        if g.kind == "one":
            a, b = gen.pick(rng, (["-p", 2], 0), (["-p", 3], 0), (["-q", "-p", 0], 0), (["-q", "-p", 2], 0))
        elif g.kind == "phases":
            a = ["-q", "-p", 0]
        else:
            a = ["-p", 3]
    elif kind == "two":
        a = gen.pick(rng, ["-p", "12"], ["-p", "23"], ["-q", "-p", "01"], ["-p", "4"], ["-p", "21"])
    elif kind == "mixed":
        a = gen.pick(rng, ["-p", "012"], ["-q", "-p", "123"], ["-p", "0"], ["-q", "-p", "3"])
    else:
        a, name = ["-p", "1"], g.name + "nothere"
    case.cover("%s %s %s" % (g.kind, kind, " ".join(map(str, a))))
    code, out = g.run(a + flags, name=name, ok=False)
    case.check(code != 0, "refused: %s on %s data" % (" ".join(map(str, a)), g.kind), code)
    after = g.load()
    for k in KINDS:
        same_results(case, after[k], before[k], "saved results after a refused request")
    case.check(not have(g.name + "nothere", "standard"), "no results without data")
    wipe(g.name)


@monitor(REGISTRY, quick=20, thorough=150, limit=300)
def averaging(case):
    """The noise level of the saved averages is the one configured divided by the root of the averaging factor."""
    rng = case.rng
    g = Grid(case)
    phases, flags = g.choice()
    flags = flags + select(phases) + ["-w", "-i", 2] + (["-l"] if g.lap else [])
    if len(phases) == 1 and rng.rand() < .4:
        flags.append("-u")
    elif rng.rand() < .4:
        flags.append("-r")
    case.cover("n=%d f=%d %s" % (len(g.h), g.f, flags))
    g.save()
    g.run(flags)
    one = g.load()
    u1 = read(g.name, "uncertainty") if "-u" in flags else {}
    g.f *= 4
    g.save()
    g.run(flags, **{k: 2 * v for k, v in g.set.items() if k.endswith("_sd")})
    two = g.load()
    u2 = read(g.name, "uncertainty") if "-u" in flags else {}
    same_results(case, two["bayesian"], one["bayesian"], "four times the averaging, twice the deviations", 1e-5)
    for e in u1:
        case.close(u2[e], u1[e], "covariance under the same noise", 1e-5)
    wipe(g.name)


@monitor(REGISTRY, quick=30, thorough=500, limit=300)
def unsynchronized(case):
    """Without synchronization, the angles between different instruments carry no information."""
    rng = case.rng
    g = Grid(case)
    phases = "1" if g.kind == "one" else str(gen.pick(rng, *sorted(set(g.h))))
    part = g.groups(phases)[0]
    n, its, weighted = len(part), int(rng.randint(1, 5)), bool(rng.rand() < .6)
    v, i = g.v[:, part], g.i[:, part]
    case.cover("n=%d %s its=%d %s %s" % (n, g.kind, its, weighted, g.lap))
    y0 = tls(*centre(v, i, g.lap))
    y0 = (y0 + y0.T) / 2
    if g.lap:
        y0 = y0 - np.diag(np.diag(y0))
        y0 = y0 - np.diag(y0.sum(axis=1))
    sd = [g.set["simulation__" + q] for q in ("voltage_magnitude_sd", "voltage_phase_sd", "current_magnitude_sd", "current_phase_sd")]

    def fit(v, i, sync, weighted=weighted):
        cli.result("").mkdir(parents=True, exist_ok=True)
        with Options(**{a.split("__")[1]: b for a, b in g.set.items() if a.startswith("identification")}):
            y, h = run.bayesian_eiv(g.name, v.copy(), i.copy(), None, sd[0] + 1j * sd[1], sd[2] + 1j * sd[3], g.p[part], y0.copy(),
                                    None, g.lap, weighted, its, sync, False)
        case.event("fits")
        return y, list(h)

    ya, ha = fit(v, i, False)
    case.check(np.all(np.isfinite(ya)) and len(ha) >= 1, "finite estimate and history", len(ha))
    wide = rng.rand() < .7
    if wide:
        u = np.exp(1j * rng.uniform(-np.pi, np.pi, v.shape))  # every reading has its own clock
    else:
        u = np.exp(1j * rng.uniform(-np.pi, np.pi, n))[None, :] * np.ones(v.shape)  # one clock per instrument
    yb, hb = fit(v * u, i * u, False)
    same_hist(case, hb[:1], ha[:1], "first iterate of readings with other clocks", 1e-4)
    sane = np.max(np.abs(ya)) < 100 * np.max(np.abs(g.y))  # diverging fits amplify rounding
    if sane:
        case.close(yb, ya, "estimate of readings with other clocks", 2e-3)
    # readings that happen to be in phase: nothing is lost without weights
    r = np.abs(v)
    w = i * np.exp(-1j * np.angle(v))
    yc, hc = fit(r + 0j, w, False, False)
    yd, hd = fit(r + 0j, w, True, False)
    same_hist(case, hc[:1], hd[:1], "first iterate of readings in phase", 1e-4)
    if sane and np.max(np.abs(yd)) < 100 * np.max(np.abs(g.y)):
        case.close(yc, yd, "estimate of readings in phase", 2e-3)
    case.event("clock changes compared")
    wipe(g.name)


@monitor(REGISTRY, quick=2, thorough=12, limit=400)
def exact_values(case):
    """Known lines pull the estimate to their values."""
    rng = case.rng
    n = 29 + rng.randint(2)
    g = Grid(case, "one", n=n, t=2 * n + 8, lap=False)
    from vf.props.c23 import library_like
    g.y = -library_like(rng, n)
    g.y = g.y - np.diag(np.diag(g.y))
    g.y = -np.abs(g.y.real) + 1j * np.abs(g.y.imag)
    np.fill_diagonal(g.y, 0)
    np.fill_diagonal(g.y, -g.y.sum(axis=1) * 1.02)
    g.w = 1 + .05 * gen.cplx(rng, g.w.shape, "gauss")
    g.j = g.w @ g.y.T
    g.v = g.w + 1e-3 * .05 * gen.cplx(rng, g.w.shape, "gauss")
    g.i = g.j + 1e-3 * .05 * gen.cplx(rng, g.w.shape, "gauss")
    case.cover("n=%d" % n)
    g.save()
    g.set.update(identification__lambda_eiv=.1, identification__lambdaprime=200., identification__contrast_each_row=True)
    g.run(["-i", 2])
    plain = g.load()
    g.run(["-b", "-e", "-i", 2])
    known = judge(case, g, "1", ["-e"], 2)
    if case.index % 2 == 0:
        # the beliefs also hold for the iterations of a continued run
        g.run(["-b", "-e", "-c", "-i", 1])
        more = g.load()
        y0 = known["bayesian"]["y"]
        with Options(**{a.split("__")[1]: b for a, b in g.set.items() if a.startswith("identification")}):
            prior = run.build_complex_prior(n, identification.lambdaprime, y0, False, identification.use_tls_diag,
                                            identification.contrast_each_row, identification.regularize_diag)
            prior = run.add_known_lines(n, prior, identification.lambdaprime, g.y)
            model = BayesianEIVRegression(prior, lambda_value=identification.lambda_eiv, abs_tol=identification.abs_tol,
                                          rel_tol=identification.rel_tol, max_iterations=1, verbose=False,
                                          dt_matrix_builder=duplication_matrix, e_matrix_builder=elimination_sym_matrix)
            v, i = centre(g.v, g.i, False)
            model.fit(v, i, None, None, y0)
        case.check(len(more["bayesian"]["i"]) == len(known["bayesian"]["i"]) + 1, "history of the continued run",
                   len(more["bayesian"]["i"]))
        case.close(more["bayesian"]["y"], model.fitted_admittance_matrix, "continued with the exact values", 5e-3)
        case.event("continued with exact values")
    structure(case, g, known["bayesian"]["y"], False, "with exact values")
    rows = [0, 25, 26]
    off = ~np.eye(n, dtype=bool)
    m = np.zeros((n, n), dtype=bool)
    m[rows, :] = m[:, rows] = True
    m &= off
    e1 = np.linalg.norm((plain["bayesian"]["y"] - g.y)[m])
    e2 = np.linalg.norm((known["bayesian"]["y"] - g.y)[m])
    case.check(e2 < .8 * e1, "known lines are estimated better", e2, e1)
    case.event("known line runs")
    case.cover("improvement %.1e" % (e2 / e1))
    wipe(g.name)


def mode_of(case):
    return ["one", "laplacian", "one", "three", "one", "sequence"][case.index % 6]


@monitor(REGISTRY, quick=18, thorough=150, limit=400)
def recovery(case):
    """From noise-free measurements of a simulated grid, the grid is recovered."""
    rng = case.rng
    s = c18.Setup(case, mode_of(case), quiet_noise=True, source="gaussian")
    s.minutes += 3 if s.three else 8
    r = s.run()
    lap = s.mode == "laplacian"
    phases, flags = {"one": ("1", []), "laplacian": ("1", ["-l"]), "three": ("123", ["-p", "123"]),
                     "sequence": ("012", ["-q", "-p", "012"])}[s.mode]
    settings = s.settings(identification__lambda_lasso=1e-30, identification__lambda_eiv=1e-30,
                          identification__lambdaprime=1.)
    flags = flags + ["-i", 2] + (["-v"] if rng.rand() < .2 else [])
    code, out = cli.call("identify_network.py", ["-n", s.name] + flags, 300, **settings)
    if s.mode == "three":
        case.check("only available for sequence values" in out, "documented limit of the three-phase identification", out[-500:])
    else:
        case.check(code == 0, "the command ends normally", code, out[-800:])
    std = read(s.name, "standard")
    case.same(read(s.name, "reference")["y"], r["y"], "reference")
    h, y = r["h"], r["y"]
    for grp in ([np.where(h == k)[0] for k in range(3)] if s.mode == "sequence" else [np.arange(len(h))]):
        k = np.ix_(grp, grp)
        v, i = centre(r["w"][:, grp], r["j"][:, grp], lap)
        sv = np.linalg.svd(v, compute_uv=False)
        miss = np.linalg.norm(v @ y[k].T - i)
        bound = 20 * miss / sv[-1] + 1e-9 * sv[0] / sv[-1] * np.linalg.norm(y[k])
        scale = np.linalg.norm(y[k])
        case.event("recovery judged (informative)" if bound < .01 * scale else "recovery not informative")
        for e, what in (("o", "least squares"), ("t", "total least squares")):
            err = np.linalg.norm(std[e][k] - y[k])
            b = bound if e == "o" else bound * 5 * (1 + scale ** 2)
            case.check(err <= b, what + " recovers the matrix", err, b, scale)
        if s.mode in ("one", "laplacian") and bound < 1e-3 * scale:
            b = read(s.name, "bayesian")
            for x, what in ((std["l"], "lasso"), (b["y"], "Bayesian estimate")):
                err = np.linalg.norm(x - y)
                case.check(err <= .05 * scale, what + " recovers the matrix", err, scale)
                case.event("regularised recovery judged")
                case.event("recovery within 1e-3", int(err < 1e-3 * scale))
    wipe(s.name)
