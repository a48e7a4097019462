"""C21: reports. The command runs on made-up result files; texts, plot data and figures are judged against them."""
import hashlib
import re
import numpy as np
import matplotlib
import webcolors
matplotlib.use("Agg")
if not hasattr(webcolors, "CSS3_HEX_TO_NAMES"):
    # the installed webcolors is newer than what the installed tikzplotlib expects; nothing of the repository
    webcolors.CSS3_HEX_TO_NAMES = {webcolors.name_to_hex(n): n for n in webcolors.names("css3")}
import matplotlib.pyplot as plt
from matplotlib.figure import Figure
from src.identification import utils
from src.models.abstract_models import IterationStatus
from vf.core import monitor, Frozen
from vf import gen, cli
from vf.net import A, AI

REGISTRY = []
NAMES = ("fro_error", "max_error", "rrms_error", "map_error")


def metrics(y, h):
    d = np.abs(y - h)
    ref = np.sqrt(np.sum(np.abs(y) ** 2))
    return [np.sqrt(np.sum(d ** 2)), np.max(d), 100 * np.sqrt(np.sum(d ** 2)) / ref,
            100 * np.sqrt(np.sum(d[y != 0] ** 2)) / ref]


def numbers(text):
    """The values of the metrics of a report."""
    out = []
    for k in NAMES:
        m = re.findall(k + r"\D*?=\s*(?:np\.float64\()?([-+0-9.eE]+|nan|inf)", text)
        out.append([float(x) for x in m])
    return out


class Results:
    """Saved results of some identification."""

    def __init__(self, case, kind=None, lap=None):
        rng = self.rng = case.rng
        self.case = case
        self.kind = kind or gen.pick(rng, "one", "one", "phase", "sequence", "012", "123", "012", "123")
        self.name = "c21x%s%d" % (case.mon.name.replace("_", ""), case.index)
        n = rng.randint(2, 5)
        self.lap = bool(rng.rand() < .4) if lap is None else lap
        joint = self.kind in ("012", "123")
        if self.kind == "one":
            h, self.phases = np.ones(n, dtype=int), "1"
        elif joint:
            h, self.phases = np.tile((0, 1, 2) if self.kind == "012" else (1, 2, 3), n), self.kind
        else:
            labels = (1, 2, 3) if self.kind == "phase" else (0, 1, 2)
            h = rng.permutation(np.repeat(labels, rng.randint(2, n + 2, size=3)))
            self.phases = str(gen.pick(rng, *labels))
        self.h = h
        t = rng.randint(2 * len(h), 4 * len(h) + 10)
        self.w = 1 + .05 * gen.cplx(rng, (t, len(h)), "gauss")
        self.own = np.arange(len(h)) if joint else np.where(h == int(self.phases))[0]
        m = self.m = len(self.own)
        self.y = gen.laplacian(rng, m, .5) * 10. ** rng.uniform(-1, 2)
        if not self.lap:
            self.y += np.diag(np.abs(self.y).max() * rng.rand(m))
        if self.kind == "012":
            lab = self.h
            self.y = np.where(lab[:, None] == lab[None, :], self.y, 0)
        e = lambda s: s * np.abs(self.y).max() * gen.cplx(rng, (m, m), "gauss")
        self.o, self.t, self.l, self.b = (self.y + e(s) for s in (.1, .05, .03, .01))
        if rng.rand() < .1:
            self.b = self.y.copy()
        for q in "otlb":  # estimates without any line, with few lines, with lines too many by far
            if rng.rand() < .12:
                x = getattr(self, q)
                setattr(self, q, gen.pick(rng, 0 * x, np.where(np.abs(x) > np.median(np.abs(x)), x, 0), 1e3 * x))
        k = int(gen.pick(rng, 1, 2, 3, 8))
        self.its = [IterationStatus(i, self.y + e(.1), float(rng.uniform(1, 5) * 10 ** rng.uniform(-3, 3))) for i in range(k)]
        q = [gen.real(rng, (2 * m * m, 2 * m * m), "gauss") for _ in range(2)]
        self.cov = [x @ x.T for x in q]
        self.parts = [p for p in ("standard", "bayesian", "uncertainty") if rng.rand() < .65]
        if joint:
            self.parts = [p for p in self.parts if p != "uncertainty"]

    def save(self):
        f = lambda k: cli.result(k + self.name + ".npz")
        m = len(self.h)
        v, i, j = (self.w + .02 * gen.cplx(self.rng, self.w.shape, "gauss") for _ in range(3))
        np.savez(f(""), i=i, v=v, j=j, w=self.w, y=np.eye(m), p=np.ones(m), f=4, h=self.h)
        np.savez(f("reference_results_"), y=self.y, p=self.phases, l=self.lap)
        if "standard" in self.parts:
            np.savez(f("standard_results_"), o=self.o, t=self.t, l=self.l)
        if "bayesian" in self.parts:
            np.savez(f("bayesian_results_"), y=self.b, i=self.its)
        if "uncertainty" in self.parts:
            np.savez(f("uncertainty_results_"), e=self.cov[0], b=self.cov[1])

    def state(self):
        return {fn.name: hashlib.sha256(fn.read_bytes()).hexdigest() for fn in cli.result("").glob("*" + self.name + "*")}

    def wipe(self):
        for fn in cli.result("").glob("*" + self.name + "*"):
            fn.unlink()

    def converter(self, seq):
        n = self.m // 3
        T, TI = (np.kron(np.eye(n), x) for x in (A, AI)) if self.m % 3 == 0 else (None, None)
        if self.kind == "012" and not seq:
            return (lambda y: T @ y @ TI), self.w @ T.T
        if self.kind == "123" and seq:
            return (lambda y: TI @ y @ T), self.w @ TI.T
        return (lambda y: y), self.w[:, self.own]


def plot_data(name):
    with np.load(cli.result("plot_data") / (name + ".npz")) as z:
        return z["m"]


def clean():
    for d in (cli.data_dir(), cli.result("plot_data"), cli.data_dir() / "tikz"):
        for fn in d.glob("*"):
            if fn.is_file() and fn.suffix in (".txt", ".png", ".pdf", ".npz", ".tex"):
                fn.unlink()


@monitor(REGISTRY, quick=40, thorough=320, limit=300)
def report(case):
    rng = case.rng
    # every combination of kind, shape of the matrix and point of view comes up
    k = case.index
    r = Results(case, ("one", "012", "123", "012", "123", "phase", "sequence", "one")[k % 8], bool(k // 8 % 2))
    seq = bool((k // 16 + k // 3) % 2) if r.kind in ("012", "123") else False
    args = ["-n", r.name] + (["-q"] if seq else [])
    if rng.rand() < .4:
        args += ["-m", int(rng.randint(1, 200))]
    if rng.rand() < .4:
        args += ["-e", int(rng.randint(1, 50))]
    if rng.rand() < .3:
        args += ["-c", float(gen.pick(rng, .2, 1., .5))]
    if rng.rand() < .3:
        args += ["-v"]
    case.cover("%s %s m=%d lap=%s its=%d %s %s" % (r.kind, r.phases, r.m, r.lap, len(r.its), "+".join(r.parts),
                                                  " ".join(map(str, args[2:]))))
    clean()
    r.save()
    before = r.state()
    code, out = cli.call("plot_results.py", args, 240)
    case.check(code == 0, "the report ends normally with %s" % (r.parts,), code, out[-900:])
    case.check(r.state() == before, "the saved results are left alone")
    conv, w = r.converter(seq)
    y = conv(r.y)
    exact = conv(r.y) is r.y
    tol = 1e-9

    def matrix(name, want, what):
        case.close(plot_data(name), np.abs(want), "plot data of " + what, tol)
        png = cli.data_dir() / (name + ".png")
        case.check(png.is_file() and png.stat().st_size > 500, "figure of " + what)
        case.event("matrices compared")

    def text(fname, est, what):
        got = numbers((cli.data_dir() / fname).read_text())
        want = metrics(y, est)
        for k in range(4 if exact else 3):      # which converted entries are exactly zero is a matter of rounding
            case.check(len(got[k]) == 1 and abs(got[k][0] - want[k]) <= 1e-6 * abs(want[k]) + 1e-9,
                       "%s of the %s report" % (NAMES[k], what), got[k], want[k])
        case.event("reports compared")

    matrix("y_bus", y, "the reference")
    est = {}
    if "standard" in r.parts:
        est = {"ols": conv(r.o), "tls": conv(r.t), "lasso": conv(r.l)}
        for k, v in est.items():
            text(k + "_error_metrics.txt", v, k)
            matrix("y_" + k, v, k)
    else:
        for k in ("ols", "tls", "lasso"):
            case.check(not (cli.data_dir() / (k + "_error_metrics.txt")).exists(), "no report of an estimate that is not there")
    if "bayesian" in r.parts:
        b = conv(r.b)
        text("sparse_tls_error_metrics.txt", b, "Bayesian")
        matrix("y_sparse_tls_cov", b, "the Bayesian estimate")
        matrix("y_sparse_tls_cov_errors", b - y, "the errors")
        err = np.array([metrics(y, conv(i.fitted_parameters))[2] for i in r.its])
        case.close(plot_data("errors").ravel(), err, "error history", 1e-6)
        tgt = np.array([i.target_function for i in r.its])
        got = plot_data("targets").ravel()
        case.check(any(len(x) == len(got) and np.allclose(x, got, rtol=1e-12, atol=0) for x in (tgt, tgt[1:])),
                   "target history", got, tgt)
        case.event("histories compared")
        if exact:
            s = lambda x: np.abs((x + x.T) / 2)
            low = [(i, j) for j in range(r.m) for i in range(j + (1 if r.lap else 0), r.m) if i != j and y[i, j] != 0]
            cols = [est[k] for k in ("ols", "tls", "lasso")] if est else []
            want = np.array([[s(x)[i, j] for x in cols + [b, y]] for i, j in low])
            got = plot_data("comparison")
            case.check(got.shape[0] == len(low) and got.shape[1] >= 2, "one row per line", got.shape, len(low))
            case.close(got[:, [c for c in range(got.shape[1]) if not np.any(np.isnan(got[:, c]))]], want,
                       "comparison of the line parameters", tol)
            case.event("comparisons compared")
            sparsity(case, r, s, low, dict(est, bayesian=b), y)
    else:
        case.check(not (cli.data_dir() / "sparse_tls_error_metrics.txt").exists(), "no Bayesian report without the estimate")
    if "uncertainty" in r.parts and "standard" in r.parts:
        matrix("tls_errors", est["tls"] - y, "the estimation errors")
        case.check((cli.data_dir() / "tls_cov.png").is_file(), "figure of the covariance")
    if "uncertainty" in r.parts:
        one = [np.abs(plot_data(k)) for k in ("tls_cov", "tls_cov_est")]
        case.check(all(x.shape == (r.m, r.m) and np.all(np.isfinite(x)) for x in one), "shape of the covariance figures")
        if case.index // 2 % 2 == 0:
            # the covariances exchanged: so are the figures
            keep = {q: plot_data(q) for q in ("correlations", "y_bus")}
            r.cov.reverse()
            r.save()
            code, out = cli.call("plot_results.py", args, 240)
            case.check(code == 0, "the report ends normally", code, out[-900:])
            two = [np.abs(plot_data(q)) for q in ("tls_cov", "tls_cov_est")]
            case.close(two[0], one[1], "figure of the first covariance", 1e-6)
            case.close(two[1], one[0], "figure of the second covariance", 1e-6)
            for q in keep:
                case.same(plot_data(q), keep[q], "unrelated figure " + q)
            case.event("covariance figures exchanged")
    # singular values of the right channels
    c = w - w.mean(axis=0)
    ev = np.linalg.eigvals(c.T @ c)
    case.close(np.sort(plot_data("correlations").ravel()), np.sort(np.log10(np.sqrt(np.abs(ev)))), "correlations", 1e-5)
    for k in ("errors", "targets", "comparison", "correlations"):
        if k == "correlations" or "bayesian" in r.parts:
            case.check((cli.data_dir() / (k + ".pdf")).is_file(), "figure " + k)
    r.wipe()


def sparsity(case, r, s, low, est, y):
    """Errors on the parameters that the reference does not have, up to one factor for all estimates."""
    txt = (cli.data_dir() / "sparsity_metrics.txt").read_text()
    idx = [(i, j) for j in range(r.m) for i in range(j + (1 if r.lap else 0), r.m) if (i, j) not in low]
    if not idx:
        return
    got = numbers(txt)
    case.check(len(got[0]) == len(est), "one sparsity report per estimate", len(got[0]), list(est))
    sy = lambda x: (x + x.T) / 2
    factors = []
    for q, (name, e) in enumerate(est.items()):
        d = np.array([np.abs(sy(e - y)[i, j]) for i, j in idx])
        if np.linalg.norm(d) > 1e-9 * np.abs(y).max():
            factors += [got[0][q] / np.linalg.norm(d), got[1][q] / d.max()]
    case.check(not factors or (max(factors) <= 1.00001 * min(factors) and .4 < min(factors) < 4.1),
               "sparsity errors of all estimates", factors)
    case.event("sparsity reports compared")


class Seen:
    """Remembers what is on the axes at the moment a figure is saved."""

    def __enter__(self):
        self.old, self.figs = Figure.savefig, []
        seen = self

        def savefig(fig, fname, *a, **k):
            for ax in fig.axes:
                lines = [(l.get_xdata(), l.get_ydata(), l.get_label()) for l in ax.lines]
                mesh = [np.array(c.get_array()).ravel() for c in ax.collections if c.get_array() is not None]
                seen.figs.append((str(fname), lines, mesh))
            return seen.old(fig, fname, *a, **k)
        Figure.savefig = savefig
        return self

    def __exit__(self, *a):
        Figure.savefig = self.old
        plt.close("all")


@monitor(REGISTRY, quick=60, thorough=800, limit=200)
def figures(case):
    """What a plot shows is what it was given, and so is the data saved next to it."""
    rng = case.rng
    kind = gen.pick(rng, "heatmap", "series", "scatter")
    rows, cols = rng.randint(1, 8), rng.randint(1, 5)
    name = "c21f%d" % case.index
    if kind == "heatmap":
        m = gen.cplx(rng, (rows, rows), "gauss") if rng.rand() < .6 else np.abs(gen.real(rng, (rows, rows)))
        hi = float(rng.uniform(.5, 5)) if rng.rand() < .5 else None
        lo = 0 if hi is not None or rng.rand() < .5 else None
        case.cover("heatmap %s n=%d lo=%s hi=%s" % (m.dtype, rows, lo, hi is not None))
        fr = Frozen(m=m)
        with Seen() as s:
            utils.plot_heatmap(m, name, minval=lo, maxval=hi, powernorm=float(gen.pick(rng, .3, .5, 1.)))
        fr.verify(case, "plot_heatmap")
        shown = [v for f, l, ms in s.figs for v in ms if v.size == m.size]
        case.check(any(np.allclose(v, np.abs(m).ravel()) for v in shown), "the heatmap shows the magnitudes",
                   [v for v in shown], np.abs(m))
        files = [cli.data_dir() / (name + ".png")]
    else:
        m = gen.real(rng, (rows, cols), gen.pick(rng, "gauss", "int", "range"))
        labels = [None, ["s%d" % i for i in range(cols)], ["a"] * (cols + 1)][rng.randint(3)]
        colors = gen.pick(rng, "hsv", "blue2", "navy", ["navy", "peru", "forestgreen", "darkred"], ["navy"])
        size = int(gen.pick(rng, 1, 3, 10))
        ar = gen.pick(rng, None, None, .5)
        case.cover("%s %s labels=%s %s ar=%s" % (kind, m.shape, labels and len(labels), colors, ar))
        fr = Frozen(m=m)
        with Seen() as s:
            (utils.plot_series if kind == "series" else utils.plot_scatter)(m, name, labels, size, colors, ar)
        fr.verify(case, kind)
        case.check(len(s.figs) >= 1, "a figure is saved")
        lines = s.figs[-1][1]
        for c in range(cols):
            hit = [l for l in lines if len(l[1]) == rows and np.array_equal(np.asarray(l[1], dtype=float), m[:, c])]
            case.check(hit, "column %d is shown" % c, m[:, c])
            if labels is not None and len(labels) == cols:
                case.check(any(h[2] == labels[c] for h in hit), "column %d carries its label" % c, [h[2] for h in hit])
        case.event("curves seen", cols)
        files = [cli.data_dir() / (name + ".pdf"), cli.data_dir() / "tikz" / (name + ".tex")]
    case.same(plot_data(name), m, "data saved next to the plot")
    for fn in files:
        case.check(fn.is_file() and fn.stat().st_size > 100, "file " + fn.suffix)
        fn.unlink()
    (cli.result("plot_data") / (name + ".npz")).unlink()


@monitor(REGISTRY, quick=6, thorough=60, limit=300)
def history(case):
    """A report does not depend on earlier reports."""
    rng = case.rng
    a, b = Results(case), Results(case)
    b.name += "b"
    a.parts = ["standard", "bayesian"]
    case.cover("%s after %s" % (a.kind, b.kind))
    a.save()
    b.save()
    texts = []
    for seq in ([a], [b, a]):
        clean()
        for r in seq:
            r.save()
            code, out = cli.call("plot_results.py", ["-n", r.name], 240)
            case.check(code == 0, "the report ends normally", code, out[-800:])
        texts.append({f: (cli.data_dir() / f).read_text() for f in ("ols_error_metrics.txt", "tls_error_metrics.txt",
                      "lasso_error_metrics.txt", "sparse_tls_error_metrics.txt", "sparsity_metrics.txt")})
        texts[-1]["m"] = {k: plot_data(k).tolist() for k in ("y_bus", "y_ols", "errors", "comparison")}
    case.check(repr(texts[0]) == repr(texts[1]), "same report again")
    a.wipe()
    b.wipe()
