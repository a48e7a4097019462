"""C27: estimators with the accelerated paths on (stand-in GPU library, own process) against the processor ones."""
import numpy as np
from scipy import sparse as sp
from src.models.error_in_variable import BayesianEIVRegression, TotalLeastSquares
from src.models.regression import BayesianRegression, ComplexRegression
from vf import gen
from vf.core import monitor, Frozen, dense, Violated
from vf.device import Device
from vf.props.c08 import builders, forms, make_prior
from vf.props.c09 import weight

REGISTRY = []
_device = []


def remote(case, job):
    """Result of the job on the device; anything the stand-in cannot play is no answer, anything else that breaks is a breach."""
    if not _device:
        _device.append(Device())
    try:
        st, res, more = _device[0](job)
    except BaseException:
        _device.pop().stop()
        raise
    if st == "error":
        if "'cupy" in res and "no attribute" in res:
            case.event("outside the stand-in")
            return None
        case.fail("the accelerated call breaks where the processor one works: %s %s" % (res, more))
    case.check(more, "the accelerated paths are on")
    return res


def c64(a):
    return np.asarray(a).astype(np.complex64).astype(complex)


def nudge(rng, a):
    return a * (1 + 1e-6 * rng.uniform(-1, 1, a.shape))


def local(job):
    from vf import device
    return device.perform(job)


def decided(its, kw):
    """No stop of the iterations hangs on rounding."""
    for (_, _, a), (_, _, b) in zip(its, its[1:]):
        d, err = a - b, 5e-3 * (abs(a) + abs(b))
        if min(kw["abs_tol"], 1) + kw["rel_tol"] == 0:
            continue
        if abs(d) < err or abs(d - kw["abs_tol"]) < err or abs(d - kw["rel_tol"] * abs(a)) < err:
            return False
    return True


def compare(case, job, rng):
    """Every iterate, target and estimate, within the rounding of single precision (measured by nudging the data)."""
    fr = Frozen(**{"arg%d_%d" % (i, k): a for i, c in enumerate(job["calls"]) for k, a in enumerate(c[1]) if a is not None})
    want = local(job)
    fr.verify(case, "processor fit")
    near = []
    for _ in range(3):
        j = dict(job, calls=[(w, [nudge(rng, a) if isinstance(a, np.ndarray) else a for a in args]) for w, args in job["calls"]])
        near.append(local(j))
    got = remote(case, job)
    if got is None:
        return
    for k, (g, w) in enumerate(zip(got, want)):
        nk = [r[k] for r in near]
        case.check(g["host"], "accelerated results come back as ordinary arrays and numbers", job["calls"][k][0])
        if "info" in w:
            for i, (a, b) in enumerate(zip(g["info"], w["info"])):
                tol = 20 * max(np.max(np.abs(r["info"][i] - b)) for r in nk) * 1e-6 + 1e-9 * np.max(np.abs(b))
                case.close(a, b, "information matrix" if i == 0 else "error bound", rtol=0, atol=tol)
            case.event("information matrices")
            continue
        count = {len(r["its"]) for r in nk + [w]}
        if len(count) == 1 and decided(w["its"], job.get("kw")):
            case.check(len(g["its"]) == len(w["its"]), "number of iterations", len(g["its"]), len(w["its"]))
            case.event("iteration counts")
        m = min([len(g["its"])] + list(count))
        for i in range(m):
            a, b = g["its"][i], w["its"][i]
            case.check(a[0] == b[0], "iteration number", a[0], b[0])
            tol = 40 * max(np.max(np.abs(r["its"][i][1] - b[1])) for r in nk) + 2e-4 * np.max(np.abs(b[1]))
            case.close(a[1], b[1], "iterate %d of call %d" % (i, k), rtol=0, atol=tol)
            tol = 40 * max(abs(r["its"][i][2] - b[2]) for r in nk) + 2e-3 * abs(b[2]) + job.get("floor", 0)
            case.close(a[2], b[2], "target %d of call %d" % (i, k), rtol=0, atol=tol)
            case.event("iterates")
        if len(count) == 1 and len(g["its"]) == len(w["its"]):
            tol = 40 * max(np.max(np.abs(r["est"] - w["est"])) for r in nk) + 2e-4 * np.max(np.abs(w["est"]))
            case.close(g["est"], w["est"], "estimate of call %d" % k, rtol=0, atol=tol)
            case.event("estimates")


def data(rng, n, kind, noise=None):
    t = 2 * n + rng.randint(2, 14)
    y = gen.laplacian(rng, n, .6) if kind != "full" or rng.rand() < .4 else gen.cplx(rng, (n, n), "gauss")
    x = gen.cplx(rng, (t, n), "gauss")
    e = gen.pick(rng, .003, .03, .2) if noise is None else noise
    z = x @ y + e * gen.cplx(rng, (t, n), "gauss")
    d = gen.cplx(rng, (n, n), "gauss")
    init = y + gen.pick(rng, 0, .2) * (d if kind == "full" else d + d.T)
    return c64(x + e * gen.cplx(rng, (t, n), "gauss")), c64(z), c64(init)


def iterative(case, model):
    rng = case.rng
    n, kind = rng.randint(1 if rng.rand() < .1 else 2, 5), gen.pick(rng, "full", "sym", "lap")
    if n == 1:
        kind = gen.pick(rng, "full", "sym")
    p = 2 * forms(n, kind)[0].shape[0]
    prior, pk = make_prior(rng, p, gen.pick(rng, .01, .1))
    lam = 10. ** rng.uniform(-4, 0)
    stop = rng.rand() < .4
    kw = dict(lambda_value=lam, verbose=False, max_iterations=int(rng.randint(1, 8)), abs_tol=0, rel_tol=0)
    if stop:
        kw.update(max_iterations=30, abs_tol=10. ** rng.uniform(-1, 2) if rng.rand() < .5 else 0, rel_tol=10. ** rng.uniform(-2, 0))
    calls, wn = [], ""
    for _ in range(gen.pick(rng, 1, 1, 2)):
        x, z, init = data(rng, n, kind)
        if model == "ridge":
            calls.append(("fit", [x, z, init]))
        else:
            wx = wz = None
            if rng.rand() < .7:
                a, b = gen.pick(rng, "scalar", "diag", "blocks", "full"), gen.pick(rng, "scalar", "diag", "blocks", "full")
                wx, wz, wn = weight(rng, x, a), weight(rng, z, b), a + "/" + b
            calls.append(("fit", [x, z, wx, wz, init]))
    case.cover("%s %s n=%d %s %s lambda=%.2g its=%d stop=%s calls=%d" % (model, kind, n, wn, ",".join(pk), lam, kw["max_iterations"],
                                                                      stop, len(calls)))
    compare(case, {"model": model, "prior": prior, "kw": kw, "kind": kind, "calls": calls}, rng)


@monitor(REGISTRY, quick=40, thorough=1500)
def ridge_fits(case):
    iterative(case, "ridge")


@monitor(REGISTRY, quick=60, thorough=2000)
def eiv_fits(case):
    iterative(case, "eiv")


@monitor(REGISTRY, quick=30, thorough=800)
def direct_fits(case):
    """Least squares and total least squares, and the information matrix (double precision throughout)."""
    rng = case.rng
    n = rng.randint(1, 6)
    x, z, init = data(rng, n, "full")
    model = gen.pick(rng, "ols", "tls", "tls")
    calls = [("fit", [x, z])]
    if model == "tls":
        k = gen.pick(rng, "scalar", "diag", "blocks", "polar")
        cx, cz = (weight(rng, a, gen.pick(rng, "scalar", "diag", "blocks")) for a in (x, z))
        calls.append(("fisher_info", [x, z, cx, cz, init]))
    case.cover("%s n=%d T=%d" % (model, n, x.shape[0]))
    compare(case, {"model": model, "calls": calls}, rng)
