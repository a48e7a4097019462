"""Monitor framework: seeded cases, checks, coverage accounting. Runs in the interpreter of the code under test."""
import contextlib
import hashlib
import io
import json
import os
import signal
import sys
import traceback

import numpy as np


class Violated(Exception):
    """The oracle observed a breach; raised to end the case."""


class Slow(BaseException):
    """The per-case time limit ran out."""


class Monitor:
    def __init__(self, fn, quick, thorough, limit, known):
        self.fn, self.name, self.quick, self.thorough, self.limit = fn, fn.__name__, quick, thorough, limit
        self.known = known


def monitor(registry, quick=20, thorough=200, limit=150, known=None):
    """Registers a monitor. quick/thorough: number of cases of each tier. known: id of the only finding it may report."""
    def deco(fn):
        registry.append(Monitor(fn, quick, thorough, limit, known))
        return fn
    return deco


def derive(*parts):
    return int.from_bytes(hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()[:4], "little")


def short(v, n=6):
    """Compact printable form of a value, for reports and samples."""
    try:
        if hasattr(v, "todense"):
            v = v.todense()
        if isinstance(v, (np.ndarray, np.matrix)):
            a = np.asarray(v)
            return "%s%s%s" % (a.dtype, list(a.shape), np.array2string(
                a.ravel()[:n], precision=6, separator=",", max_line_width=10000))
    except Exception:
        pass
    s = repr(v)
    return s if len(s) < 300 else s[:300] + "..."


def dense(m):
    return np.asarray(m.todense() if hasattr(m, "todense") else m)


class Case:
    def __init__(self, prop, mon, index, seed, tier, workdir):
        self.prop, self.mon, self.index, self.seed, self.tier, self.workdir = prop, mon, index, seed, tier, workdir
        s = derive(seed, prop, mon.name, index)
        self.rng = np.random.RandomState(s)
        self.case_seed = s
        self.checks = 0
        self.events = {}
        self.keys = []
        self.nontrivial_keys = []
        self.sample = None
        self.findings = []
        self.context = []
        self.cleanup = contextlib.ExitStack()
        self._talk = None

    @property
    def verbose(self):
        """Whether the code under test is asked to tell about its progress in this case; the output is swallowed."""
        if self._talk is None:
            self._talk = self.index % 4 == 2
            if self._talk:
                self.cleanup.enter_context(contextlib.redirect_stdout(io.StringIO()))
                self.cleanup.enter_context(contextlib.redirect_stderr(io.StringIO()))
                self.event("verbose")
        return self._talk

    # --- accounting
    def cover(self, key, nontrivial=True, sample=None):
        self.keys.append(key)
        if nontrivial:
            self.nontrivial_keys.append(key)
        if sample is not None or self.sample is None:
            self.sample = {"monitor": self.mon.name, "index": self.index, "case": key}
            if sample is not None:
                self.sample["data"] = sample
        self.context.append(key)

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    # --- deciding
    def fail(self, msg):
        raise Violated("%s [case %s]" % (msg, "; ".join(self.context[-2:])))

    def check(self, cond, msg, *vals):
        self.checks += 1
        if not bool(cond):
            self.fail(msg + (": " + ", ".join(short(v) for v in vals) if vals else ""))

    def close(self, got, want, msg, rtol=1e-9, atol=1e-12, shape=True):
        """got == want within atol + rtol*max|want| (norm-wise, so that tiny entries are judged on the data's scale)."""
        self.checks += 1
        g, w = dense(got), dense(want)
        if shape and g.shape != w.shape:
            self.fail("%s: shape %s instead of %s" % (msg, g.shape, w.shape))
        if g.size == 0 and w.size == 0:
            return
        if g.dtype == object or w.dtype == object:
            self.fail("%s: object arrays" % msg)
        bad = ~np.isfinite(g) & np.isfinite(w)
        if np.any(bad):
            self.fail("%s: non finite values %s, expected %s" % (msg, short(g), short(w)))
        err = np.max(np.abs(g - w))
        scale = np.max(np.abs(w))
        if not err <= atol + rtol * scale:
            i = np.unravel_index(np.argmax(np.abs(g - w)), np.broadcast(g, w).shape)
            self.fail("%s: max error %.3g at %s (scale %.3g): got %s, expected %s" % (
                msg, err, tuple(int(k) for k in i), scale, short(np.broadcast_to(g, np.broadcast(g, w).shape)[i]),
                short(np.broadcast_to(w, np.broadcast(g, w).shape)[i])))

    def same(self, got, want, msg):
        """Exactly equal arrays (NaN equal to NaN)."""
        self.checks += 1
        g, w = dense(got), dense(want)
        if g.shape != w.shape:
            self.fail("%s: shape %s instead of %s" % (msg, g.shape, w.shape))
        eq = (g == w)
        if g.dtype.kind in "fc" and w.dtype.kind in "fc":
            eq = eq | (np.isnan(g) & np.isnan(w))
        if not np.all(eq):
            self.fail("%s: %s instead of %s" % (msg, short(g), short(w)))

    def raises(self, exc, fn, msg):
        self.checks += 1
        try:
            fn()
        except exc:
            return
        self.fail(msg)

    def finding(self, fid, bad, msg):
        """A known, recorded defect: `bad` tells whether exactly that failure was observed."""
        self.checks += 1
        if bad:
            self.findings.append((fid, msg))


class Frozen:
    """Remembers arrays and tells whether they were modified."""
    def __init__(self, **arrays):
        import copy
        self.a = arrays
        self.c = {k: copy.deepcopy(v) for k, v in arrays.items()}

    def verify(self, case, where):
        for k, v in self.a.items():
            w = self.c[k]
            case.checks += 1
            if not equal(v, w):
                case.fail("%s modified its input %s: %s, was %s" % (where, k, short(v), short(w)))


def equal(v, w):
    if type(v) is not type(w):
        return False
    if hasattr(v, "todense"):
        return v.shape == w.shape and v.dtype == w.dtype and v.format == w.format and \
            bool(np.array_equal(dense(v), dense(w)))
    if isinstance(v, np.ndarray):
        if v.dtype != w.dtype or v.shape != w.shape:
            return False
        if v.dtype == object:
            return all(equal(a, b) for a, b in zip(v.ravel(), w.ravel()))
        return bool(np.all((v == w) | ((v != v) & (w != w))))
    if isinstance(v, (list, tuple)):
        return len(v) == len(w) and all(equal(a, b) for a, b in zip(v, w))
    if isinstance(v, dict):
        return list(v) == list(w) and all(equal(v[k], w[k]) for k in v)
    if hasattr(v, "log_distribution"):
        return same_prior(v, w)
    if hasattr(v, "__dict__") and not callable(v):
        return equal(dict(v.__dict__), dict(w.__dict__))
    try:
        r = v == w
        return bool(r) if not hasattr(r, "all") else bool(np.all(r))
    except Exception:
        return True


def same_prior(v, w):
    """Two priors hold the same beliefs: same size and same evaluations."""
    n = int(v.n)
    if n != int(w.n):
        return False
    for k in range(3):
        x = np.cos(1.3 * np.arange(n) + k) * 10. ** (k - 1)
        a, b = v.log_distribution(x), w.log_distribution(x)
        if not all(np.array_equal(np.ravel(dense(p)), np.ravel(dense(q)), equal_nan=True) for p, q in zip(a, b)):
            return False
    return True


def run_case(prop, mon, index, seed, tier, workdir):
    case = Case(prop, mon, index, seed, tier, workdir)
    streams = sys.stdout, sys.stderr
    np.random.seed(derive(seed, prop, mon.name, index, "global") % (2 ** 31))
    out = {"monitor": mon.name, "index": index, "violation": None, "error": None}

    def on_alarm(*_):
        raise Slow()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(mon.limit * (4 if tier == "thorough" else 1))
    try:
        mon.fn(case)
    except Violated as e:
        out["violation"] = str(e)
    except Slow:
        out["error"] = "case did not end within its time limit"
        out["hang"] = mon.limit * (4 if tier == "thorough" else 1)
    except (MemoryError, KeyboardInterrupt):
        out["error"] = traceback.format_exc()[-1500:]
    except SystemExit as e:
        out["violation"] = "code under test ended the process (%s)" % (e.code,)
    except OSError as e:
        tb = traceback.format_exc()
        # a missing or misplaced result file is the code's fault, a full disk is not
        if isinstance(e, (FileNotFoundError, FileExistsError, NotADirectoryError, IsADirectoryError, PermissionError)) \
                or e.errno is None:
            out["violation"] = "unexpected %s [case %s]\n%s" % (repr(e), "; ".join(case.context[-2:]), tb[-1500:])
        else:
            out["error"] = tb[-1500:]
    except Exception as e:
        out["violation"] = "unexpected %s [case %s]\n%s" % (
            repr(e)[:400], "; ".join(case.context[-2:]), traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        case.cleanup.close()
        sys.stdout, sys.stderr = streams
    out.update(checks=case.checks, events=case.events, sample=case.sample, findings=case.findings,
               keys=[hashlib.sha256((mon.name + str(k)).encode()).hexdigest()[:16] for k in case.keys],
               nontrivial=[hashlib.sha256((mon.name + str(k)).encode()).hexdigest()[:16]
                           for k in case.nontrivial_keys])
    return out
