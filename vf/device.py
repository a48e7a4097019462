"""Runs estimator calls with the accelerated code paths switched on (stand-in GPU library). device.py STAGED; pickles on the pipes."""
import os
import pickle
import struct
import sys
import traceback
import warnings

import numpy as np


def build(job):
    from src.models.error_in_variable import BayesianEIVRegression, TotalLeastSquares
    from src.models.regression import BayesianRegression, ComplexRegression
    from vf.props.c08 import builders
    if job["model"] == "ols":
        return ComplexRegression()
    if job["model"] == "tls":
        return TotalLeastSquares()
    cls = BayesianRegression if job["model"] == "ridge" else BayesianEIVRegression
    return cls(job["prior"], **job["kw"], **builders(job["kind"]))


def perform(job):
    """Results of the calls, in order, each with whether they are plain processor arrays."""
    m = build(job)
    out = []
    for what, args in job["calls"]:
        r = getattr(m, what)(*args)
        if what == "fit":
            its = [(s.iteration, s.fitted_parameters, s.target_function) for s in getattr(m, "iterations", [])]
            est = m.fitted_admittance_matrix
            host = all(type(a) is np.ndarray for a in [est] + [i[1] for i in its])
            host = host and all(isinstance(i[2], (np.generic, float)) or type(i[2]) is np.ndarray for i in its)
            out.append({"est": np.array(est), "its": [(i[0], np.array(i[1]), float(i[2])) for i in its], "host": host})
        else:
            out.append({"info": [np.array(a) for a in r], "host": all(type(a) is np.ndarray for a in r)})
    return out


def serve():
    pipe_in, pipe_out = os.fdopen(os.dup(0), "rb"), os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path[:] = [sys.argv[1], os.path.join(here, "fakegpu"), os.path.dirname(here)] + [p for p in sys.path if p != here]
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    while True:
        head = pipe_in.read(8)
        if len(head) < 8:
            return
        job = pipe_in.read(struct.unpack("<Q", head)[0])
        try:
            from conf import conf
            res = ("ok", perform(pickle.loads(job)), bool(conf.GPU_AVAILABLE))
        except Exception as x:
            res = ("error", repr(x), traceback.format_exc()[-1500:])
        data = pickle.dumps(res)
        pipe_out.write(struct.pack("<Q", len(data)) + data)
        pipe_out.flush()


class Device:
    """Client side: one server process per worker."""
    def __init__(self):
        import atexit
        import subprocess
        atexit.register(self.stop)
        self.p = subprocess.Popen([sys.executable, os.path.abspath(__file__), os.getcwd()], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE)

    def stop(self):
        self.p.kill()
        self.p.wait()

    def __call__(self, job):
        data = pickle.dumps(job)
        self.p.stdin.write(struct.pack("<Q", len(data)) + data)
        self.p.stdin.flush()
        head = self.p.stdout.read(8)
        if len(head) < 8:
            raise RuntimeError("device process ended")
        return pickle.loads(self.p.stdout.read(struct.unpack("<Q", head)[0]))


if __name__ == "__main__":
    serve()
