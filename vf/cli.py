"""Runs the commands of the repository as their users do, in a forked process, under chosen configuration values."""
import fractions
import importlib
import os
import runpy
import sys
import tempfile
import time
import traceback
from pathlib import Path

from conf import conf, simulation, identification
from src.simulation import net_templates, net_templates_3ph

MODULES = {"conf": conf, "simulation": simulation, "identification": identification}


class Days(fractions.Fraction):
    """A number of days that need not be whole, so that short simulations can be requested; whole amounts are integers."""

    def _wrap(self, x):
        if isinstance(x, fractions.Fraction):
            return int(x) if x.denominator == 1 else Days(x)
        return x

    def __mul__(self, o):
        return self._wrap(fractions.Fraction.__mul__(self, o))

    def __rmul__(self, o):
        return self._wrap(fractions.Fraction.__rmul__(self, o))

    def __truediv__(self, o):
        return self._wrap(fractions.Fraction.__truediv__(self, o))


def data_dir():
    return Path(conf.DATA_DIR)


def result(name):
    return data_dir() / "simulations_output" / name


def install(name, feeder):
    """Makes a feeder available as the template network `name`, with the line types it needs."""
    lines = [feeder.line_data(ln) for ln in feeder.lines]
    mod = net_templates_3ph if feeder.three else net_templates
    setattr(mod, name + "_bus", feeder.buses())
    setattr(mod, name + "_net", lines)
    if feeder.three:
        types = feeder.std_types()
        net_templates_3ph.ieee123_types.update(types)


def call(script, args, limit=120, **settings):
    """script.py args... in a child process; settings: module__entry=value. Returns (exit code, output)."""
    fd, log = tempfile.mkstemp(prefix="cli")
    os.close(fd)
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            f = os.open(log, os.O_WRONLY)
            os.dup2(f, 1)
            os.dup2(f, 2)
            for k, v in settings.items():
                mod, entry = k.split("__")
                setattr(MODULES[mod], entry, v() if callable(v) else v)
            root = Path(conf.ROOT_DIR)
            os.chdir(root)
            sys.argv = [script] + [str(a) for a in args]
            sys.stdout = open(1, "w", closefd=False)
            sys.stderr = open(2, "w", closefd=False)
            try:
                runpy.run_path(str(root / script), run_name="__main__")
                code = 0
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except BaseException:
                traceback.print_exc()
                code = 1
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(code)
    end = time.time() + limit
    while True:
        p, status = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.time() > end:
            os.kill(pid, 9)
            os.waitpid(pid, 0)
            status = 98 << 8
            break
        time.sleep(.01)
    with open(log, errors="replace") as f:
        text = f.read()
    os.remove(log)
    return (os.WEXITSTATUS(status) if os.WIFEXITED(status) else -1), text
