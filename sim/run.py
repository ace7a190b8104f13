"""Runs programs of the repository inside a simulated deployment."""
import os
import shutil
import tempfile
import itertools

from . import ncstub

ncstub.install()
from . import kernel, world  # noqa: E402

BASE = os.environ.get("MQC_SIM_TMP")
_n = itertools.count()


def base_dir():
    global BASE
    if BASE is None:
        for d in ("/dev/shm", tempfile.gettempdir()):
            try:
                BASE = tempfile.mkdtemp(prefix="mqcsim", dir=d)
                with open(os.path.join(BASE, "owner"), "w") as f:
                    f.write(str(os.getpid()))
                break
            except OSError:
                continue
    return BASE


def clean_up():
    global BASE
    if BASE and os.path.isdir(BASE) and os.path.basename(BASE).startswith("mqcsim"):
        shutil.rmtree(BASE, ignore_errors=True)
        BASE = None


class Deployment:
    """One world on disk; processes may be run in it one after another or together."""

    def __init__(self, spec):
        self.root = os.path.join(base_dir(), "w%08d%s" % (next(_n), spec.get("dirname", "")))
        os.makedirs(self.root)
        self.spec = spec
        self.conf = world.build(self.root, spec)
        self.sims = []

    def env(self):
        return {"SCRATCH": self.root + "/scratch"}

    def sim(self, **kw):
        k = dict(self.spec.get("knobs", {}))
        k.update(kw.pop("knobs", {}))
        s = kernel.Sim(self.root, knobs=k, **kw)
        self.sims.append(s)
        return s

    def month_args(self, y1, m1, y2, m2, tracking=False):
        a = ["-config", self.conf, "-year1", str(y1), "-year2", str(y2), "-month1", str(m1), "-month2", str(m2)]
        if tracking:
            a.append("-tracking")
        return a

    def run1(self, program, argv, faults=None, **kw):
        """One process alone; returns it."""
        s = self.sim(**kw)
        p = s.spawn(program, program, argv, self.env(), faults)
        s.run()
        return p

    def reset(self):
        """Forgets everything the programs wrote."""
        for d in ("out", "track", "scratch", "tmp"):
            shutil.rmtree(os.path.join(self.root, d), ignore_errors=True)
            os.makedirs(os.path.join(self.root, d))

    def clear_archive(self):
        shutil.rmtree(os.path.join(self.root, "arch"), ignore_errors=True)

    def out(self):
        return world.snapshot(self.root + "/out")

    def track(self):
        return world.snapshot(self.root + "/track")

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
