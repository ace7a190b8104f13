"""Runs one specification in an interpreter of its own (another hash seed, time zone, folder) and prints its outputs."""
import base64
import ctypes
import json
import os
import random
import signal
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def start(check, spec, env, cwd=None):
    """What `check.outputs(spec)` gives in another interpreter."""
    e = {k: v for k, v in os.environ.items() if k not in ("PYTHONHASHSEED", "TZ", "LANG", "LC_ALL", "USER", "HOME", "LOGNAME")}
    e.update(env)
    e["PYTHONPATH"] = V
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    # one that never ends is ended with its parent, by the harness
    p = subprocess.run([sys.executable, "-m", "sim.child", check], input=json.dumps(spec).encode(), env=e,
                       cwd=cwd or V, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        return None, p.stderr.decode("utf-8", "replace")[-1500:]
    doc = json.loads(p.stdout.decode().splitlines()[-1])
    return {k: base64.b64decode(v) for k, v in doc["out"].items()}, doc


def main():
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)         # not to outlive its parent
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[v] = "1"
    sys.dont_write_bytecode = True
    spec = json.loads(sys.stdin.read())
    from sim import harness, run
    import numpy
    random.seed(spec.get("seed", 1))
    numpy.random.seed(spec.get("seed", 1) % 2 ** 31)
    mod = harness.load(sys.argv[1])
    t = harness.T()
    try:
        out = mod.outputs(spec, t)
    finally:
        t.finish()
        run.clean_up()
    print(json.dumps({"out": {k: base64.b64encode(v).decode() for k, v in (out or {}).items()}, "viol": t.viol,
                      "n": dict(t.n), "fired": dict(t.fired), "probes": dict(t.probes), "simtime": t.simtime}))


if __name__ == "__main__":
    main()
