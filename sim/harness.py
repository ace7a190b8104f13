"""Search driver: seeds -> specifications -> simulated runs -> verdicts, minimised replays, evidence.

A check is a module in /verif/checks with
    ID, TITLE          property
    CASES              {"quick": n, "thorough": n}
    RULE               what makes a case count as distinct and non-trivial
    gen(rng, tier)     -> specification (plain JSON)
    run(spec, T)       runs it; calls T.fail(kind, text) for every violation found
and optionally shrinks(spec) -> smaller specifications, in addition to the generic ones.
"""
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("MQC_SIM_OUT", VERIF)
MAXCASE = 150.0        # seconds of processor time after which a case counts as not ending
MAXWALL = 600.0        # and of the clock, for one that waits for ever


class T:
    """What one case observes."""

    def __init__(self):
        self.viol = []
        self.n = collections.Counter()
        self.fired = collections.Counter()
        self.probes = collections.Counter()
        self.keys = set()
        self.simtime = 0.0
        self.samples = []
        self.open = []

    def fail(self, kind, text=""):
        self.viol.append({"kind": kind, "text": str(text)[:1500]})

    def count(self, what, n=1):
        self.n[what] += n

    def key(self, *parts):
        """Registers one distinct, non-trivial thing that was decided."""
        self.n["evaluations"] += 1
        h = hashlib.sha1(repr(parts).encode("utf-8", "replace")).hexdigest()[:16]
        self.keys.add(h)

    def deploy(self, spec):
        from . import run
        d = run.Deployment(spec)
        self.open.append(d)
        return d

    def absorb(self, d):
        for s in d.sims:
            self.n["simulations"] += 1
            self.n["processes"] += len(s.procs)
            self.n["io_steps"] += s.steps
            self.n["task_switches"] += max(0, len(s.made) - 1)
            self.simtime += s.now
            self.fired.update(s.fired)
            self.probes.update(s.probes)
        d.sims = []

    def finish(self):
        for d in self.open:
            self.absorb(d)
            d.close()
        self.open = []

    def result(self):
        return {"viol": self.viol, "n": dict(self.n), "fired": dict(self.fired), "probes": dict(self.probes),
                "keys": sorted(self.keys), "simtime": self.simtime, "samples": self.samples}


def load(pid):
    return importlib.import_module("checks." + pid.lower())


def case_seed(seed, i):
    return "%d/%d" % (seed, i)


def make_spec(mod, cs, tier):
    rng = random.Random(mod.ID + "/" + cs)
    spec = mod.gen(rng, tier)
    spec["case"] = cs
    return json.loads(json.dumps(spec))


def run_case(mod, spec):
    t = T()
    try:
        mod.run(spec, t)
    finally:
        t.finish()
    return t


# -- minimising ----------------------------------------------------------------------------
def size(spec):
    return len(json.dumps(spec))


def generic_shrinks(spec):
    """Smaller specifications, the largest reductions first."""
    def clone():
        return json.loads(json.dumps(spec))
    for name in ("faults", "plans", "switches", "procs", "jobs", "events"):
        v = spec.get(name)
        if isinstance(v, list) and len(v) > 0:
            if len(v) > 2:
                for half in (v[:len(v) // 2], v[len(v) // 2:]):
                    c = clone()
                    c[name] = half
                    yield c
            for i in range(len(v)):
                c = clone()
                del c[name][i]
                yield c
    files = spec.get("files") or {}
    for k in sorted(files):
        if files[k]:
            c = clone()
            c["files"][k] = []
            yield c
    # drop whole platforms
    ids = []
    for k in sorted(files):
        for f in files[k]:
            for r in f["lines"]:
                i = r.get("ID", "raw") if "raw" not in r else "raw"
                if i not in ids:
                    ids.append(i)
    if len(ids) > 1:
        for i in ids:
            c = clone()
            for k in c["files"]:
                for f in c["files"][k]:
                    f["lines"] = [r for r in f["lines"] if ("raw" if "raw" in r else r.get("ID", "raw")) != i]
            yield c
    n = sum(len(f["lines"]) for k in files for f in files[k])
    if n and n <= 3000:
        step = max(1, n // 4)
        while step >= 1:
            for a in range(0, n, step):
                c = clone()
                j = 0
                for k in sorted(c["files"]):
                    for f in c["files"][k]:
                        keep = []
                        for r in f["lines"]:
                            if not (a <= j < a + step):
                                keep.append(r)
                            j += 1
                        f["lines"] = keep
                yield c
            if step == 1:
                break
            step = max(1, step // 4)
    bg = spec.get("bg") or {}
    if len(bg) > 1:
        ks = sorted(bg)
        for half in (ks[:len(ks) // 2], ks[len(ks) // 2:]):
            c = clone()
            for k in half:
                del c["bg"][k]
            yield c
    if spec.get("knobs"):
        c = clone()
        c["knobs"] = {}
        yield c
    if spec.get("exclude"):
        c = clone()
        c["exclude"] = []
        yield c


def minimise(mod, spec, kind, budget):
    """Greedy reduction that keeps a violation of the same kind."""
    end = time.time() + budget
    best = spec
    tried = 0
    progress = True
    while progress and time.time() < end:
        progress = False
        gens = [generic_shrinks(best)]
        if hasattr(mod, "shrinks"):
            gens.insert(0, mod.shrinks(json.loads(json.dumps(best))))
        for g in gens:
            for c in g:
                if time.time() > end:
                    break
                if size(c) >= size(best):
                    continue
                tried += 1
                try:
                    t = run_case(mod, json.loads(json.dumps(c)))
                except Exception:
                    continue
                if any(v["kind"] == kind for v in t.viol):
                    best = c
                    progress = True
                    break
            if progress:
                break
    return best, tried


# -- workers -------------------------------------------------------------------------------
def _worker(conn, pid, tier, seed):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    from . import run
    run.BASE = None
    mod = load(pid)
    lines = cover() if os.environ.get("MQC_SIM_COV") else None
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            break
        if msg is None:
            break
        what, arg = msg
        try:
            if what == "case":
                spec = make_spec(mod, case_seed(seed, arg), tier)
            else:
                spec = arg
            t0 = time.time()
            t = run_case(mod, spec)
            r = t.result()
            r["wall"] = time.time() - t0
            r["spec"] = spec if r["viol"] else None
            r["error"] = None
        except BaseException as e:
            r = {"viol": [], "error": "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:]),
                 "spec": None}
        conn.send(r)
    run.clean_up()
    if lines is not None:
        with open(os.path.join(os.environ["MQC_SIM_COV"], "%s-%d.json" % (pid, os.getpid())), "w") as f:
            json.dump(sorted(lines), f)
    conn.close()


def cover():
    """Collects the lines of the repository that run, for the maker of mutants."""
    from . import boot
    lines = set()
    mon = sys.monitoring

    def seen(code, line):
        if code.co_filename.startswith(boot.REPO + "/"):
            lines.add((os.path.basename(code.co_filename), line))
        return mon.DISABLE
    mon.use_tool_id(mon.COVERAGE_ID, "mqc")
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, seen)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    return lines


def below(pid):
    """Seconds of processor time of a process and of each below it."""
    kids, own = collections.defaultdict(list), {}
    for f in os.listdir("/proc"):
        if f.isdigit():
            try:
                x = open("/proc/%s/stat" % f).read().rsplit(")", 1)[1].split()
            except OSError:
                continue
            kids[int(x[1])].append(int(f))
            own[int(f)] = sum(int(v) for v in x[11:15]) / os.sysconf("SC_CLK_TCK")
    todo, res = [pid], {}
    while todo:
        p = todo.pop()
        res[p] = own.get(p, 0.0)
        todo += kids[p]
    return res


def used(pid):
    return sum(below(pid).values())


def overdue(pid, since, limit, base=0.0):
    """Whether a process at work since then has had its time: a busy machine makes none overdue."""
    wall = time.time() - since
    return wall > MAXWALL or wall > limit and used(pid) - base > limit


class Worker:
    def __init__(self, pid, tier, seed):
        ctx = mp.get_context("fork")
        self.conn, child = ctx.Pipe()
        self.p = ctx.Process(target=_worker, args=(child, pid, tier, seed), daemon=True)
        self.p.start()
        child.close()
        self.busy = None
        self.t0, self.cpu = 0, 0.0

    def give(self, msg):
        self.conn.send(msg)
        self.busy = msg
        self.t0, self.cpu = time.time(), used(self.p.pid)

    def kill(self):
        for pid in below(self.p.pid) if self.p.is_alive() else ():
            if pid != self.p.pid:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
        try:
            self.p.kill()
            self.p.join(5)
        except Exception:
            pass

    def stop(self):
        try:
            self.conn.send(None)
            self.p.join(10)
        except Exception:
            pass
        self.kill()


def timed_case(pid, spec, limit):
    """Runs one specification in a process of its own; None if it does not end."""
    w = Worker(pid, "quick", 0)
    w.give(("spec", spec))
    try:
        while not overdue(w.p.pid, w.t0, limit):
            if w.conn.poll(1.0):
                return w.conn.recv()
        return None
    except EOFError:
        return {"viol": [], "error": "worker died", "spec": None}
    finally:
        w.kill()


def known_findings(pid):
    path = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(path):
        return []
    return [f for f in json.load(open(path)).get("findings", []) if f["property"] == pid]


def search(pid, tier, seed, jobs=8, limit=None, cases=None):
    """Returns the exit status; prints and writes everything a check has to."""
    from . import run
    mod = load(pid)
    total = cases if cases is not None else mod.CASES[tier]
    limit = limit or (float(os.environ.get("MQC_SIM_WALL", 0)) or (240.0 if tier == "quick" else 3600.0 * 3))
    t0 = time.time()
    agg = {"n": collections.Counter(), "fired": collections.Counter(), "probes": collections.Counter()}
    keys, samples, simtime, done, errors, walls = set(), [], 0.0, 0, [], []
    viol = None
    nxt = 0
    cap = False
    workers = [Worker(pid, tier, seed) for _ in range(min(jobs, total))]
    try:
        while True:
            for w in workers:
                if w.busy is None and nxt < total and viol is None and not cap:
                    w.give(("case", nxt))
                    nxt += 1
            live = [w for w in workers if w.busy is not None]
            if not live:
                break
            mp.connection.wait([w.conn for w in live], timeout=1.0)
            for i, w in enumerate(workers):
                if w.busy is None:
                    continue
                r = None
                if w.conn.poll(0):
                    try:
                        r = w.conn.recv()
                    except EOFError:
                        r = {"viol": [], "error": "worker died", "spec": None}
                elif overdue(w.p.pid, w.t0, MAXCASE, w.cpu):
                    idx = w.busy[1]
                    w.kill()
                    workers[i] = w = Worker(pid, tier, seed)
                    spec = make_spec(mod, case_seed(seed, idx), tier)
                    again = timed_case(pid, spec, MAXCASE)
                    if again is None:
                        r = {"viol": [{"kind": "no-end", "text": "the run does not end"}], "error": None,
                             "spec": spec, "n": {}, "fired": {}, "probes": {}, "keys": [], "simtime": 0,
                             "samples": [], "wall": MAXCASE}
                    else:
                        r = again
                    w.busy = ("case", idx)
                if r is None:
                    if not w.p.is_alive():
                        r = {"viol": [], "error": "worker died", "spec": None}
                    else:
                        continue
                idx = w.busy[1]
                w.busy = None
                done += 1
                if not w.p.is_alive():
                    workers[i] = Worker(pid, tier, seed)
                if r.get("error"):
                    errors.append("case %s: %s" % (idx, r["error"]))
                    continue
                agg["n"].update(r["n"])
                agg["fired"].update(r["fired"])
                agg["probes"].update(r["probes"])
                keys.update(r["keys"])
                simtime += r["simtime"]
                walls.append(r["wall"])
                if len(samples) < 5 and r["samples"]:
                    samples += r["samples"][:2]
                if r["viol"] and (viol is None or idx < viol[0]):
                    viol = (idx, r)
            if time.time() - t0 > limit:
                cap = True
            if viol is not None and all(w.busy is None or w.busy[1] > viol[0] for w in workers):
                break
    finally:
        for w in workers:
            if w.busy is None:
                w.stop()
            else:
                w.kill()
        sweep()
    wall = time.time() - t0
    status = 0
    lines = []
    if viol is not None:
        idx, r = viol
        v = r["viol"][0]
        path = write_replay(mod, pid, seed, idx, r["spec"], v, tier)
        lines.append("violated: %s: %s" % (v["kind"], v["text"]))
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        status = 1
    for f in known_findings(pid):
        with open(os.path.join(VERIF, f["spec"])) as fh:
            spec = json.load(fh)
        r = timed_case(pid, spec, MAXCASE) or {"viol": [{"kind": "no-end", "text": "the run does not end"}], "error": None}
        if r.get("error"):
            errors.append("finding %s: %s" % (f["spec"], r["error"]))
        elif any(v["kind"] == f["kind"] for v in r["viol"]):
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
        elif r["viol"] and status == 0:
            path = write_replay(mod, pid, seed, -1, spec, r["viol"][0], tier)
            lines.append("violated: %s: %s" % (r["viol"][0]["kind"], r["viol"][0]["text"]))
            lines.append("VIOLATION property=%s replay=%s" % (pid, path))
            status = 1
    if status == 0 and errors and (len(errors) > max(2, done // 50)):
        status = 2
    for e in errors[:3]:
        lines.append("harness error: " + e)
    evidence(mod, pid, tier, seed, done, total, keys, agg, samples, simtime, wall, cap, errors,
             viol[1]["viol"] if viol else [], walls)
    n = agg["n"]
    print("%s %s: %d of %d cases, %d distinct, %d simulated runs, %d processes, %d i/o steps, %d faults, "
          "%.1f s%s" % (pid, tier, done, total, len(keys), n["simulations"], n["processes"], n["io_steps"],
                        sum(agg["fired"].values()), wall, " (time limit)" if cap else ""))
    for l in lines:
        print(l)
    sys.stdout.flush()
    return status


def sweep():
    """Removes the scratch directories of workers that were stopped."""
    import glob
    import shutil
    for base in ("/dev/shm", os.environ.get("TMPDIR", "/tmp")):
        for d in glob.glob(os.path.join(base, "mqcsim*")):
            pidfile = os.path.join(d, "owner")
            try:
                owner = int(open(pidfile).read())
            except (OSError, ValueError):
                continue
            if not os.path.exists("/proc/%d" % owner):
                shutil.rmtree(d, ignore_errors=True)


def write_replay(mod, pid, seed, idx, spec, v, tier):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d-%d.json" % (pid, seed, idx))
    best, tried = spec, 0
    if v["kind"] != "no-end":
        budget = float(os.environ.get("MQC_SIM_MIN", 25.0 if tier == "quick" else 300.0))
        r = None
        ctx = mp.get_context("fork")
        a, b = ctx.Pipe()

        def go():
            from . import run
            run.BASE = None
            out = minimise(mod, spec, v["kind"], budget)
            b.send(out)
            run.clean_up()
        p = ctx.Process(target=go, daemon=True)
        p.start()
        if a.poll(budget + MAXCASE):
            try:
                best, tried = a.recv()
            except EOFError:
                pass
        p.kill()
        p.join(5)
        sweep()
        again = timed_case(pid, best, MAXCASE)
        if not again or not any(x["kind"] == v["kind"] for x in again["viol"]):
            best = spec
            again = timed_case(pid, best, MAXCASE)
        if again and again["viol"]:
            for x in again["viol"]:
                if x["kind"] == v["kind"]:
                    v = x
                    break
        sweep()
    with open(path, "w") as f:
        json.dump({"property": pid, "seed": seed, "index": idx, "violation": v, "spec": best,
                   "size": [size(spec), size(best)], "tried": tried}, f, indent=1)
        f.write("\n")
    return path


def replay(path):
    doc = json.load(open(path))
    pid = doc["property"]
    r = timed_case(pid, doc["spec"], MAXCASE * 2)
    sweep()
    if r is None:
        print("violated: no-end: the run does not end")
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if r["error"]:
        print("harness error: " + r["error"])
        return 2
    for v in r["viol"]:
        print("violated: %s: %s" % (v["kind"], v["text"]))
    if r["viol"]:
        same = r["viol"][0] == doc["violation"] or any(v == doc["violation"] for v in r["viol"])
        print("the recorded violation %s" % ("recurs exactly" if same else "does not recur exactly"))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("no violation")
    return 0


REAL = ["marine_qc / marine_qc_hires / marine_qc_track_only / tracking_qc / Tracking_QC_wrapper main programs",
        "every module of the repository they import (IMMA1, Extended_IMMA, qc, track_check, trackqc, Climatology, "
        "BackgroundField, YMCounter, CalcHums, spherical_geometry)",
        "Python buffered and text I/O, gzip, bz2, csv, json, numpy", "file contents on a real (scratch) file system"]
STUBS = ["netCDF4.Dataset (checksummed token files)", "bunzip2 and the shell that starts it",
         "sbatch and squeue (simulated cluster)", "clock and sleep", "raw file and directory calls (seams to the real "
         "scratch file system, with faults)"]


def evidence(mod, pid, tier, seed, done, total, keys, agg, samples, simtime, wall, cap, errors, viol, walls):
    d = os.path.join(OUT, "evidence")
    os.makedirs(d, exist_ok=True)
    n = agg["n"]
    hours = max(wall, 1e-6) / 3600.0
    doc = {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": int(n.get("evaluations", 0) or done),
            "distinct_nontrivial": len(keys),
            "violations_found": [v["kind"] + ": " + v["text"] for v in viol][:5],
            "rule": mod.RULE,
            "samples": samples[:5] or ["case %s" % case_seed(seed, 0)],
            "cases_run": done, "cases_planned": total, "stopped_by_time_limit": cap,
            "simulated_runs": n["simulations"], "simulated_processes": n["processes"],
            "runs_per_hour": int(n["simulations"] / hours), "seeds_per_hour": int(done / hours),
            "io_steps": n["io_steps"], "task_switches": n["task_switches"],
            "simulated_seconds": round(simtime, 3),
            "faults_injected": dict(sorted(agg["fired"].items())),
            "faults_total": sum(agg["fired"].values()),
            "reach_probes": dict(sorted(agg["probes"].items())),
            "counts": {k: n[k] for k in sorted(n)},
            "real_components": REAL, "stub_components": STUBS,
            "harness_errors": len(errors),
            "slowest_case_s": round(max(walls), 2) if walls else None,
        },
        "wall_s": round(wall, 2),
        "assumptions": getattr(mod, "ASSUMES", []),
        "violations": len(viol),
    }
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


def main(argv):
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument("id", nargs="?")
    p.add_argument("tier", nargs="?", default="quick", choices=["quick", "thorough"])
    p.add_argument("--replay")
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    p.add_argument("--jobs", type=int, default=int(os.environ.get("MQC_SIM_JOBS", "8")))
    p.add_argument("--cases", type=int)
    p.add_argument("--one", type=int, help="run one case of the search here, with its outcome")
    p.add_argument("--selftest", action="store_true")
    a = p.parse_args(argv)
    if a.selftest:
        return selftest()
    if a.replay:
        return replay(a.replay)
    if a.one is not None:
        from . import run
        mod = load(a.id)
        spec = make_spec(mod, case_seed(a.seed, a.one), a.tier)
        t0 = time.time()
        t = run_case(mod, spec)
        r = t.result()
        r["keys"] = len(r["keys"])
        print(json.dumps(r, indent=1)[:6000])
        print("%.2f s" % (time.time() - t0))
        run.clean_up()
        return 1 if t.viol else 0
    return search(a.id.upper(), a.tier, a.seed, a.jobs, cases=a.cases)


def selftest():
    """Setup: every check loads, and one simulated run is exactly repeatable."""
    import glob
    import random as _r
    from . import run, scen
    for f in sorted(glob.glob(os.path.join(VERIF, "checks", "p[0-9]*.py"))):
        load(os.path.basename(f)[:-3])
    seen = []
    for _ in range(2):
        rng = _r.Random("selftest")
        spec = scen.make(rng, (2000, 3, 2000, 3), {"reports": 3})
        with run.Deployment(spec) as d:
            s = d.sim(sched_seed=7)
            for i, prog in enumerate(("marine_qc", "marine_qc_hires")):
                s.spawn("p%d" % i, prog, d.month_args(2000, 3, 2000, 3, True), d.env())
            s.run()
            seen.append((s.log, s.made, [p.status for p in s.procs], sorted(d.out().items())))
    run.clean_up()
    if seen[0] != seen[1]:
        print("selftest: a run is not repeatable")
        return 2
    print("selftest: ok, %d steps, %d task switches" % (len(seen[0][0]), len(seen[0][1])))
    return 0
