"""The cache of decompressed background files never shows anything but complete, right files."""
import os

from sim import kernel, ncstub, scen, world

ID, TITLE = "P07", "The decompression cache never serves partial or wrong files"
CASES = {"quick": 90, "thorough": 3000}
RULE = ("one evaluation = one run of 1-4 processes over one scratch folder under a seeded schedule with crashes, torn "
        "decompression, failing children and a full disk, every cache name checked after every step, then fault-free "
        "reruns against the model and against isolated runs; distinct by schedule, faults and outcome")
POINTS = 4


def gen(rng, tier):
    win = scen.window(rng, scen.YEARS, 1)
    spec = scen.make(rng, win, {"ships": 0, "drifters": rng.randrange(1, 3), "others": 0, "reports": 5, "bad": 0,
                                "dense_days": True},
                     bgforms=("bz2", "bz2", "bz2", "plain"), bgmissing=0.05)
    scen.folder(rng, spec, 0.2)
    spec["tracking"] = True
    n = rng.choice([1, 2, 2, 3, 4])
    spec["procs"] = []
    for i in range(n):
        # the windows of the processes overlap: they want the same files
        y, m = win[0], win[1]
        r = rng.random()
        if i and r < 0.3:
            y, m = world.nextm(y, m)
        elif i and r < 0.6:
            y, m = world.prevm(y, m)
        prog = rng.choice(["marine_qc", "marine_qc_track_only"])
        spec["procs"].append([prog, y, m])
    seen, out = set(), []
    for p in spec["procs"]:              # two programs that write the same files for the same month are not run at once
        if (p[1], p[2]) not in seen:
            seen.add((p[1], p[2]))
            out.append(p)
    spec["procs"] = out
    spec["knobs"] = scen.knobs(rng)
    spec["switch_p"] = rng.choice([0.05, 0.2, 0.5, 0.8])
    spec["sched"] = rng.randrange(10 ** 9)
    return spec


def cache_names(d, spec):
    """name -> the contents that may be seen under it, for every day around the windows and both directories."""
    out = {}
    ks = sorted(spec["bg"])
    if not ks:
        return out
    y, m = int(ks[0][:4]), int(ks[0][4:6])
    last = (int(ks[-1][:4]), int(ks[-1][4:6]))
    y, m = world.prevm(y, m)
    while (y, m) <= world.nextm(*last):
        for dd in range(1, world.mlen(y, m) + 1):
            for stub in range(len(world.BACKGROUNDS)):
                out[os.path.basename(world.bg_path(d.root, stub, y, m, dd))] = []
        y, m = world.nextm(y, m)
    for k, es in spec["bg"].items():
        y, m, dd = int(k[:4]), int(k[4:6]), int(k[6:])
        for e in es:
            if e["form"] in ("bz2", "plain"):
                name = os.path.basename(world.bg_path(d.root, e["stub"], y, m, dd))
                out[name].append(ncstub.encode(world.bg_spec(e), pad=e.get("pad", 40)))
    return out


class Watch:
    """Checks the scratch folder after every step that can have changed it."""

    def __init__(self, d, names):
        self.dir = d.root + "/scratch"
        self.names = names
        self.bad = None
        self.sizes = {}

    def __call__(self, sim, p, kind, what):
        if self.bad or kind in ("stat",):
            return
        self.look()

    def look(self):
        for name in kernel.O["listdir"](self.dir):
            if name not in self.names:
                continue
            path = self.dir + "/" + name
            st = kernel.O["lstat"](path)
            sig = (st.st_size, st.st_mtime_ns, st.st_ino)
            if self.sizes.get(path) == sig:
                continue
            with kernel.O_OPEN(path, "rb") as f:
                now = f.read()
            if now not in self.names[name]:
                self.bad = ("%s holds %d bytes, the archive's file has %r" % (name, len(now),
                            [len(x) for x in self.names[name]]))
                return
            self.sizes[path] = sig


def go(d, spec, plan, switches=None):
    s = d.sim(sched_seed=None if switches is not None else spec["sched"], switches=switches,
              switch_p=spec["switch_p"])
    w = Watch(d, cache_names(d, spec))
    s.invariant = w
    for i, (prog, y, m) in enumerate(spec["procs"]):
        s.spawn("p%d" % i, prog, d.month_args(y, m, y, m, True), d.env(), plan.get(str(i)),
                holds=plan.get("holds", {}).get(str(i)))
    s.run()
    w.look()
    return s, w


def run(spec, T):
    d = T.deploy(spec)
    # each process alone, in a world of its own: what it has to write, and the operations it makes
    alone, traces = {}, {}
    for i, (prog, y, m) in enumerate(spec["procs"]):
        d.reset()
        p = d.run1(prog, d.month_args(y, m, y, m, True))
        if p.status != "ok":
            T.fail("clean-run-failed", p.error)
            return
        alone[i] = scen.under(d.out(), y, m)
        traces[i] = p.trace
    if "plans" not in spec:
        rng = scen.rng_of(spec, "plans")
        spec["plans"] = [{}] if len(spec["procs"]) > 1 else []
        while len(spec["plans"]) < POINTS:
            plan = {}
            for i in traces:
                tr = [t for t in traces[i] if t[0] != "stat" and "/scratch" in t[1] or t[0] in ("spawn", "cwrite", "copen_w", "rename")]
                if rng.random() < 0.7 or len(traces) == 1:
                    fs = []
                    for p in scen.pick_points(rng, tr, rng.choice([1, 1, 2])):
                        fs.append(scen.crash_at(rng, p) if rng.random() < 0.55 else scen.error_at(rng, p))
                    if fs:
                        plan[str(i)] = fs
            if len(traces) > 1 and rng.random() < 0.7:
                plan["holds"] = scen.holds(rng, [traces[i] for i in sorted(traces)], rng.choice([1, 1, 2]))
            spec["plans"].append(plan)
        spec["switchlists"] = [None] * len(spec["plans"])
    for n, plan in enumerate(spec["plans"]):
        d.reset()
        sw = spec["switchlists"][n] if n < len(spec.get("switchlists", [])) else None
        s, w = go(d, spec, plan, switches=sw)
        if w.bad:
            spec["plans"], spec["switchlists"] = [plan], [sw if sw is not None else [list(x) for x in s.made]]
            T.fail("partial-file", "scratch file %s while processes %r ran with faults %r"
                   % (w.bad, spec["procs"], plan))
            return
        for i, p in enumerate(s.procs):
            y, m = spec["procs"][i][1:]
            if p.status == "ok":
                x = scen.diff(alone[i], scen.under(d.out(), y, m))
                if x:
                    T.fail("wrong-output", "process %d (%r) reported success: %s" % (i, spec["procs"][i], x))
                    return
            elif p.status == "failed" and not (set(plan) - {"holds"}):
                T.fail("failed", "process %d (%r) failed with no fault: %s" % (i, spec["procs"][i], p.error))
                return
            elif p.status == "failed" and not plan.get(str(i)):
                # another process's fault is not this one's: it may stop (say, at a full disk) but not be wrong
                T.count("stopped_by_other")
        # faults are over: everything can be finished from what is left in the scratch folder
        for i, (prog, y, m) in enumerate(spec["procs"]):
            q = d.run1(prog, d.month_args(y, m, y, m, True))
            if q.status != "ok":
                T.fail("rerun-failed", "%r: %s" % (spec["procs"][i], q.error))
                return
            x = scen.diff(alone[i], scen.under(d.out(), y, m))
            if x:
                T.fail("rerun-differs", "%r: %s" % (spec["procs"][i], x))
                return
        T.key(spec["procs"], plan, s.made, [p.status for p in s.procs])
        T.count("schedules")
        if len(T.samples) < 3:
            T.samples.append("%r faults %r -> %r" % (spec["procs"], plan, [p.status for p in s.procs]))
