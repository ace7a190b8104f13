"""A crash at any point followed by a rerun gives exactly the outputs of a run that was never interrupted."""
from sim import scen, world

ID, TITLE = "P03", "Crash anywhere and run again: the same outputs to the byte"
CASES = {"quick": 64, "thorough": 3000}
RULE = ("one evaluation = one crash (killed at an operation or part way through a write, up to 3 crashes in a row) and "
        "the rerun after it, outputs against an uninterrupted run; distinct by program and by the kind, file and number "
        "of the operations at which the crashes fell")
ASSUMES = ["a crash is the death of the process: what reached write() survives, buffers are lost, the last write may "
           "be torn; power loss is not modelled (the programs never fsync)"]
POINTS = 5


def gen(rng, tier):
    prog = rng.choice(["marine_qc", "marine_qc", "marine_qc_track_only", "marine_qc_hires"])
    win = scen.window(rng, scen.YEARS, rng.choice([1, 1, 2]))
    spec = scen.make(rng, win, {"ships": 1, "drifters": rng.randrange(1, 4), "others": 0, "reports": 5},
                     bgforms=("bz2", "bz2", "plain"))
    spec["program"] = prog
    spec["tracking"] = rng.random() < 0.85
    spec["knobs"] = scen.knobs(rng)
    return spec


def shrinks(spec):
    for i in range(len(spec.get("plans") or [])):
        for j in range(len(spec["plans"][i])):
            if len(spec["plans"][i]) > 1:
                c = scen.clone(spec)
                del c["plans"][i][j]
                yield c


def run(spec, T):
    d = T.deploy(spec)
    prog, tr = spec["program"], spec["tracking"]
    args = d.month_args(*spec["win"], tr)
    g = d.run1(prog, args)
    if g.status != "ok":
        T.fail("clean-run-failed", "%s: %s" % (prog, g.error))
        return
    A = d.out()
    scratch = world.snapshot(d.root + "/scratch")
    if "plans" not in spec:
        rng = scen.rng_of(spec, "plans")
        spec["plans"] = []
        for _ in range(POINTS):
            n = rng.choice([1, 1, 1, 2, 3])
            if rng.random() < 0.85:
                pts = scen.pick_points(rng, g.trace, n, kinds=scen.WRITES) or scen.pick_points(rng, g.trace, n)
            else:
                pts = scen.pick_points(rng, g.trace, n, avoid=("stat",))
            spec["plans"].append([scen.crash_at(rng, p) for p in pts])
    for plan in spec["plans"]:
        d.reset()
        fell = []
        for f in plan:
            p = d.run1(prog, args, [f])
            if p.status == "crashed":
                fell.append(f["at"])
            elif p.status != "ok":
                T.fail("restart-failed", "%s after crashes at %r: %s" % (prog, fell, p.error))
                return
            # what is there under the name of a decompressed background file is that file
        q = d.run1(prog, args)
        if q.status != "ok":
            T.fail("rerun-failed", "%s after crashes at %r: %s" % (prog, fell, q.error))
            return
        x = scen.diff(A, d.out())
        if x:
            T.fail("rerun-differs", "after crashes of %s at %r: %s" % (prog, fell, x))
            return
        now = world.snapshot(d.root + "/scratch")
        for k in scratch:
            if now.get(k) != scratch[k]:
                T.fail("cache-differs", "after crashes at %r: scratch file %s" % (fell, k))
                return
        if fell:
            T.key(prog, [(a[0], a[1].split("/")[-1], a[2]) for a in fell], [f.get("torn") for f in plan])
            if len(T.samples) < 3:
                T.samples.append("%s %s crashes at %r" % (prog, spec["win"], fell))
