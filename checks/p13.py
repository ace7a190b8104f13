"""A wrapper that is killed or hits a failure never loses or spoils a job in silence."""
from collections import Counter

from sim import cluster, scen, world

ID, TITLE = "P13", "The wrapper never loses or spoils a job in silence"
CASES = {"quick": 2500, "thorough": 60000}
RULE = ("one evaluation = one run of 1-3 wrappers with seeded faults (sbatch or squeue failing, errno and torn writes, missing "
        "ID lists, crashes), and the rerun after it: no incomplete or wrong job is ever submitted, success means that all "
        "were, and the rerun succeeds and submits all; distinct by faults, schedule and jobs submitted")
PLANS = 4


def gen(rng, tier):
    wr = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        n = rng.choice([1, 3, 8, 15])
        win = scen.window(rng, [1985, 1999, 2004], n)
        gap = rng.choice([1, 1, 2, 3])
        ids = cluster.some_ids(rng, rng.choice([1, 2, 4]), 0.3)
        wr.append({"win": list(win), "gap": gap, "mode": rng.choice(["all", "all", "noend", "standard", "new"]),
                   "ids": {i: cluster.series(rng, n, gap) for i in ids}})
    return {"wrappers": wr, "files": {}, "bg": {},
            "scheds": [[rng.randrange(10 ** 9), rng.choice([0.1, 0.4, 1.0])] for _ in range(PLANS)],
            "knobs": scen.knobs(rng)}


def shrinks(spec):
    for i in range(len(spec["wrappers"])):
        if len(spec["wrappers"]) > 1 and i == len(spec["wrappers"]) - 1:
            c = scen.clone(spec)
            del c["wrappers"][i]
            for p in c.get("plans", []):
                p["faults"].pop(str(i), None)
            yield c
        for k in sorted(spec["wrappers"][i]["ids"]):
            if len(spec["wrappers"][i]["ids"]) > 1:
                c = scen.clone(spec)
                del c["wrappers"][i]["ids"][k]
                yield c


def setup(d, spec):
    d.reset()
    argv, want = [], []
    for n, w in enumerate(spec["wrappers"]):
        root = "%s/w%d" % (d.root, n)
        with open(d.conf) as f:
            t = f.read()
        world.put(root + "/etc/configuration.txt",
                  t.replace("out_dir = %s/out" % d.root, "out_dir = %s/out" % root, 1).encode())
        cluster.write_ids(root, w["win"], w["ids"])
        a = cluster.args(d, w["win"], w["gap"], w["mode"])
        a[1] = root + "/etc/configuration.txt"
        argv.append(a)
        want.append(cluster.expected(w["win"], w["ids"], w["gap"], w["mode"]))
    return argv, want


def run(spec, T):
    d = T.deploy(spec)
    argv, want = setup(d, spec)
    traces = []
    for n, a in enumerate(argv):
        setup(d, spec)
        s = d.sim()
        s.cluster = cluster.Cluster()
        p = s.spawn("w%d" % n, "Tracking_QC_wrapper", a, d.env())
        s.run()
        if p.status != "ok":
            T.fail("clean-run-failed", p.error)
            return
        traces.append(p.trace)
    if "plans" not in spec:
        rng = scen.rng_of(spec, "plans")
        spec["plans"] = []
        for _ in range(PLANS):
            faults = {}
            fail, qfail, gone = [], [], []
            k = rng.choice(["fault", "fault", "sbatch", "squeue", "gone", "none"])
            if k == "fault":
                for n in rng.sample(range(len(argv)), rng.randrange(1, len(argv) + 1)):
                    for p in scen.pick_points(rng, traces[n], 1):
                        faults[str(n)] = [scen.crash_at(rng, p) if rng.random() < 0.5 else scen.error_at(rng, p)]
            total = max(1, sum(len(w) for w in want))
            if k == "sbatch":
                a = rng.randrange(total)
                fail = [a] if rng.random() < 0.6 else list(range(a, a + 50))
            if k == "squeue":
                qfail = [rng.randrange(total)]
            if k == "gone":
                n = rng.randrange(len(argv))
                gone = [n, rng.choice(world.months(*spec["wrappers"][n]["win"]))]
            spec["plans"].append({"faults": faults, "fail": fail, "qfail": qfail, "gone": gone, "switches": None,
                                  "status": rng.choice(scen.STATUS),
                                  "holds": scen.holds(rng, traces, rng.choice([0, 1, 2]))})
    for n, plan in enumerate(spec["plans"]):
        seed, pr = spec["scheds"][min(n, len(spec["scheds"]) - 1)]
        if not one(spec, T, d, plan, seed, pr, want):
            return


def one(spec, T, d, plan, seed, pr, want):
    argv, _ = setup(d, spec)
    if plan["gone"]:
        n, (y, m) = plan["gone"]
        if n < len(argv):
            import os
            os.remove("%s/w%d/out/%d/%02d/ID_file.txt" % (d.root, n, y, m))
    sw = plan["switches"]
    s = d.sim(sched_seed=None if sw is not None else seed, switches=sw, switch_p=pr)
    c = s.cluster = cluster.Cluster({"fail": plan["fail"], "qfail": plan["qfail"],
                                     "status": plan.get("status", 1)})
    for n, a in enumerate(argv):
        s.spawn("w%d" % n, "Tracking_QC_wrapper", a, d.env(), plan["faults"].get(str(n)),
                holds=plan.get("holds", {}).get(str(n)))
    s.run()

    def bad(kind, text):
        plan["switches"] = sw if sw is not None else [list(x) for x in s.made]
        spec["plans"] = [plan]
        T.fail(kind, text)
        return False
    quiet = not plan["fail"] and not plan["qfail"]
    for n, p in enumerate(s.procs):
        w = spec["wrappers"][n]
        got = cluster.submitted([j for j in c.jobs if j["by"] == p.name], argv[n][1], cluster.runmonthid(w["win"]))
        if isinstance(got, str):
            return bad("spoilt-job", "wrapper %d, faults %r: %s" % (n, plan, got))
        extra = Counter(got) - Counter(want[n])
        gone = plan["gone"] and plan["gone"][0] == n
        if extra and not gone:
            return bad("wrong-job", "wrapper %d, faults %r: submitted %r" % (n, plan, list(extra)[:3]))
        if gone and (p.status == "ok" or got):
            return bad("silent-loss", "wrapper %d reports success, or submits %r, without the ID list of %r" % (n, got, plan["gone"]))
        if p.status == "ok" and got != want[n]:
            return bad("silent-loss", "wrapper %d reports success, faults %r, without %r"
                       % (n, plan, list((Counter(want[n]) - Counter(got)))[:3]))
        if p.status not in ("ok", "failed", "crashed"):
            return bad("bad-end", "wrapper %d: %s" % (n, p.status))
        if p.status == "failed" and str(n) not in plan["faults"] and quiet and not gone:
            return bad("failed", "wrapper %d failed with no fault of its own: %s" % (n, p.error))
    T.key(plan, s.made, [j["path"] for j in c.jobs])
    # the cause is removed: run again
    for n, p in enumerate(s.procs):
        if p.status == "ok":
            continue
        w = spec["wrappers"][n]
        cluster.write_ids("%s/w%d" % (d.root, n), w["win"], w["ids"])
        s2 = d.sim()
        s2.cluster = cluster.Cluster()
        q = s2.spawn("w%d" % n, "Tracking_QC_wrapper", argv[n], d.env())
        s2.run()
        if q.status != "ok":
            return bad("rerun-failed", "wrapper %d after faults %r: %s" % (n, plan, q.error))
        got = cluster.submitted(s2.cluster.jobs, argv[n][1], cluster.runmonthid(w["win"]))
        if got != want[n]:
            return bad("rerun-differs", "wrapper %d after faults %r: %r instead of %r" % (n, plan, got, want[n]))
    if len(T.samples) < 3:
        T.samples.append("faults %r -> %r, %d jobs" % (plan["faults"] or plan["fail"] or plan["qfail"] or plan["gone"],
                                                       [p.status for p in s.procs], len(c.jobs)))
    return True
