"""Tracking QC jobs side by side, killed, or hit by I/O errors."""
from sim import scen, trackin, world

ID, TITLE = "P17", "Tracking QC jobs survive company, crashes and I/O errors"
CASES = {"quick": 700, "thorough": 12000}
RULE = ("one evaluation = one seeded schedule of tracking QC jobs of 1-5 drifter chunks over one deployment, with crashes, "
        "torn writes and errno faults in some: a job that reports success has exactly the outputs it has alone, a job "
        "without a fault succeeds, and rerunning what did not succeed completes the set; distinct by schedule and faults")
SCHEDS = 3


def gen(rng, tier):
    n = rng.choice([1, 1, 2])
    win = scen.window(rng, scen.YEARS, n)
    u = trackin.uidgen(rng)
    spec = {"win": list(win), "files": {}, "bg": {}, "jobs": [], "runmonthid": "198501-202001"}
    seen = set()
    for _ in range(rng.choice([1, 2, 3, 5])):
        i, w = trackin.new_id(rng, others=[j[0] for j in spec["jobs"]]), win
        if i.replace("/", "_").replace("*", "_") in seen:
            continue
        if spec["jobs"] and rng.random() < 0.25:             # a later chunk of a drifter that is there already
            i, w = spec["jobs"][-1][0], spec["jobs"][-1][3]
            k = rng.choice([4, 5, 12])
            w = [v for y, m in ((w[0], w[1]), (w[2], w[3])) for v in ((12 * y + m - 1 + k) // 12, (m - 1 + k) % 12 + 1)]
        seen.add(i.replace("/", "_").replace("*", "_"))
        spec["jobs"].append([i, rng.choice(trackin.EDGES), trackin.drifter(rng, w, i, u, n=rng.choice([1, 3, 10, 20])),
                             list(w)])
    spec["scheds"] = [[rng.randrange(10 ** 9), rng.choice([0.05, 0.3, 0.7, 1.0]), rng.random() < 0.7]
                      for _ in range(SCHEDS)]
    spec["knobs"] = scen.knobs(rng)
    return spec


def shrinks(spec):
    for i, j in enumerate(spec["jobs"]):
        for n in range(len(j[2])):
            if len(j[2]) > 1:
                c = scen.clone(spec)
                del c["jobs"][i][2][n]
                yield c


def run(spec, T):
    d = T.deploy(spec)
    alone, traces, argv = [], [], []
    for i, edge, reps, win in spec["jobs"]:
        d.reset()
        trackin.write(d.root, reps, i)
        a = trackin.args(d, i, win, edge, spec["runmonthid"])
        p = d.run1("tracking_qc", a)
        if p.status != "ok":
            T.fail("clean-run-failed", p.error)
            return
        alone.append(d.track())
        traces.append(p.trace)
        argv.append(a)
    if "plans" not in spec:
        rng = scen.rng_of(spec, "plans")
        spec["plans"] = []
        for seed, pr, hurt in spec["scheds"]:
            plan = {}
            if hurt:
                for i in rng.sample(range(len(traces)), rng.randrange(1, len(traces) + 1)):
                    for p in scen.pick_points(rng, traces[i], 1):
                        plan[str(i)] = [scen.crash_at(rng, p) if rng.random() < 0.5 else scen.error_at(rng, p)]
            if rng.random() < 0.6:
                plan["holds"] = scen.holds(rng, traces, rng.choice([1, 1, 2]))
            spec["plans"].append(plan)
        spec["switchlists"] = [None] * len(spec["plans"])
    for n, plan in enumerate(spec["plans"]):
        d.reset()
        for i, edge, reps, win in spec["jobs"]:
            trackin.write(d.root, reps, i)
        before = d.out()
        seed, pr, hurt = spec["scheds"][min(n, len(spec["scheds"]) - 1)]
        sw = spec["switchlists"][n]
        s = d.sim(sched_seed=None if sw is not None else seed, switches=sw, switch_p=pr)
        for i, a in enumerate(argv):
            s.spawn("t%d" % i, "tracking_qc", a, d.env(), plan.get(str(i)),
                    holds=plan.get("holds", {}).get(str(i)))
        s.run()

        def bad(kind, text):
            spec["plans"], spec["switchlists"] = [plan], [sw if sw is not None else [list(x) for x in s.made]]
            spec["scheds"] = [[seed, pr, hurt]]
            T.fail(kind, text)
        got = d.track()
        for i, p in enumerate(s.procs):
            mine = {k: got.get(k, b"") if k in got else None for k in alone[i]}
            if p.status == "ok":
                if mine != alone[i]:
                    bad("silently-wrong", "job %d (%s) reported success beside the others, faults %r: %s"
                        % (i, spec["jobs"][i][0], plan, scen.diff(alone[i], {k: v for k, v in mine.items() if v is not None})))
                    return
            elif p.status == "failed" and str(i) not in plan:
                bad("failed", "job %d (%s) failed with no fault of its own: %s" % (i, spec["jobs"][i][0], p.error))
                return
            elif p.status not in ("failed", "crashed"):
                bad("bad-end", "job %d ended as %s" % (i, p.status))
                return
        if d.out() != before:
            bad("input-touched", "the inputs were changed")
            return
        for i, p in enumerate(s.procs):
            if p.status != "ok":
                q = d.run1("tracking_qc", argv[i])
                if q.status != "ok":
                    bad("rerun-failed", "job %d (%s) after %r: %s" % (i, spec["jobs"][i][0], plan.get(str(i)), q.error))
                    return
        want = {}
        for a in alone:
            want.update(a)
        x = scen.diff(want, d.track())
        if x:
            bad("rerun-differs", "after faults %r and reruns: %s" % (plan, x))
            return
        T.key(plan, s.made, [p.status for p in s.procs], [j[0] for j in spec["jobs"]])
        if len(T.samples) < 3:
            T.samples.append("%d jobs, faults %r -> %r" % (len(argv), plan, [p.status for p in s.procs]))
