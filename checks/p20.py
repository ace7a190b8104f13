"""Runs with different run IDs and parameters share a deployment without mixing."""
import os

from sim import cluster, scen, world

ID, TITLE = "P20", "Runs under different run IDs in one deployment keep apart"
CASES = {"quick": 56, "thorough": 3000}
RULE = ("one evaluation = the whole pipelines (monthly QC with tracking, wrapper, jobs) of 2-3 configurations with different run "
        "IDs and parameters over the same folders, stage by stage side by side under a seeded schedule or one pipeline after "
        "the other, with jobs and wrappers of one of them killed or failing, and some of its files taken away before its jobs; all files of the others and their job scripts "
        "byte for byte as when each is alone in the deployment; distinct by configurations, schedule and faults")
RUNIDS = ["base", "bas", "base2", "2base", "Base", "ba.e", "b", "base-1", "7"]


def gen(rng, tier):
    n = rng.choice([1, 2, 2, 3])
    win = scen.window(rng, scen.YEARS, n, edgy=0.5)
    spec = scen.make(rng, win, {"ships": rng.randrange(0, 2), "drifters": rng.randrange(1, 4), "others": 0,
                                "reports": rng.choice([4, 12]), "oddids": rng.choice([0, 0.5])}, bgforms=("bz2", "plain"))
    ids = rng.sample(RUNIDS, rng.choice([2, 2, 3]))
    spec["params"] = {"runid": ids[0]}
    spec["configs"] = {}
    for i in ids[1:]:
        c = {"runid": i}
        if rng.random() < 0.7:
            c["SST"] = dict(world.PARAMS["SST"], maximum_anomaly=rng.choice([1.0, 3.0]), hard_limits=[0.0, 20.0])
            c["AT"] = dict(world.PARAMS["AT"], maximum_anomaly=2.0, hard_limits=[5.0, 20.0])
        if rng.random() < 0.7:
            c["new_buoy_aground_check"] = {"smooth_win": 1, "min_win_period": 1}
            c["buoy_bias_noise_check"] = dict(world.PARAMS["buoy_bias_noise_check"], n_eval=2, bias_lim=0.2)
        spec["configs"]["other%d" % len(spec["configs"])] = c
    names = ["configuration"] + sorted(spec["configs"])
    spec["runs"] = [[c, rng.choice(["marine_qc", "marine_qc_track_only"]), rng.choice([1, 2, 3]), rng.choice(["all", "all", "noend"])]
                    for c in names]
    spec["hires"] = [c for c in names if rng.random() < 0.3]
    spec["rounds"] = [[rng.choice(["beside", "beside", "turns"]), rng.randrange(10 ** 9), rng.choice([0.05, 0.3, 0.8]),
                       rng.random() < 0.5] for _ in range(3)]
    # files that someone took away between the wrapper and the jobs: [configuration, which of its files]
    spec["lost"] = [[rng.choice(names), rng.random()] for _ in range(rng.choice([0, 0, 1, 2, 4]))]
    spec["knobs"] = scen.knobs(rng)
    return spec


def lose(d, spec, runs):
    """Takes spec["lost"] of these configurations away."""
    for conf, at in spec.get("lost", []):
        if conf in [r[0] for r in runs]:
            c = spec["configs"].get(conf, spec["params"])
            found = sorted(os.path.join(a, f) for top in ("out", "track") for a, _, fs in os.walk(d.root + "/" + top) for f in fs
                           if f.endswith("_%s.csv" % c["runid"]))
            if found:
                os.remove(found[int(at * len(found))])


def procs(d, spec, stage, run, jobs):
    """[(name, program, arguments)] of one configuration in one stage."""
    conf, prog, gap, mode = run
    path = "%s/etc/%s.txt" % (d.root, conf)

    def args(a):
        a = list(a)
        a[a.index("-config") + 1] = path
        return a
    if stage == 0:
        out = [(conf + ":m", prog, args(d.month_args(*spec["win"], True)))]
        if conf in spec["hires"]:
            out.append((conf + ":h", "marine_qc_hires", args(d.month_args(*spec["win"], True))))
        return out
    if stage == 1:
        return [(conf + ":w", "Tracking_QC_wrapper", args(cluster.args(d, spec["win"], gap, mode)))]
    return [("%s:t%d" % (conf, i), "tracking_qc", a) for i, a in enumerate(jobs[conf])]


def together(T, d, spec, runs, traces, seed=None, pr=0.2, plan=None, switches=None, made=None, failing=None):
    """The stages of several configurations side by side; None, or what went wrong.

    `failing`: the processes that fail in the end when their configuration is alone; without it they are noted in `traces`.
    """
    plan = plan or {}
    jobs = {}
    for stage in (0, 1, 2):
        todo = [p for r in runs for p in procs(d, spec, stage, r, jobs)]
        if stage == 2:                                # jobs of all of them mixed
            lose(d, spec, runs)
            todo.sort(key=lambda p: p[0].split(":")[::-1])
        for k in range(0, max(1, len(todo)), 8):
            n = len(made) if made is not None else 0
            sw = switches[n] if switches else None
            s = d.sim(sched_seed=(seed + 10 * stage + k) if seed is not None and sw is None else None, switches=sw, switch_p=pr)
            s.cluster = cluster.Cluster()
            ps = []
            for name, prog, argv in todo[k:k + 8]:
                ps.append(s.spawn(name, prog, argv, d.env(), plan.get(name)))
            if ps:
                s.run()
            if made is not None:
                made.append([list(x) for x in s.made])
            for (name, prog, argv), p in zip(todo[k:], ps):
                traces[name] = p.trace
                if failing is None:
                    if p.status != "ok" and stage == 2 and spec.get("lost"):
                        traces[name + "!"] = p.status
                        continue
                elif p.status != "ok" and name in failing:
                    continue
                if p.status != "ok" and name not in plan:
                    return "%s with no fault of its own: %s" % (name, p.error)
            if stage == 1:
                for r in runs:
                    jobs[r[0]] = []
                for j in s.cluster.jobs:
                    p = cluster.parse_script(j["text"])
                    if p is None:
                        return "job %r" % j["text"]
                    o = cluster.opts(p[0])
                    c = [r[0] for r in runs if o.get("-config") == ["%s/etc/%s.txt" % (d.root, r[0])]]
                    if len(c) != 1:
                        return "a job is for configuration %r" % o.get("-config")
                    jobs[c[0]].append(p[0])
    return None


def run(spec, T):
    d = T.deploy(spec)
    alone, traces = {}, {}
    for r in spec["runs"]:
        d.reset()
        x = together(T, d, spec, [r], traces)
        if x:
            T.fail("clean-run-failed", x)
            return
        alone[r[0]] = files(d)
    failing = {t[:-1] for t in traces if t.endswith("!")}
    traces = {t: x for t, x in traces.items() if not t.endswith("!")}
    if "plans" not in spec:
        rng = scen.rng_of(spec, "plans")
        spec["plans"] = []
        for how, seed, pr, hurt in spec["rounds"]:
            plan = {}
            if hurt:                                  # of one configuration only, and not where it writes the ID lists
                c = rng.choice(spec["runs"])[0]
                for name in sorted(t for t in traces if t.startswith(c + ":") and t[len(c) + 1] in "wt"):
                    if rng.random() < 0.5:
                        pts = scen.pick_points(rng, traces[name], 1)
                        plan[name] = [scen.crash_at(rng, p) if rng.random() < 0.6 else scen.error_at(rng, p) for p in pts]
            spec["plans"].append(plan)
        spec["switchlists"] = [None] * len(spec["plans"])
    for n, plan in enumerate(spec["plans"]):
        how, seed, pr, _ = spec["rounds"][min(n, len(spec["rounds"]) - 1)]
        sw = spec["switchlists"][n]
        d.reset()
        made, t = [], {}
        if how == "turns":
            order = list(spec["runs"])
            scen.rng_of({"case": seed}, "order").shuffle(order)
            x = None
            for r in order:
                x = x or together(T, d, spec, [r], t, plan=plan, failing=failing)
        else:
            x = together(T, d, spec, spec["runs"], t, seed, pr, plan, sw, made, failing)
        kind = "failed"
        if x is None:
            kind, got = "mixed", files(d)
            hurt = {k.split(":")[0] for k in plan}
            theirs = {f for c in alone for f in alone[c]}
            for c in alone:
                if c not in hurt:
                    x = x or scen.diff(alone[c], {k: v for k, v in got.items() if k in alone[c]})
            extra = sorted(set(got) - theirs)
            if x is None and extra and not hurt:
                x = "%s is written by no one alone" % extra[0]
        if x:
            spec["plans"], spec["rounds"] = [plan], [[how, seed, pr, bool(plan)]]
            spec["switchlists"] = [sw if sw is not None else made if how == "beside" and kind == "mixed" else None]
            T.fail(kind, "%s, faults %r: %s" % (how, plan, x))
            return
        T.key(spec["runs"], spec["configs"], how, plan, made)
    T.count("configurations", len(alone))
    if len(T.samples) < 3:
        T.samples.append("%s %r run IDs %r" % (spec["win"], spec["runs"], [spec["params"]["runid"]] +
                                               [c["runid"] for c in spec["configs"].values()]))


def files(d):
    out = {"out/" + k: v for k, v in d.out().items()}
    out.update(("track/" + k, v) for k, v in d.track().items())
    return out
