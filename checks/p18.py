"""From the archive to the tracking QC: every drifter report comes out exactly once, whatever goes on in between."""
from collections import Counter

from sim import cluster, model, scen, trackin, world

ID, TITLE = "P18", "End to end, each drifter report is tracking-QCd exactly once"
CASES = {"quick": 44, "thorough": 4000}
RULE = ("one evaluation = one whole pipeline (monthly QC with tracking in 1-3 runs side by side, the wrapper in mode all, its "
        "jobs as the cluster would run them, in any order and side by side), undisturbed or with crashes and failing "
        "submissions in any stage and that stage run again; outputs against the archive and, disturbed, against the "
        "undisturbed ones byte for byte; distinct by archive, schedule and faults")
ROUNDS = 2


def gen(rng, tier):
    n = rng.choice([1, 2, 3, 4, 5])
    win = scen.window(rng, scen.YEARS, n, edgy=0.6)
    spec = scen.make(rng, win, {"ships": 1, "drifters": rng.randrange(1, 5), "others": 0, "reports": rng.choice([3, 8]),
                                "dups": 0, "oddids": rng.choice([0, 0.5]), "big": 0.03, "gross": rng.choice([0, 0.1])},
                     bgforms=("bz2", "plain"))
    ids = sorted({r["ID"] for k in spec["files"] for f in spec["files"][k] for r in f["lines"] if r.get("PT") == 7})
    for k in sorted(spec["files"]):
        for i in ids:
            if rng.random() < 0.3:
                for f in spec["files"][k]:
                    f["lines"] = [r for r in f["lines"] if r.get("ID") != i]
    spec["gap"] = rng.choice([1, 1, 2, 3])
    spec["program"] = rng.choice(["marine_qc", "marine_qc_track_only", "marine_qc_track_only"])
    cuts = [i for i in range(1, n) if rng.random() < 0.4]
    spec["cuts"] = cuts
    spec["rounds"] = [[rng.randrange(10 ** 9), rng.choice([0.05, 0.3, 0.8]), rng.random() < 0.7] for _ in range(ROUNDS)]
    spec["knobs"] = scen.knobs(rng)
    spec["params"] = {"runid": scen.runid(rng)}
    return spec


def stages(spec):
    ms = world.months(*spec["win"])
    b = [0] + list(spec["cuts"]) + [len(ms)]
    return [list(ms[i]) + list(ms[j - 1]) for i, j in zip(b, b[1:]) if i < j]


def pipeline(T, d, spec, seed=None, pr=0.2, plan=None, switches=None, made=None):
    """Runs everything; plan: {stage: {process: [faults]}, "fail": [sbatch calls]}. Returns (jobs, traces) or None."""
    plan = plan or {}
    traces = []

    def stage(n, procs):
        """procs: [(name, program, argv)]; run together, what did not succeed again, alone."""
        sw = switches[n] if switches else None
        s = d.sim(sched_seed=(seed + n) if seed is not None and sw is None else None, switches=sw, switch_p=pr)
        s.cluster = cluster.Cluster({"fail": plan.get("fail", []), "status": plan.get("status", 1)})
        for name, prog, argv in procs:
            s.spawn(name, prog, argv, d.env(), plan.get(str(n), {}).get(name),
                    holds=plan.get("holds", {}).get(str(n), {}).get(name))
        s.run()
        if made is not None:
            made.append([list(x) for x in s.made])
        jobs = s.cluster.jobs
        for (name, prog, argv), p in zip(procs, s.procs):
            traces.append((n, name, p.trace))
            if p.status == "ok":
                continue
            if name not in plan.get(str(n), {}) and not (prog == "Tracking_QC_wrapper" and plan.get("fail")):
                T.fail("failed", "stage %d, %s with no fault of its own: %s" % (n, name, p.error))
                return None
            s2 = d.sim()
            s2.cluster = cluster.Cluster()
            q = s2.spawn(name, prog, argv, d.env())
            s2.run()
            if q.status != "ok":
                T.fail("rerun-failed", "stage %d, %s after %r: %s" % (n, name, plan, q.error))
                return None
            jobs = s2.cluster.jobs
        return jobs
    if stage(0, [("m%d" % i, spec["program"], d.month_args(*w, True)) for i, w in enumerate(stages(spec))]) is None:
        return None
    jobs = stage(1, [("w", "Tracking_QC_wrapper", cluster.args(d, spec["win"], spec["gap"], "all"))])
    if jobs is None:
        return None
    procs = []
    for i, j in enumerate(jobs):
        p = cluster.parse_script(j["text"])
        if p is None:
            T.fail("bad-job", j["text"])
            return None
        procs.append(("t%d" % i, "tracking_qc", p[0]))
    for a in range(0, len(procs), 8):
        if stage(2 + a // 8, procs[a:a + 8]) is None:
            return None
    return jobs, traces


def month_flags(out, y, m, ident):
    k = world.key(y, m)
    res = {}
    for b in ("POS", "SST"):
        name = "%d/%02d/%s_qc_%s_%s_%s.csv" % (y, m, b, k, model.safe(ident), model.RUNID)
        head, body = world.parse_csv(out[name])
        for row in body:
            res.setdefault(row[0].ljust(6), {})[b.lower()] = {h: int(v) for h, v in zip(head[1:], row[1:])}
    return res


def run(spec, T):
    d = T.deploy(spec)
    r = pipeline(T, d, spec)
    if r is None:
        return
    jobs, traces = r
    win = spec["win"]
    ms = world.months(*win)
    out, track = d.out(), d.track()
    dr = [model.drifters(spec, *ym) for ym in ms]
    ids = sorted({i for x in dr for i in x})
    has = {i: [int(i in x) for x in dr] for i in ids}
    want = cluster.expected(win, has, spec["gap"], "all")
    got = cluster.submitted(jobs, d.conf, cluster.runmonthid(win))
    if got != want:
        T.fail("chunks", "jobs %r instead of %r" % (got, want))
        return
    files = {k: v for k, v in track.items() if not k.startswith(("TrackingQC/jobs/", "TrackingQC/logs/"))}
    left = set(files)
    seen = Counter()
    total = Counter()
    for i in ids:
        for a, b, cl in cluster.chunks(ms, has[i], spec["gap"]):
            reps = []
            for ym in ms[ms.index(a):ms.index(b) + 1]:
                rs = model.drifters(spec, *ym).get(i, [])
                if not rs:
                    continue
                fl = month_flags(out, ym[0], ym[1], i)
                if any(q["UID"] not in fl for q in rs):
                    T.fail("name-shared" if len({model.safe(j) for j in ids}) < len(ids) else "flags-missing",
                           "the files of %s in %r lack %r" % (i, ym, [q["UID"] for q in rs if q["UID"] not in fl][:3]))
                    return
                for q in rs:
                    v = model.variables(spec, q, "drifter", True)
                    reps.append(dict(v, **fl[q["UID"]]))
            for q in reps:
                total[q["UID"]] += 1
            for f in trackin.output(b, i, cl, cluster.runmonthid(win)):
                if f not in files:
                    T.fail("file-missing", "no %s" % f)
                    return
                left.discard(f)
                if not trackin.check_output(T, files[f], f, reps, None):
                    return
                check_filters(T, files[f], f, reps)
                if T.viol:
                    return
            for q in reps:
                seen[q["UID"]] += 1
    if left:
        T.fail("file-extra", "files %r" % sorted(left)[:4])
        return
    T.count("drifter_reports", sum(total.values()))
    T.count("chunks", len(want))
    if "plans" not in spec:
        rng = scen.rng_of(spec, "plans")
        spec["plans"] = []
        for seed, pr, hurt in spec["rounds"]:
            plan = {}
            if hurt:
                for n, name, tr in rng.sample(traces, min(len(traces), rng.randrange(1, 4))):
                    for p in scen.pick_points(rng, tr, 1):
                        plan.setdefault(str(n), {})[name] = [scen.crash_at(rng, p) if rng.random() < 0.6
                                                             else scen.error_at(rng, p)]
                if rng.random() < 0.3 and want:
                    plan["status"] = rng.choice(scen.STATUS)
                    plan["fail"] = [rng.randrange(len(want))]
            by = {}
            for n, name, tr in traces:
                by.setdefault(n, []).append((name, tr))
            n = rng.choice(sorted(by))
            h = scen.holds(rng, [tr for _, tr in by[n]], rng.choice([0, 1, 2]))
            if h:
                plan["holds"] = {str(n): {by[n][int(i)][0]: x for i, x in h.items()}}
            spec["plans"].append(plan)
        spec["switchlists"] = [None] * len(spec["plans"])
    for n, plan in enumerate(spec["plans"]):
        seed, pr, _ = spec["rounds"][min(n, len(spec["rounds"]) - 1)]
        sw = spec["switchlists"][n]
        d.reset()
        made = []
        before = len(T.viol)
        r = pipeline(T, d, spec, seed, pr, plan, sw, made)
        x = None
        if r is not None:
            x = scen.diff(out, d.out()) or scen.diff(files, {
                k: v for k, v in d.track().items() if not k.startswith(("TrackingQC/jobs/", "TrackingQC/logs/"))})
            if x:
                T.fail("differs", "after %r and what failed run again: %s" % (plan, x))
        if len(T.viol) > before:
            spec["plans"] = [plan]
            if sw is None and len(made) >= 2 and x:
                spec["switchlists"] = [made]
            else:
                spec["switchlists"] = [sw]
            spec["rounds"] = [[seed, pr, bool(plan)]]
            return
        T.key(plan, made, sorted(files.items()))
    if len(T.samples) < 3:
        T.samples.append("%s %s, %d drifters, %d chunks, %d runs by month, faults %r" % (
            spec["program"], win, len(ids), len(want), len(stages(spec)), spec["plans"]))


def check_filters(T, data, where, reps):
    """Flags of reports that are not eligible are 'not checked', those of eligible reports are not."""
    head, body = world.parse_csv(data)
    by = {b[0].ljust(6): dict(zip(head, b)) for b in body}
    for r in reps:
        g = by[r["UID"]]
        ok = trackin.passes_track(r)
        for f in trackin.TPOS:
            if (g[f] == "9") == ok:
                T.fail("eligible-" + f, "%s, report %s: %s is %s" % (where, r["UID"], f, g[f]))
                return
        ok = ok and trackin.passes_sst(r) and g["drf_agr"] == "0" and g["drf_spd"] == "0"
        for f in ("drf_tail1", "drf_tail2"):
            if (g[f] == "9") == ok:
                T.fail("eligible-" + f, "%s, report %s: %s is %s" % (where, r["UID"], f, g[f]))
                return
        ok = ok and g["drf_tail1"] == "0" and g["drf_tail2"] == "0"
        for f in ("drf_bias", "drf_noise", "drf_short"):
            if (g[f] == "9") == ok:
                T.fail("eligible-" + f, "%s, report %s: %s is %s" % (where, r["UID"], f, g[f]))
                return
