"""A run over a long period needs no more at a time than runs over its months."""
import gc

from sim import boot, cluster, ncstub, scen, world

ID, TITLE = "P21", "Long periods need no more files, fields and objects at a time than a month"
CASES = {"quick": 24, "thorough": 1500}
RULE = ("one case = a monthly QC (or wrapper, or tracking QC job) over 6-12 months (the wrapper: 20-60) and the same program "
        "over each of its months alone, with the open files, the fields in memory, and the reports and platforms in memory "
        "counted throughout, then the long run once more under the limits that the months set "
        "(opening more files fails with EMFILE); distinct by program, archive and window")


def gen(rng, tier):
    prog = rng.choice(["marine_qc", "marine_qc", "marine_qc_track_only", "marine_qc_track_only", "marine_qc_hires",
                       "Tracking_QC_wrapper", "tracking_qc", "tracking_qc"])
    spec = {"program": prog, "knobs": scen.knobs(rng)}
    if prog == "Tracking_QC_wrapper":
        n = rng.choice([20, 40, 60])
        win = scen.window(rng, scen.YEARS, n)
        spec.update(win=list(win), gap=rng.choice([1, 2, 6]), files={}, bg={},
                    ids={i: cluster.series(rng, n, 2) for i in cluster.some_ids(rng, rng.choice([1, 3]), 0.2)})
        return spec
    n = rng.choice([8, 8, 12])
    win = scen.window(rng, scen.YEARS, n)
    spec.update(scen.make(rng, win, {"ships": rng.randrange(0, 4), "drifters": rng.randrange(1, 4),
                                     "others": rng.randrange(0, 2), "reports": rng.choice([6, 12]), "dups": 0, "big": 0},
                          bgforms=("bz2", "plain")))
    spec["tracking"] = prog != "marine_qc" or rng.random() < 0.6
    return spec


class Watch:
    """What a process holds at each of its operations, at most."""

    def __init__(self, objects=True):
        self.objects = objects
        self.files = self.fields = self.reports = 0
        self.base = ncstub.fields_alive()

    def __call__(self, sim, p, kind, what):
        self.files = max(self.files, p.open_files())
        self.fields = max(self.fields, ncstub.fields_alive() - self.base)
        if self.objects and (kind == "open_r" and "/arch/" in what or kind == "open_w"):
            if kind == "open_w" and "Variables" not in what and "ID_file" not in what:
                return
            gc.collect()
            self.reports = max(self.reports, sum(1 for o in gc.get_objects() if type(o).__module__ in boot.REPO_NAMES))


def measured(d, prog, argv, jobs=None, objects=True, maxfiles=None):
    w = Watch(objects)
    s = d.sim(max_steps=10 ** 7, max_proc_ops=10 ** 7, knobs={"maxfiles": maxfiles})
    s.cluster = cluster.Cluster()
    s.invariant = w
    p = s.spawn(prog, prog, argv, d.env())
    gc.collect()
    gc.freeze()
    try:
        s.run()
    finally:
        gc.unfreeze()
    if jobs is not None:
        jobs += s.cluster.jobs
    return p, w


def run(spec, T):
    d = T.deploy(spec)
    prog, win = spec["program"], spec["win"]
    ms = world.months(*win)
    single = [list(m) + list(m) for m in ms]
    if prog == "Tracking_QC_wrapper":
        def todo(w):
            cluster.write_ids(d.root, win, spec["ids"])
            return [cluster.args(d, w, spec["gap"], "all")]
        single = single[::7]
    elif prog == "tracking_qc":
        def todo(w):
            p = d.run1("marine_qc_track_only", d.month_args(*w, True), max_steps=10 ** 7, max_proc_ops=10 ** 7)
            s = d.sim()
            s.cluster = cluster.Cluster()
            q = s.spawn("w", "Tracking_QC_wrapper", cluster.args(d, w, 12, "all"), d.env())
            s.run()
            if p.status != "ok" or q.status != "ok":
                return None
            return [cluster.parse_script(j["text"])[0] for j in s.cluster.jobs]
        single = single[::3]
    else:
        def todo(w):
            return [d.month_args(*w, spec["tracking"])]
    top = None
    for w in single:
        d.reset()
        argvs = todo(w)
        if argvs is None:
            T.fail("clean-run-failed", "what comes before %s of %r" % (prog, w))
            return
        for a in argvs:
            p, x = measured(d, prog, a, objects=prog.startswith("marine"))
            if p.status != "ok":
                T.fail("clean-run-failed", "%s of %r: %s" % (prog, w, p.error))
                return
            v = (x.files, x.fields, x.reports)
            top = v if top is None else tuple(map(max, top, v))
    if top is None:
        return
    d.reset()
    argvs = todo(win)
    if argvs is None:
        T.fail("clean-run-failed", "what comes before %s of %r" % (prog, win))
        return
    for a in argvs:
        p, x = measured(d, prog, a, objects=prog.startswith("marine"))
        if p.status != "ok":
            T.fail("clean-run-failed", "%s of %r: %s" % (prog, win, p.error))
            return
        for kind, got, short, most in (("files", x.files, top[0], top[0] + 2), ("fields", x.fields, top[1], top[1] + 6),
                                       ("objects", x.reports, top[2], 2 * top[2] + 60)):
            if got > most:
                T.fail(kind, "%s over %d months holds %d %s at a time, over one month at most %d"
                       % (prog, len(ms), got, NAMES[kind], short))
                return
        T.count("long_runs")
        T.count("operations", p.nops)
    if prog != "tracking_qc":
        before = (d.out(), d.track())
        d.reset()
        argvs = todo(win)
        for a in argvs:
            p, x = measured(d, prog, a, objects=False, maxfiles=top[0] + 3)
            if p.status != "ok" or (d.out(), d.track()) != before:
                T.fail("limited", "%s over %d months with at most %d files open at a time: %s"
                       % (prog, len(ms), top[0] + 3, p.error or "other output"))
                return
    T.key(prog, win, len(spec["files"]), top)
    if len(T.samples) < 3:
        T.samples.append("%s over %d months: open files, fields, objects of one month at most %r" % (prog, len(ms), top))


NAMES = {"files": "open files", "fields": "fields in memory", "objects": "reports and other objects"}
