"""The wrapper submits exactly the chunks its mode asks for, each as one right job."""
from sim import cluster, scen, world

ID, TITLE = "P11", "The wrapper submits exactly the chunks that its mode calls for"
CASES = {"quick": 9000, "thorough": 200000}
RULE = ("one case = one run of the wrapper over generated ID lists (1-40 months, 1-6 platforms, gaps about the critical "
        "length anywhere, IDs with shell characters) in one of the four modes; the jobs that reach the cluster, as their "
        "scripts' commands parse in a shell, against a reference model of the chunks; distinct by lists, gap and mode")


def gen(rng, tier):
    n = rng.choice([1, 2, 5, 12, 20, 30, 40])
    win = scen.window(rng, [1985, 1999, 2004, 2011], n)
    gap = rng.choice([1, 2, 3, 3, 4, 6, 11, 12, 13])
    ids = cluster.some_ids(rng, rng.choice([1, 2, 4, 6]) if rng.random() < 0.99 else rng.choice([40, 130]))
    return {"win": list(win), "gap": gap, "mode": rng.choice(["all", "standard", "new", "noend"]), "files": {}, "bg": {},
            "ids": {i: cluster.series(rng, n, gap) for i in ids}}


def shrinks(spec):
    for i in sorted(spec["ids"]):
        if len(spec["ids"]) > 1:
            c = scen.clone(spec)
            del c["ids"][i]
            yield c


def run(spec, T):
    d = T.deploy(spec)
    win, gap, mode = spec["win"], spec["gap"], spec["mode"]
    cluster.write_ids(d.root, win, spec["ids"])
    before = d.out()
    s = d.sim()
    s.cluster = cluster.Cluster()
    p = s.spawn("w", "Tracking_QC_wrapper", cluster.args(d, win, gap, mode), d.env())
    s.run()
    if p.status != "ok":
        T.fail("failed", "%s: %s" % (p.status, p.error))
        return
    got = cluster.submitted(s.cluster.jobs, d.conf, cluster.runmonthid(win))
    if isinstance(got, str):
        T.fail("bad-job", got)
        return
    want = cluster.expected(win, spec["ids"], gap, mode)
    if got != want:
        T.fail("chunks", "mode %s, gap %d: missing %r, extra %r" % (mode, gap, [w for w in want if w not in got][:3],
                                                                   [g for g in got if g not in want][:3]))
        return
    if d.out() != before:
        T.fail("input-touched", "the wrapper changed the ID lists")
        return
    paths = [j["path"] for j in s.cluster.jobs]
    if len(set(paths)) != len(paths):
        T.fail("same-script", "two jobs have the same script: %r" % (paths,))
        return
    outs = [cluster.parse_script(j["text"])[1] for j in s.cluster.jobs]
    for o in outs:
        if o is None or not o.startswith(d.root + "/track/"):
            T.fail("log-place", "a job's output goes to %r" % (o,))
            return
    T.count("chunks", len(want))
    T.key(win, gap, mode, sorted(spec["ids"].items()))
    T.samples.append("%s gap %d %s: %d chunks" % (win, gap, mode, len(want)))
