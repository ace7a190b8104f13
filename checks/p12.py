"""The wrapper keeps the user's queue at its cap, and never waits for longer than it has to."""
from sim import cluster, scen

ID, TITLE = "P12", "The wrapper respects the queue limit and always finishes"
CASES = {"quick": 1200, "thorough": 60000}
RULE = ("one case = 1-3 wrappers over a simulated cluster whose queue is about the limit (jobs of the same user and of others "
        "come and go, jobs last from seconds to days); at every submission but a wrapper's first, the queue as it last "
        "looked was at most 250; once it stays there the next submission comes within 30 simulated seconds; every wrapper "
        "ends when the queue drains, with all its chunks submitted; distinct by queue history and submissions")
LIMIT, SLACK = 250, 30.0


def gen(rng, tier):
    wr = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        n = rng.choice([5, 12, 24])
        win = scen.window(rng, [1985, 1999, 2004], n)
        ids = cluster.some_ids(rng, rng.choice([1, 3, 5]), 0.1)
        wr.append({"win": list(win), "gap": 1, "mode": rng.choice(["all", "all", "noend"]),
                   "ids": {i: cluster.series(rng, n, 1) for i in ids}})
    base = rng.choice([0, 200, 240, 245, 247, 248, 249, 250, 250, 251, 255, 400])
    last = rng.choice([5, 40, 300, 5000, 90000])
    user = []
    for _ in range(base):
        a = rng.choice([0, 0, 0, 0, rng.uniform(0, last)])
        user.append([round(a, 3), round(a + rng.uniform(0, last), 3)])
    plan = {"user": user, "others": rng.choice([0, 3, 260]),
            "durations": [round(rng.choice([0.5, 19.0, 25.0, 400.0, 20000.0]) * rng.uniform(0.5, 1.5), 3)
                          for _ in range(rng.randrange(1, 6))]}
    return {"wrappers": wr, "plan": plan, "files": {}, "bg": {}, "seed": rng.randrange(10 ** 9),
            "p": rng.choice([0.1, 0.5, 1.0])}


def shrinks(spec):
    if len(spec["wrappers"]) > 1:
        for i in range(len(spec["wrappers"])):
            c = scen.clone(spec)
            del c["wrappers"][i]
            c.pop("switches", None)
            yield c
    u = spec["plan"]["user"]
    step = max(1, len(u) // 2)
    while step >= 1 and u:
        for a in range(0, len(u), step):
            c = scen.clone(spec)
            c["plan"]["user"] = u[:a] + u[a + step:]
            yield c
        if step <= 8:
            break
        step //= 2


def run(spec, T):
    d = T.deploy(spec)
    sw = spec.get("switches")
    s = d.sim(sched_seed=None if sw is not None else spec["seed"], switches=sw, switch_p=spec["p"])
    c = s.cluster = cluster.Cluster(spec["plan"])
    want = []
    for n, w in enumerate(spec["wrappers"]):
        root = "%s/w%d" % (d.root, n)
        sub(d, root, n)
        cluster.write_ids(root, w["win"], w["ids"])
        a = cluster.args(d, w["win"], w["gap"], w["mode"])
        a[1] = root + "/etc/configuration.txt"
        s.spawn("w%d" % n, "Tracking_QC_wrapper", a, d.env())
        want.append(cluster.expected(w["win"], w["ids"], w["gap"], w["mode"]))
    s.run()

    def bad(kind, text):
        if sw is None:
            spec["switches"] = [list(x) for x in s.made]
        T.fail(kind, text)
    for n, p in enumerate(s.procs):
        w = spec["wrappers"][n]
        if p.status != "ok":
            bad("no-end" if p.status == "hung" else "failed", "wrapper %d: %s %s" % (n, p.status, p.error))
            return
        mine = [j for j in c.jobs if j["by"] == p.name]
        got = cluster.submitted(mine, "%s/w%d/etc/configuration.txt" % (d.root, n), cluster.runmonthid(w["win"]))
        if got != want[n]:
            bad("chunks", "wrapper %d submitted %r instead of %r" % (n, got, want[n]))
            return
        for a, b in zip(mine, mine[1:]):
            seen = [q for q in c.polls[a["after"]:b["after"]] if q[2] == p.name]
            if not seen:
                bad("not-looked", "wrapper %d submitted %s without a look at the queue" % (n, b["path"]))
                return
            if seen[-1][1] > LIMIT:
                bad("over-limit", "wrapper %d submitted %s with %d jobs in the queue" % (n, b["path"], seen[-1][1]))
                return
            t = settled(c, a["t"], b["t"])
            if b["t"] > max(t, a["t"]) + SLACK + 0.01 * len(s.procs) * 50:
                bad("late", "wrapper %d submitted %s at %.1f s, the queue being free since %.1f s" % (n, b["path"], b["t"], t))
                return
        T.count("waits", sum(1 for q in c.polls if q[1] > LIMIT and q[2] == p.name))
    for q in c.jobs:
        if q["queued"] + 1 > LIMIT + 2 * len(s.procs) and len(spec["plan"]["user"]) <= LIMIT:
            bad("over-limit", "%s makes %d jobs in the queue" % (q["path"], q["queued"] + 1))
            return
    T.key([(round(t, 1), k) for t, k, _ in c.polls])
    T.samples.append("%d wrappers, %d submissions, at most %d queued, %d looks" % (
        len(s.procs), len(c.jobs), max([q["queued"] for q in c.jobs] or [0]), len(c.polls)))


def sub(d, root, n):
    """A configuration of its own for one of several wrappers: other outputs, the same job folder."""
    from sim import world
    with open(d.conf) as f:
        t = f.read()
    t = t.replace("out_dir = %s/out" % d.root, "out_dir = %s/out" % root, 1)
    world.put(root + "/etc/configuration.txt", t.encode())


def settled(c, t0, t1):
    """The time from which the queue stayed at or below the limit until t1 (looking no further back than t0)."""
    ev = sorted({t0} | {x for a, b in c.user for x in (a, b) if t0 < x < t1} |
                {x for j in c.jobs for x in (j["t"], j["end"]) if t0 < x < t1})
    t = t0
    for i, e in enumerate(ev):
        nxt = ev[i + 1] if i + 1 < len(ev) else t1
        if c.load(e) > LIMIT:
            t = nxt
    return t
