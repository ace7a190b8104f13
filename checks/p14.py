"""History, then month by month: each chunk is quality controlled exactly once."""
from collections import Counter

from sim import cluster, scen, world

ID, TITLE = "P14", "History with noend, then new each month, takes every chunk exactly once"
CASES = {"quick": 4000, "thorough": 100000}
RULE = ("one case = a wrapper run with noend up to some month, then one with new for every month after it as the series grows "
        "(some of those killed before their first submission and run again); the chunks submitted in all are exactly the "
        "ended chunks of the whole series, once each and whole; distinct by series, gap and months")


def gen(rng, tier):
    n = rng.choice([6, 10, 16, 26])
    gap = rng.choice([1, 2, 3, 3, 4, 6, 12])
    win = scen.window(rng, [1985, 1999, 2004, 2011], n)
    ids = cluster.some_ids(rng, rng.choice([1, 2, 4]) if rng.random() < 0.99 else 60, 0.2)
    return {"win": list(win), "gap": gap, "hist": rng.randrange(1, n), "files": {}, "bg": {},
            "ids": {i: cluster.series(rng, n, gap) for i in ids},
            "again": [i for i in range(n) if rng.random() < 0.15]}


def shrinks(spec):
    for i in sorted(spec["ids"]):
        if len(spec["ids"]) > 1:
            c = scen.clone(spec)
            del c["ids"][i]
            yield c


def run(spec, T):
    d = T.deploy(spec)
    ms = world.months(*spec["win"])
    gap = spec["gap"]
    cluster.write_ids(d.root, spec["win"], spec["ids"])
    done = Counter()
    for k in range(spec["hist"], len(ms) + 1):
        win = list(ms[0]) + list(ms[k - 1])
        mode = "noend" if k == spec["hist"] else "new"
        if k in spec["again"]:               # killed while it reads the ID lists
            s = d.sim()
            c = s.cluster = cluster.Cluster()
            s.spawn("w", "Tracking_QC_wrapper", cluster.args(d, win, gap, mode), d.env(), [{"op": min(k, 3), "kind": "crash"}])
            s.run()
            if c.jobs:
                continue
        s = d.sim()
        s.cluster = cluster.Cluster()
        p = s.spawn("w", "Tracking_QC_wrapper", cluster.args(d, win, gap, mode), d.env())
        s.run()
        if p.status != "ok":
            T.fail("failed", "%s %s: %s" % (mode, win, p.error))
            return
        got = cluster.submitted(s.cluster.jobs, d.conf, cluster.runmonthid(win))
        if isinstance(got, str):
            T.fail("bad-job", got)
            return
        for g in got:
            done[g[:5]] += 1
    want = Counter()
    for i in spec["ids"]:
        for a, b, cl in cluster.chunks(ms, spec["ids"][i], gap):
            if len(ms) - 1 - ms.index(b) >= gap:
                want[(i.rstrip(),) + a + b] += 1
    if done != want:
        T.fail("not-once", "gap %d, noend to %r, then new: lacks %r, has too many of %r"
               % (gap, ms[spec["hist"] - 1], list((want - done))[:3], list((done - want))[:3]))
        return
    T.count("chunks", sum(want.values()))
    T.key(spec["win"], gap, spec["hist"], sorted(spec["ids"].items()))
    T.samples.append("%s gap %d, history to %r: %d chunks" % (spec["win"], gap, ms[spec["hist"] - 1], sum(want.values())))
