"""The order in which different platforms' reports arrive decides nothing."""
from sim import gen as G
from sim import scen, world

ID, TITLE = "P08", "Interleaving of platforms in the archive does not change any flag"
CASES = {"quick": 180, "thorough": 5000}
RULE = ("one evaluation = one other seeded interleaving of the platforms' reports (each platform's own order kept), every "
        "value and flag of every report compared with the first order; distinct by program and interleaving")


def gen(rng, tier):
    prog = rng.choice(["marine_qc", "marine_qc", "marine_qc_track_only", "marine_qc_hires"])
    win = scen.window(rng, scen.OLD, 1)
    region = rng.choice([None, (30, 34, -40, -36), (-2, 2, -2, 2), (40, 44, 176, 180), None])
    spec = scen.make(rng, win, {"ships": rng.randrange(1, 4), "drifters": rng.randrange(1, 4), "others": 2,
                                "reports": rng.choice([5, 9]), "big": 0.01, "region": region, "dups": 0.03, "bad": 0.02})
    spec["program"] = prog
    spec["tracking"] = rng.random() < 0.7
    spec["orders"] = [[rng.choice(["mix", "blocks", "backblocks", "days"]), rng.randrange(10 ** 9)] for _ in range(2)]
    return spec


def reorder(files, how, seed):
    import random
    rng = random.Random(seed)
    out = {}
    for k in sorted(files):
        out[k] = []
        for f in files[k]:
            f = dict(f)
            lines = f["lines"]
            by, order = {}, []
            for r in lines:
                i = r.get("ID") if "raw" not in r else "\0raw"
                if i not in by:
                    by[i] = []
                    order.append(i)
                by[i].append(r)
            if how == "mix":
                qs = [by[i] for i in order]
                qs = [list(q) for q in qs]
                new = []
                while qs:
                    q = rng.choice(qs)
                    new.append(q.pop(0))
                    if not q:
                        qs.remove(q)
            elif how == "blocks":
                rng.shuffle(order)
                new = [r for i in order for r in by[i]]
            elif how == "backblocks":
                new = [r for i in reversed(order) for r in by[i]]
            else:                                   # a stretch of each by turns
                qs = [list(by[i]) for i in order]
                rng.shuffle(qs)
                new = []
                while any(qs):
                    for q in qs:
                        n = rng.randrange(1, 4)
                        new += q[:n]
                        del q[:n]
            f["lines"] = new
            out[k].append(f)
    return out


def table(out):
    t = {}
    for path, data in out.items():
        lines = data.decode("latin-1").split("\n")
        if path.endswith("ID_file.txt"):
            t[path] = sorted(lines)
        else:
            t[path] = [lines[0]] + sorted(lines[1:])
    return t


def run(spec, T):
    d = T.deploy(spec)
    prog = spec["program"]
    args = d.month_args(*spec["win"], spec["tracking"])
    p = d.run1(prog, args)
    if p.status != "ok":
        T.fail("run-failed", p.error)
        return
    A = table(d.out())
    for how, seed in spec["orders"]:
        d.reset()
        s2 = dict(spec)
        s2["files"] = reorder(spec["files"], how, seed)
        world.write_archive(d.root, s2)
        q = d.run1(prog, args)
        if q.status != "ok":
            T.fail("run-failed", "with another order: %s" % q.error)
            return
        B = table(d.out())
        for path in sorted(set(A) | set(B)):
            if A.get(path) != B.get(path):
                x, y = A.get(path) or [], B.get(path) or []
                odd = [l for l in y if l not in x][:2]
                T.fail("order-matters", "%s: %r instead of %r" % (path, odd, [l for l in x if l not in y][:2]))
                return
        T.key(prog, spec["tracking"], how, [[r.get("UID") for r in f["lines"]] for k in sorted(s2["files"])
                                            for f in s2["files"][k]])
    T.samples.append("%s %s %r" % (prog, spec["win"], spec["orders"]))
