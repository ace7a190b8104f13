"""How a period is cut into runs, and what ran before, does not show in the outputs."""
from sim import scen, world

ID, TITLE = "P09", "Outputs do not depend on how a period is split or on earlier runs"
CASES = {"quick": 70, "thorough": 4000}
RULE = ("one evaluation = one history: the months of a period done in one process, or cut at random into processes in any "
        "order, repeated, after runs of other programs and after runs on an older state of the archive, in one "
        "deployment; every month byte for byte against that month done alone in a fresh one; distinct by history")


def gen(rng, tier):
    prog = rng.choice(["marine_qc", "marine_qc", "marine_qc_track_only", "marine_qc_hires"])
    n = rng.choice([2, 3, 3, 4])
    long = rng.random() < 0.15          # longer than a year: the same month and day come up twice
    if long:
        n = rng.choice([13, 14])
    win = scen.window(rng, [1985, 1996, 2005, 2006, 2012] if long else scen.OLD, n)
    small = {"ships": rng.randrange(0, 2), "drifters": 1, "others": 0, "reports": 3, "excluded": 0}
    spec = scen.make(rng, win, small if long else
                     {"ships": rng.randrange(0, 3), "drifters": rng.randrange(1, 3), "others": 1, "reports": 4,
                      "bad": 0.03}, drop=0.05)
    spec["program"], spec["tracking"] = prog, long or rng.random() < 0.8
    if long:                             # in the first days of each month, so that days come up again in the other year
        for k in spec["files"]:
            for f in spec["files"][k]:
                for r in f["lines"]:
                    if "raw" not in r and None not in (r.get("DY"), r.get("HR")) and 1 <= r["DY"] <= 31:
                        at = int(((r["DY"] - 1) * 2400 + r["HR"]) * 3 / 31)
                        r["DY"], r["HR"] = 1 + at // 2400, at % 2400
    ms = world.months(*win)
    spec["events"] = []
    for kind in (["whole"] if long else rng.sample(["whole", "split", "split", "older", "older"], 2)):
        h = []
        if kind == "older":
            h.append(["older", rng.randrange(10 ** 9)])
            h.append([prog] + list(win))
            h.append(["current", 0])
        elif kind == "split" and rng.random() < 0.4:
            h.append([rng.choice(["marine_qc", "marine_qc_hires"])] + list(win))
        if kind == "whole":
            h.append([prog] + list(win))
        else:
            parts, i = [], 0
            while i < len(ms):
                j = min(len(ms), i + rng.choice([1, 1, 2]))
                parts.append([prog] + list(ms[i]) + list(ms[j - 1]))
                i = j
            rng.shuffle(parts)
            if rng.random() < 0.4:
                parts.append(list(rng.choice(parts)))
            h += parts
        spec["events"].append(h)
    spec["knobs"] = scen.knobs(rng)
    return spec


def older(files, seed):
    import random
    rng = random.Random(seed)
    out = {}
    share, gone = rng.choice([0.3, 0.6, 1.0]), {}
    for k in sorted(files):
        if rng.random() < 0.25:
            continue
        out[k] = []
        for f in files[k]:
            f = dict(f)
            lines = []
            for r in f["lines"]:
                if rng.random() < share:
                    lines.append(r)
                if "raw" not in r and rng.random() < 1.2 - share:
                    # reports and platforms that were taken out of the archive since
                    who = r["ID"] if rng.random() < 0.3 else gone.setdefault(r["ID"], "%d" % (99001 + len(gone)))
                    lines.append(dict(r, ID=who, UID="Q%05d" % rng.randrange(10 ** 5)))
            f["lines"] = lines
            out[k].append(f)
    return out


def mine(spec, snap):
    """Files of the program in question, of the platforms it lists now (an earlier run may have left others)."""
    ids = {}
    for path, data in snap.items():
        if path.endswith("ID_file.txt"):
            ids[path[:8]] = [l[(len(l) + 1) // 2:] for l in data.decode("latin-1").split("\n") if l]
    out = {}
    hires = spec["program"] == "marine_qc_hires"
    for path, data in snap.items():
        name = path[8:]
        if name == "ID_file.txt":
            out[path] = data
            continue
        if ("_hires_" in name) != hires:
            continue
        per = [i for i in ids.get(path[:8], []) if "_%s_" % i in name]
        plain = name.count("_") == (3 if name.startswith(("SST", "POS", "AT_", "DPT", "SLP", "W_")) and not hires else
                                    4 if hires else 2)
        if per or (plain and spec["program"] != "marine_qc_track_only"):
            out[path] = data
    return out


def run(spec, T):
    prog, tr = spec["program"], spec["tracking"]
    ms = scen.months(spec)
    d = T.deploy(spec)
    alone = {}
    for y, m in ms:
        d.reset()
        p = d.run1(prog, d.month_args(y, m, y, m, tr))
        if p.status != "ok":
            T.fail("run-failed", "%d-%02d: %s" % (y, m, p.error))
            return
        alone[(y, m)] = d.out()
    for h in spec["events"]:
        d.reset()
        for e in h:
            if e[0] in ("older", "current"):
                d.clear_archive()
                world.write_archive(d.root, dict(spec, files=older(spec["files"], e[1]))
                                    if e[0] == "older" else spec)
                continue
            p = d.run1(e[0], d.month_args(*e[1:], tracking=tr))
            if p.status != "ok":
                T.fail("run-failed", "%r in %r: %s" % (e, h, p.error))
                return
        out = d.out()
        for y, m in ms:
            x = scen.diff(mine(spec, alone[(y, m)]), mine(spec, scen.under(out, y, m)))
            if x:
                T.fail("history-shows", "after %r: %s" % (h, x))
                return
        T.key(prog, tr, h)
        T.samples.append("%s tracking=%s %r" % (prog, tr, h))
