"""Tracking QC never takes damaged or mismatched inputs for good ones."""
import os

from sim import model, scen, trackin, world

ID, TITLE = "P15", "Tracking QC refuses incomplete or mismatched inputs"
CASES = {"quick": 1500, "thorough": 15000}
RULE = ("one evaluation = one damage to the input files of one drifter chunk (a file gone, empty, cut at any byte, only its "
        "header, a row dropped, repeated, swapped or of another report, a field that is not a number), alone or in several "
        "files, then tracking QC: it must refuse without an output, or the damage must not matter; then the repair; "
        "distinct by kind, file and place")
N = 5
KINDS = ["delete", "empty", "cut", "cut", "cut", "header", "droprow", "dupl", "uid", "uidswap", "junkflag", "shortflag"]


def gen(rng, tier):
    n = rng.choice([1, 1, 2, 3])
    win = scen.window(rng, scen.YEARS, n)
    ident = trackin.new_id(rng)
    spec = {"win": list(win), "ident": ident, "files": {}, "bg": {}}
    spec["reps"] = trackin.drifter(rng, win, ident, trackin.uidgen(rng), n=rng.choice([1, 2, 4, 9, 20]))
    spec["edge"] = rng.choice(trackin.EDGES)
    spec["runmonthid"] = "x"
    spec["knobs"] = scen.knobs(rng)
    spec["plans"] = []
    months = sorted(trackin.by_month(spec["reps"]))
    for _ in range(N):
        m = rng.choice(months)
        blocks = [rng.choice(trackin.BLOCKS)]
        r = rng.random()
        if r < 0.12:
            blocks = rng.sample(trackin.BLOCKS, 2)
        kind = rng.choice(KINDS)
        spec["plans"].append([kind, list(m), blocks, rng.random()])
    return spec


def shrinks(spec):
    for i in range(len(spec["plans"])):
        if len(spec["plans"]) > 1:
            c = scen.clone(spec)
            c["plans"] = [spec["plans"][i]]
            yield c
    for i in range(len(spec["reps"])):
        c = scen.clone(spec)
        del c["reps"][i]
        if c["reps"]:
            yield c


def tamper(text, kind, where, block):
    """The damaged text, or None for a file that is gone."""
    lines = text.splitlines(True)
    body = lines[1:]
    if kind == "delete":
        return None
    if kind == "empty":
        return ""
    if kind == "cut":
        return text[:int(where * len(text))]
    if kind == "header":
        return lines[0]
    if kind == "droprow":
        i = int(where * len(body))
        return "".join([lines[0]] + body[:i] + body[i + 1:])
    if kind == "dupl":
        i = int(where * len(body))
        return "".join([lines[0]] + body[:i + 1] + [body[i]] + body[i + 1:])
    if kind == "uid":
        i = int(where * len(body))
        return "".join([lines[0]] + body[:i] + ["#" + body[i][1:]] + body[i + 1:])
    if kind == "uidswap":
        if len(body) < 2:
            return text
        i = int(where * (len(body) - 1))
        return "".join([lines[0]] + body[:i] + [body[i + 1], body[i]] + body[i + 2:])
    i = int(where * len(body))
    c = body[i].rstrip("\n").split(",")
    if block == "Variables":
        c[-13 if kind == "junkflag" else -12] = "x1.5"        # LAT, LON; the ID may hold commas
    elif kind == "junkflag":
        c[-1] = "?"
    else:
        c = c[:-1]
    return "".join([lines[0]] + body[:i] + [",".join(c) + "\n"] + body[i + 1:])


def run(spec, T):
    d = T.deploy(spec)
    reps, win, ident = spec["reps"], spec["win"], spec["ident"]
    trackin.write(d.root, reps, ident)
    a = trackin.args(d, ident, win, spec["edge"], spec["runmonthid"])
    g = d.run1("tracking_qc", a)
    if g.status != "ok":
        T.fail("clean-run-failed", g.error)
        return
    A = d.track()
    import shutil
    for kind, m, blocks, where in spec["plans"]:
        m = tuple(m)
        d.reset()
        trackin.write(d.root, reps, ident)
        rs = trackin.by_month(reps).get(m)
        if not rs:
            continue
        good = trackin.rows(rs)
        bad = dict(good)
        for b in blocks:
            t = tamper(good[b], kind, where, b)
            p = trackin.path(d.root, b, m[0], m[1], ident)
            bad[b] = t
            if t is None:
                os.unlink(p)
            else:
                world.put(p, t.encode("latin-1"))
        if bad == good:
            continue
        what = "%s of %s in %d-%02d" % (kind, "+".join(blocks), m[0], m[1])
        p = d.run1("tracking_qc", a)
        B = d.track()
        T.fired["damaged:" + kind] += 1
        if p.status == "ok":
            T.fail("accepted", "tracking QC reported success after %s (at %.3f)" % (what, where))
            return
        if p.status != "failed":
            T.fail("bad-end", "%s after %s" % (p.status, what))
            return
        if [f for f in B if "Tracking_" in f]:
            T.fail("output-anyway", "an output was left after %s: %r" % (what, sorted(B)))
            return
        trackin.write(d.root, reps, ident)
        q = d.run1("tracking_qc", a)
        x = scen.diff(A, d.track()) if q.status == "ok" else q.error
        if x:
            T.fail("repair", "after %s and its repair: %s" % (what, x))
            return
        T.key(kind, blocks, round(where, 3), len(rs))
        if len(T.samples) < 3:
            T.samples.append("%s: %s" % (what, (p.error or "")[:100]))
