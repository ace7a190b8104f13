"""An I/O error or a damaged input file is never passed over."""
import errno  # noqa: F401
import os

from sim import scen, world

ID, TITLE = "P04", "I/O errors and damaged input stop the run; nothing is silently wrong"
CASES = {"quick": 72, "thorough": 3500}
RULE = ("one evaluation = one injected failure (an errno from open, read, write, mkdir, rename, a netCDF open or a child, "
        "with torn or persistent effect, lack of memory, or an input file cut short or damaged on disk), and the rerun "
        "after the cause is removed; distinct by program, operation, file, number and errno")
POINTS = 6


def gen(rng, tier):
    prog = rng.choice(["marine_qc", "marine_qc", "marine_qc_track_only", "marine_qc_hires"])
    win = scen.window(rng, scen.YEARS, rng.choice([1, 1, 2, 2]))
    spec = scen.make(rng, win, {"ships": 1, "drifters": rng.randrange(1, 3), "others": 1, "reports": 5},
                     bgforms=("bz2", "plain"))
    spec["program"] = prog
    spec["tracking"] = rng.random() < 0.8
    spec["knobs"] = scen.knobs(rng)
    return spec


def damage(rng, d, spec, trace):
    """Cuts or damages one input file that the fault-free run read."""
    files = sorted({w for k, w in trace if k in ("open_r", "nc_open") and
                    (w.startswith("$/arch") or w.startswith("$/clim") or w.startswith("$/bg"))} |
                   {w[len("bunzip2 "):] for k, w in trace if k == "spawn" and w.startswith("bunzip2 ")})
    arch = [f for f in files if f.startswith("$/arch")]
    if arch and rng.random() < 0.6:
        files = arch
    f = rng.choice(files)
    how = ["cut", "cut", "cut", "flip"] + (["empty"] if not f.startswith("$/arch") else [])
    return {"damage": f, "how": rng.choice(how), "where": rng.random()}


def apply_damage(d, f):
    path = d.root + f["damage"][1:]
    data = open(path, "rb").read()
    n = len(data)
    if f["how"] == "empty":
        new = b""
    elif f["how"] == "cut":
        new = data[:max(1, min(n - 1, int(n * f["where"])))]
    else:
        # inside the stored bytes, where the format's own checksum covers them
        i = max(18, min(n - 9, int(n * f["where"])))
        new = data[:i] + bytes([data[i] ^ 0x5a]) + data[i + 1:]
    with open(path, "wb") as fh:
        fh.write(new)
    return path, data


def run(spec, T):
    d = T.deploy(spec)
    prog, tr = spec["program"], spec["tracking"]
    args = d.month_args(*spec["win"], tr)
    g = d.run1(prog, args)
    if g.status != "ok":
        T.fail("clean-run-failed", "%s: %s" % (prog, g.error))
        return
    A = d.out()
    cached = world.snapshot(d.root + "/scratch")
    if "faults" not in spec:
        rng = scen.rng_of(spec, "faults")
        spec["faults"] = []
        for _ in range(POINTS):
            if rng.random() < 0.25:
                spec["faults"].append(damage(rng, d, spec, g.trace))
            else:
                for p in scen.pick_points(rng, g.trace, 1, avoid=("stat",)):
                    spec["faults"].append(scen.error_at(rng, p))
    for f in spec["faults"]:
        d.reset()
        undo = None
        if "damage" in f:
            undo = apply_damage(d, f)
            p = d.run1(prog, args)
            T.fired["damaged:%s:%s" % (f["how"], f["damage"].split("/")[1])] += 1
            zero_bz2 = f["how"] == "empty" and f["damage"].startswith("$/bg")
        else:
            p = d.run1(prog, args, [f])
            zero_bz2 = False
        B = d.out()
        what = f["damage"] + " " + f["how"] if "damage" in f else "%s %r" % (f.get("errno", f["kind"]), f["at"])
        if p.status == "ok":
            if not zero_bz2:          # an empty background file counts as absent, by design
                x = scen.diff(A, B)
                if x:
                    T.fail("silently-wrong", "%s reported success after %s: %s" % (prog, what, x))
                    return
        elif p.status == "failed":
            # the months finished before the failure stay as they are
            done = []
            for y, m in scen.months(spec):
                if scen.under(B, y, m) == scen.under(A, y, m):
                    done.append((y, m))
                else:
                    break
            ms = scen.months(spec)
            for y, m in ms[len(done) + 1:]:
                if scen.under(B, y, m):
                    T.fail("went-on", "%s went on to %d-%02d after %s spoilt an earlier month" % (prog, y, m, what))
                    return
        else:
            T.fail("bad-end", "%s ended as %s after %s" % (prog, p.status, what))
            return
        now = world.snapshot(d.root + "/scratch")
        if "damage" not in f:
            for k in cached:
                if k in now and now[k] != cached[k]:
                    T.fail("cache-spoilt", "scratch file %s is not the background file after %s" % (k, what))
                    return
        if undo:
            with open(undo[0], "wb") as fh:
                fh.write(undo[1])
        q = d.run1(prog, args)
        if q.status != "ok":
            T.fail("rerun-failed", "%s after %s and its repair: %s" % (prog, what, q.error))
            return
        x = scen.diff(A, d.out())
        if x:
            T.fail("rerun-differs", "%s after %s and its repair: %s" % (prog, what, x))
            return
        T.key(prog, p.status, what)
        T.count("stopped" if p.status == "failed" else "tolerated")
        if len(T.samples) < 3:
            T.samples.append("%s %s: %s -> %s" % (prog, spec["win"], what, p.status))
