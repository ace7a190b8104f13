"""Scenarios shared by the checks: worlds, fault points, fault plans."""
import json
import random

from . import gen, model, world

WRITES = ("write", "open_w", "mkdir", "rename", "unlink", "copen_w", "cwrite", "spawn")
ERRS = {"open_r": ["EIO", "EACCES", "EMFILE"], "open_w": ["EACCES", "EMFILE", "ENOSPC", "EROFS", "EIO"],
        "read": ["EIO"], "write": ["EIO", "ENOSPC"], "mkdir": ["ENOSPC", "EACCES", "EIO"],
        "rename": ["EIO", "EACCES"], "nc_open": ["EIO", "EMFILE"], "unlink": ["EIO"], "copen_w": ["ENOSPC", "EACCES"],
        "cwrite": ["ENOSPC", "EIO"], "spawn": ["EIO"]}
YEARS = [1985, 1986, 1999, 2000, 2004, 2008, 2011, 2013]
OLD = [1851, 1858, 1885, 1914, 1941, 1958, 1965, 1974, 1984, 1985, 1996, 2005, 2006, 2012, 2023]


FOLDERS = [" with blanks", "'s data", "&co", "(old)", ";2", "-x y", ".bz2"]     # ends of the name of a deployment's folder


def window(rng, years=YEARS, nmonths=1, edgy=0.35):
    """A window of target months; year ends and leap Februaries come up often."""
    y = rng.choice(years)
    m = rng.choice([1, 12, 2, 3]) if rng.random() < edgy else rng.randrange(1, 13)
    a = (y, m)
    b = a
    for _ in range(nmonths - 1):
        b = world.nextm(*b)
    return a[0], a[1], b[0], b[1]


def make(rng, win, opts=None, bg=True, bgforms=("plain", "bz2"), bgmissing=0.1, drop=0.0):
    g = gen.Gen(rng, *win, opts=opts)
    files = g.archive()
    for k in sorted(files):
        if rng.random() < drop:
            del files[k]
    spec = {"win": list(win), "files": files, "exclude": g.exclude}
    spec["bg"] = g.background(forms=bgforms, missing=bgmissing) if bg else {}
    return folder(rng, spec, 0.1)


def from_greenwich(rng, spec, p):
    """The background files of a day or two on which there are reports begin at Greenwich."""
    if rng.random() < p:
        days = {"%04d%02d%02d" % q for f in spec["files"].values() for a in f for r in a["lines"] if "raw" not in r
                for q in [model.day_before(r)] if q}
        days = sorted(days & set(spec["bg"]))
        for k in rng.sample(days, min(len(days), rng.choice([1, 2]))):
            for e in spec["bg"][k]:
                e["layout"] = rng.choice(["r", "fr"])
    return spec


def folder(rng, spec, p):
    if rng.random() < p:
        spec["dirname"] = rng.choice(FOLDERS)
    return spec


def months(spec):
    return world.months(*spec["win"])


def runid(rng):
    return rng.choice(["base", "base", "gb2", "Base", "run-7", "2", "v1.2", "x_y"])


def knobs(rng):
    """Buffer sizes of the simulated processes: they decide where a crash can tear a file."""
    if rng.random() < 0.4:
        return {}
    return {"rbuf": rng.choice([512, 1024, 4096, 8192, 65536]), "wbuf": rng.choice([64, 256, 1024, 4096, 8192]),
            "bzchunks": rng.choice([1, 2, 3, 5, 9])}


def addressed(trace):
    """[(kind, what, nth)] of the operations of a fault-free run."""
    seen, out = {}, []
    for kind, what in trace:
        n = seen.get((kind, what), 0)
        seen[(kind, what)] = n + 1
        out.append((kind, what, n))
    return out


def pick_points(rng, trace, n, kinds=None, avoid=("stat",)):
    """n different operations, every kind of operation as likely as the others, files spread out."""
    pts = [p for p in addressed(trace) if (kinds is None or p[0] in kinds) and p[0] not in avoid]
    by = {}
    for p in pts:
        by.setdefault(p[0], []).append(p)
    out = []
    while by and len(out) < n:
        k = rng.choice(sorted(by))
        p = by[k].pop(rng.randrange(len(by[k])))
        out.append(p)
        if not by[k]:
            del by[k]
    return out


STATUS = [1, 1, 2, 127, 255, -9, -9, -15]     # how a command that fails ends


def holds(rng, traces, n):
    """Up to n rendezvous: one process stops just before (or after) an operation on a path that another changes
    as well, until the other has done its own. Returns {process: [hold]}."""
    by = {}
    for i, t in enumerate(traces):
        for kind, path, k in addressed(t):
            by.setdefault(path, {}).setdefault(i, []).append([kind, path, k])
    looks = ("stat", "open_r", "nc_open", "read", "sleep", "spawn")
    kinds = {}
    for path, d in sorted(by.items()):               # what one process changes; the other may only look at it
        if len(d) > 1:
            for k in sorted({x[0] for ops in d.values() for x in ops} - set(looks)):
                kinds.setdefault(k, []).append(path)

    def one(ops):
        k = rng.choice(sorted({o[0] for o in ops}))
        return rng.choice([o for o in ops if o[0] == k])
    out = {}
    for _ in range(n if kinds else 0):
        d = by[rng.choice(kinds[rng.choice(sorted(kinds))])]
        i, j = rng.sample(sorted(d), 2)
        a = one(d[i])
        if rng.random() < 0.5:                       # the operation that follows it, whatever it is
            ops = addressed(traces[i])
            k = ops.index(tuple(a))
            if k + 1 < len(ops):
                a = list(ops[k + 1])
        out.setdefault(str(i), []).append({"at": a, "until": [j] + one(d[j])})
    return out


def crash_at(rng, p):
    f = {"at": list(p), "kind": "crash"}
    if p[0] in ("write", "cwrite"):
        f["torn"] = rng.choice([0.0, 0.0, 0.3, 0.7, 0.97, 1.0])
    return f


def error_at(rng, p):
    kind = p[0]
    if kind == "spawn":
        return {"at": list(p), "kind": "childfail", "status": rng.choice(STATUS)}
    if kind in ("cwrite",):
        return {"at": list(p), "kind": "err", "errno": rng.choice(ERRS[kind]), "torn": rng.choice([0.0, 0.5]),
                "status": rng.choice(STATUS)}
    if rng.random() < 0.08 and kind in ("open_r", "nc_open", "open_w"):
        return {"at": list(p), "kind": "nomem"}
    f = {"at": list(p), "kind": "err", "errno": rng.choice(ERRS[kind])}
    if kind == "write":
        f["torn"] = rng.choice([0.0, 0.0, 0.4, 0.9])
    if f["errno"] in ("ENOSPC", "EROFS") and rng.random() < 0.5:
        f["sticky"] = True
    return f


def diff(a, b):
    """A short account of the first difference of two snapshots, or None."""
    for k in sorted(set(a) | set(b)):
        if k not in b:
            return "%s is missing" % k
        if k not in a:
            return "%s should not be there" % k
        if a[k] != b[k]:
            x, y = a[k].split(b"\n"), b[k].split(b"\n")
            for i in range(max(len(x), len(y))):
                u = x[i] if i < len(x) else None
                v = y[i] if i < len(y) else None
                if u != v:
                    return "%s line %d: %r instead of %r" % (k, i + 1, v, u)
            return "%s differs" % k
    return None


def under(snap, y, m):
    """The part of a snapshot of out that belongs to one month."""
    d = "%d/%02d/" % (y, m)
    return {k: v for k, v in snap.items() if k.startswith(d)}


def clone(x):
    return json.loads(json.dumps(x))


def rng_of(spec, what):
    return random.Random("%s/%s" % (spec.get("case"), what))
