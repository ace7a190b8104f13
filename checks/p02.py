"""Records that cannot be used change nothing about the others."""
from sim import gen as G
from sim import imma, model, scen, world

ID, TITLE = "P02", "An unusable record never affects any other report"
CASES = {"quick": 200, "thorough": 5000}
RULE = ("one case = a program run on an archive and on the same archive with unusable records put in at random "
        "places (damaged lines, foreign months, excluded IDs, reports that fail position, date, time or blacklist "
        "checks, under new or existing IDs); every line of every other report is compared byte by byte; distinct by "
        "program, kinds put in and content")


def spoil(rng, g, spec, y, m, ids):
    """One record to put in, marked with what it is."""
    k = rng.choice(["raw", "raw", "foreign", "excluded", "gross", "gross", "gross", "black"])
    if k == "raw":
        r = g.damaged()
        r["_in"] = "raw:" + r["_bad"]
        return r
    r = {"YR": y, "MO": m, "DY": rng.randrange(1, 29), "HR": rng.randrange(24) * 100, "LAT": rng.randrange(-7999, 8000, 2),
         "LON": rng.randrange(-17999, 18000, 2), "ID": rng.choice(ids), "UID": g.uid(), "DCK": 926,
         "PT": rng.choice([5, 7, 6]), "SID": 1, "SST": rng.randrange(-20, 350), "AT": rng.randrange(-100, 350),
         "DPT": rng.randrange(-100, 300), "SLP": 10100, "W": 50, "D": 90, "DS": 3, "VS": 3}
    if k == "foreign":
        w = rng.choice(["YR", "MO", "both"])
        if w != "MO":
            r["YR"] += rng.choice([-1, 1, 100])
        if w != "YR":
            r["MO"] = rng.choice([x for x in range(1, 13) if x != m])
        if rng.random() < 0.1:
            r["MO"] = None
    elif k == "excluded":
        r["ID"] = "EXCL0    "
    elif k == "black":
        r.update(rng.choice([{"PT": 13}, {"DCK": 874}, {"LAT": 0, "LON": 0}]))
    else:
        g.gross(r, world.mlen(y, m))
        k = "gross:" + r["_gross"]
    r["_in"] = k
    return r


def gen(rng, tier):
    win = scen.window(rng, scen.OLD, 1)
    g = G.Gen(rng, *win, opts={"ships": rng.randrange(1, 4), "drifters": rng.randrange(1, 4), "others": 1,
                               "reports": rng.choice([4, 8]), "gross": 0.02, "bad": 0, "foreign": 0, "dups": 0.02})
    files = g.archive()
    for k in files:
        for f in files[k]:
            f["lines"] = [r for r in f["lines"] if "raw" not in r]
    spec = {"win": list(win), "files": files, "exclude": g.exclude + ["EXCL0"], "bg": g.background()}
    ids = sorted({r["ID"] for k in files for f in files[k] for r in f["lines"] if r.get("ID") and
                  r["ID"].rstrip() not in spec["exclude"]}) or ["NEWONE   "]
    ids += ["NEWONE   ", "NEWTWO   "]
    n = rng.choice([1, 3, 10, 30])
    spec["extra"] = []
    if rng.random() < 0.25:                  # a stretch of the archive is damaged, or is not of that month
        k, at = rng.choice(sorted(files)), rng.random()
        same = rng.random() < 0.5
        r = None
        for _ in range(rng.choice([40, 120, 1100])):
            if r is None or not same:
                r = spoil(rng, g, spec, int(k[:4]), int(k[4:]), ids)
            r = dict(r)
            if "UID" in r:
                r["UID"] = g.uid()
            spec["extra"].append([k, at, r])
        n = rng.choice([0, 1])
    for _ in range(n):
        k = rng.choice(sorted(files))
        r = spoil(rng, g, spec, int(k[:4]), int(k[4:]), ids)
        spec["extra"].append([k, rng.random(), r])
    spec["program"] = rng.choice(["marine_qc", "marine_qc", "marine_qc_track_only", "marine_qc_hires"])
    spec["tracking"] = rng.random() < 0.6
    return spec


def shrinks(spec):
    n = len(spec["extra"])
    for part in (2, 4, 8, 16):
        for i in range(part if n >= 4 * part else 0):
            c = scen.clone(spec)
            del c["extra"][i * n // part:(i + 1) * n // part]
            yield c
    for i in range(n):
        c = scen.clone(spec)
        del c["extra"][i]
        yield c


def rows(out):
    """path -> {uid: [lines]}, order of uids."""
    r = {}
    for path, data in out.items():
        lines = data.split(b"\n")
        r[path] = lines
    return r


def run(spec, T):
    d = T.deploy(spec)
    prog, tr = spec["program"], spec["tracking"]
    args = d.month_args(*spec["win"], tr)
    a = d.run1(prog, args)
    if a.status != "ok":
        T.fail("clean-run-failed", "%s: %s" % (prog, a.error))
        return
    A = d.out()
    d.reset()
    s2 = scen.clone(spec)
    put_uids, put_ids = set(), set()
    for k, where, r in spec["extra"]:
        fs = s2["files"].get(k)
        if not fs:
            continue
        f = min(fs, key=lambda f: f.get("stub", 0))
        f["lines"].insert(int(where * (len(f["lines"]) + 1)), r)
        if "UID" in r:
            put_uids.add(r["UID"].ljust(6).encode())
    world.write_archive(d.root, s2)
    b = d.run1(prog, args)
    if b.status != "ok":
        T.fail("run-stopped", "%s stopped by records it cannot use: %s" % (prog, b.error))
        return
    B = d.out()
    y, m = spec["win"][:2]
    ok_before = {model.safe(i) for i in model.drifters(spec, y, m)}
    for path in sorted(set(A) | set(B)):
        if path.endswith("ID_file.txt"):
            x, z = A.get(path, b"").split(b"\n"), B.get(path, b"").split(b"\n")
            lost = [i for i in x if i not in z]
            if lost:
                T.fail("id-lost", "%s lacks %r" % (path, lost[:3]))
            continue
        if path not in B:
            T.fail("file-lost", path)
            continue
        zl = [l for l in B[path].split(b"\n") if l.split(b",")[0].ljust(6) not in put_uids]
        if path not in A:
            if len([l for l in zl if l]) > 1:
                T.fail("file-extra", "%s: %r" % (path, zl[1][:80]))
            continue
        xl = A[path].split(b"\n")
        if xl != zl:
            for i in range(max(len(xl), len(zl))):
                u = xl[i] if i < len(xl) else None
                w = zl[i] if i < len(zl) else None
                if u != w:
                    T.fail("others-changed", "%s: %r became %r" % (path, u, w))
                    break
    kinds = sorted({r["_in"] for _, _, r in spec["extra"]})
    for k in kinds:
        T.count("put:" + k)
    T.key(prog, tr, kinds, sorted(B.items()))
    T.samples.append("%s %s with %s" % (prog, spec["win"], kinds))
    # and the reports that fail are themselves there, flagged
    model.compare(T, s2, prog, B, [(y, m)], tr, values=False, flagmodel=True, label="with the records: ")
