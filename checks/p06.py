"""Every report is matched with the background field of the day before it, never with a stale one."""
from sim import gen as G
from sim import model, scen, world

ID, TITLE = "P06", "Each report gets the background field of the day before it"
CASES = {"quick": 200, "thorough": 5000}
RULE = ("one case = 1-3 tracking runs, one after the other in one deployment, over an archive whose reports come in any "
        "day order, with background files plain, bzipped, both, empty, missing, in either directory, and a scratch folder "
        "filled by earlier runs, background, ice and variance of every report against the reference model; distinct by "
        "program, order of days and set of background files")
COLS = ("OSTIA", "ICE", "BGVAR")


def gen(rng, tier):
    prog = rng.choice(["marine_qc", "marine_qc_track_only"])
    years = [1984, 1985, 1986, 1996, 2000, 2004, 2007, 2012]
    win = scen.window(rng, years, rng.choice([1, 1, 2]), edgy=0.6)
    if rng.random() < 0.12:
        win = rng.choice([(1984, 12, 1984, 12), (1985, 1, 1985, 1), (1984, 12, 1985, 1)])
    long = rng.random() < 0.06          # longer than a year: the same month and day come up twice
    if long:
        win = scen.window(rng, years, 13)
    g = G.Gen(rng, *win, opts={"ships": rng.randrange(0, 2), "drifters": rng.randrange(1, 4), "others": 1,
                               "reports": 4 if long else rng.choice([4, 8]), "gross": rng.choice([0, 0.15]),
                               "dense_days": rng.random() < 0.5})
    files = g.archive()
    for k in sorted(files):
        for f in files[k]:
            how = rng.choice(["asis", "blocks", "mix", "mix", "edge"])
            lines = f["lines"]
            if how == "edge":             # as many reports as possible on first and last days
                last = world.mlen(int(k[:4]), int(k[4:]))
                for r in lines:
                    if "raw" not in r and rng.random() < 0.6:
                        r["DY"] = rng.choice([1, 1, last, last - 1])
            # a platform's reports are in time order, those of different platforms in any
            if how != "asis":
                lines.sort(key=lambda r: (str(r.get("ID")), r.get("DY") or 0, r.get("HR") or 0))
                if how != "blocks":
                    f["lines"] = G.interleave(rng, lines)
        if rng.random() < 0.05:
            del files[k]
    forms = rng.choice([("plain",), ("bz2",), ("plain", "bz2"), ("plain", "bz2", "bz2")])
    spec = {"win": list(win), "files": files, "exclude": g.exclude,
            "bg": g.background(forms=forms, missing=rng.choice([0.0, 0.1, 0.5]))}
    for k in sorted(spec["bg"]):
        if rng.random() < 0.1 and spec["bg"][k]:      # bzipped and plain side by side
            e = dict(spec["bg"][k][0])
            e["form"] = "bz2" if e["form"] == "plain" else "plain"
            e["seed"] += 7777
            spec["bg"][k].append(e)
        for e in spec["bg"][k]:
            e["layout"] = rng.choice(["", "", "f"])
    scen.folder(rng, spec, 0.15)
    scen.from_greenwich(rng, spec, 0.1)
    spec["program"] = prog
    ms = world.months(*win)
    spec["runs"] = [list(win)]
    if len(ms) > 1 and not long and rng.random() < 0.5:
        spec["runs"] = [list(m) + list(m) for m in ms]
        rng.shuffle(spec["runs"])
    if rng.random() < 0.3 and not long:
        spec["runs"].append(list(spec["runs"][0]))
    # the set of background files grows between runs: late files for absent days, reanalysis over near-real-time
    if rng.random() < 0.5 and not long:
        if len(spec["runs"]) == 1 or rng.random() < 0.6:
            spec["runs"].append(list(rng.choice(spec["runs"])))
        spec["grow"] = {}
        i = rng.randrange(1, len(spec["runs"]))
        new, base = {}, rng.randrange(2 * 10 ** 6, 3 * 10 ** 6)
        for n, (y, m, dd) in enumerate(G.days_before(*win)):
            k = "%04d%02d%02d" % (y, m, dd)
            has = {e["stub"] for e in spec["bg"].get(k, [])}
            for stub in (0, 1):
                if stub not in has and rng.random() < 0.5:
                    new.setdefault(k, []).append({"stub": stub, "form": rng.choice(forms), "seed": base + 2 * n + stub})
        spec["grow"][str(i)] = new
    spec["knobs"] = scen.knobs(rng)
    return spec


def run(spec, T):
    d = T.deploy(spec)
    prog = spec["program"]
    for i, w in enumerate(spec["runs"]):
        new = spec.get("grow", {}).get(str(i))
        if new:
            world.write_background(d.root, {"bg": new})
            spec = dict(spec, bg={k: spec["bg"].get(k, []) + new.get(k, []) for k in set(spec["bg"]) | set(new)})
            T.count("grown_days", len(new))
        p = d.run1(prog, d.month_args(*w, tracking=True))
        if p.status != "ok":
            T.fail("run-failed", "%s run %d: %s" % (prog, i, p.error))
            return
        out = d.out()
        for y, m in world.months(*w):
            check_month(T, spec, prog, out, y, m)
    T.key(prog, spec["runs"], [[(r.get("DY"), r.get("YR")) for r in f["lines"]] for k in sorted(spec["files"])
                               for f in spec["files"][k]], sorted(spec["bg"]))
    T.samples.append("%s %s with %d background days" % (prog, spec["runs"], len(spec["bg"])))


def check_month(T, spec, prog, out, y, m):
    for path, (kind, block, rows) in sorted(model.expected_files(spec, prog, y, m, True).items()):
        if kind != "vars":
            continue
        if path not in out:
            T.fail("file-missing", path)
            return
        head, body = world.parse_csv(out[path])
        got = {}
        for b in body:
            got.setdefault(b[0].ljust(6), []).append(dict(zip(head, b)))
        for r in rows:
            g = [x for x in got.get(r["UID"].ljust(6), [])
                 if x.get("DY") == ("\\N" if r.get("DY") is None else str(r["DY"]))]
            if not g:
                T.fail("report-lost", "%s: %s" % (path, r["UID"]))
                return
            ost, ice, var = model.background(spec, r)
            for c, w in zip(COLS, (ost, ice, var)):
                if c not in head:
                    continue
                T.count("matched" if w is not None else "no_field")
                if not all(model.same(c, x.get(c), w) for x in g):
                    T.fail("background-" + c, "%s, report %s of day %r: %s is %r instead of %r"
                           % (path, r["UID"], r.get("DY"), c, g[0].get(c), w))
                    return
