"""The buddy checks of a month follow from the eligible reports within reach."""
from sim import buddy, model, scen, world
from sim import gen as G

ID, TITLE = "P28", "Buddy flags follow from the eligible reports of three months in reach"
CASES = {"quick": 130, "thorough": 4000}
RULE = ("one case = a run over 1-2 months of an archive whose platforms crowd in a small region (at the date line, the "
        "equator, high latitudes, both poles, year ends) with offsets, outliers and ineligible reports, the simple and Bayesian buddy "
        "flags of SST, air temperature, dew point and pressure of every row against a reference model; distinct by "
        "program, window, parameters and content; the counts give the number of flags of each value")


def params(rng):
    P = scen.clone({k: world.PARAMS[k] for k in ("mds_buddy_check", "slp_buddy_check", "bayesian_buddy_check")})
    if rng.random() < 0.3:
        return {}
    for k in ("mds_buddy_check", "slp_buddy_check"):
        P[k]["limits"] = rng.choice([[[1, 1, 2], [2, 2, 2], [1, 1, 4], [2, 2, 4]], [[1, 1, 1], [1, 1, 3], [3, 2, 3], [2, 3, 4]],
                                     [[0, 0, 1], [1, 1, 2], [2, 2, 2], [4, 3, 5]]])
        P[k]["multipliers"] = rng.choice([[[4.0, 3.5, 3.0, 2.5], [4.0], [4.0, 3.5, 3.0, 2.5], [4.0]],
                                          [[2.1, 1.7, 1.3, 0.9], [2.3], [1.9, 1.1, 0.8, 0.5], [1.6]]])
        P[k]["number_of_obs_thresholds"] = rng.choice([[[0, 5, 15, 100], [0], [0, 5, 15, 100], [0]],
                                                       [[0, 2, 6, 20], [0], [0, 3, 7, 30], [0]]])
    P["bayesian_buddy_check"].update(limits=rng.choice([[2, 2, 4], [1, 1, 2], [3, 1, 5], [1, 3, 2]]),
                                     measurement_error=rng.choice([1.0, 0.5, 0.2]), noise_scaling=rng.choice([3.0, 1.0]),
                                     prior_probability_of_gross_error=rng.choice([0.05, 0.2]),
                                     quantization_interval=rng.choice([0.1, 0.1, 0.5]))
    return P


def crowd(rng, g, files, spread):
    """Moves the platforms into one small region and gives them values near the normal ones."""
    lat0, lon0 = rng.choice([(35.5, -40.0), (0.0, 0.0), (-12.0, 180.0), (55.0, -179.5), (-76.0, 20.0), (20.5, 180.0),
                             (80.5, -179.9), (-86.0, 5.0)])
    if rng.random() < 0.08:
        lat0, lon0 = rng.choice([(88.7, 40.0), (-89.2, 150.0)])
    polar = abs(lat0) > 87
    home, off, stray = {}, {}, {}
    sig = rng.choice([0.5, 1.5, 2.5])
    for k in sorted(files):
        for f in files[k]:
            for r in f["lines"]:
                if "raw" in r or r.get("_gross") or r.get("MO") is None:
                    continue
                i = r.get("ID")
                if i not in home:
                    home[i] = (lat0 + rng.uniform(-spread, spread), lon0 + rng.uniform(-spread, spread) * 1.3)
                    if polar:                             # round the pole, and some of them round the other one
                        home[i] = (home[i][0] * rng.choice([1, 1, -1]), rng.choice([home[i][1], rng.uniform(-180, 180)]))
                    off[i] = rng.gauss(0, sig)
                    stray[i] = r["PT"] not in (6, 7) and rng.random() < 0.2
                here = home[i]
                if stray[i] and rng.random() < 0.75:      # a ship far away that jumps in at times: off its track there
                    here = (here[0] + (25 if lat0 < 0 else -25), here[1])
                la, lo = here[0] + rng.uniform(-0.3, 0.3), here[1] + rng.uniform(-0.3, 0.3)
                la = max(-89.98, min(89.98, la))
                lo = (lo + 180) % 360 - 180
                r["LAT"], r["LON"] = g.snap(la), g.snap(lo)
                if rng.random() < 0.3 and r["LON"] < 0:
                    r["LON"] += 36000
                for v, scale in (("SST", 1.0), ("AT", 1.0), ("DPT", 1.0), ("SLP", 5.0)):
                    if r.get(v) is None:
                        continue
                    c = model.clim({}, v, "mean", r)
                    if c is None or c is model.SKIP:
                        continue
                    x = off[i] * scale + rng.gauss(0, 0.6) * scale
                    if rng.random() < 0.08:
                        x += rng.choice([-1, 1]) * rng.uniform(2, 7) * scale
                    r[v] = int(round((c + x) * 10))


def gen(rng, tier):
    win = scen.window(rng, [1900, 1941, 1968, 1984, 1985, 1999, 2004], rng.choice([1, 1, 2]), edgy=0.5)
    g = G.Gen(rng, *win, opts={"ships": rng.randrange(3, 14), "drifters": rng.randrange(0, 5), "others": rng.randrange(0, 5),
                               "reports": rng.choice([4, 10, 16]), "gross": rng.choice([0, .05]),
                               "bad": 0.01, "foreign": 0.02, "dups": 0.02, "track_err": 0})
    files = g.archive()
    crowd(rng, g, files, rng.choice([0.7, 2.0, 4.0]))
    spec = {"win": list(win), "files": files, "exclude": g.exclude, "bg": {}}
    spec["program"] = rng.choice(["marine_qc", "marine_qc", "marine_qc", "marine_qc_hires", "marine_qc_track_only"])
    spec["tracking"] = spec["program"] != "marine_qc" or rng.random() < 0.4
    spec["params"] = params(rng)
    spec["knobs"] = scen.knobs(rng)
    return spec


def check(T, spec, prog, out, y, m, tracking, label=""):
    fl = buddy.flags(spec, y, m, prog)
    for path, (kind, block, rows) in sorted(model.expected_files(spec, prog, y, m, tracking).items()):
        if kind != "qc":
            continue
        if path not in out:
            T.fail("file-missing", label + path)
            return False
        head, body = world.parse_csv(out[path])
        if [b[0].ljust(6) for b in body] != [r["UID"].ljust(6) for r in rows]:
            T.fail("rows-differ", "%s%s" % (label, path))
            return False
        for b, r in zip(body, rows):
            for c, g in zip(head[1:], b[1:]):
                k = (block[0], c)
                w = fl[id(r)].get(k)
                if w is None:
                    continue
                if w is model.SKIP:
                    T.count("undecided")
                    continue
                T.count("%s_%s_%s" % (k[0], k[1], w))
                if g != str(w):
                    T.fail("flag-%s-%s" % k, "%s%s, report %s of %s (%d %d %r %r): %s %s is %s instead of %s"
                           % (label, path, r["UID"], r.get("ID"), r["YR"], r["MO"], r.get("DY"), r.get("HR"),
                              k[0], k[1], g, w))
                    return False
    return True


def run(spec, T):
    d = T.deploy(spec)
    prog, tr = spec["program"], spec["tracking"]
    p = d.run1(prog, d.month_args(*spec["win"], tr))
    if p.status != "ok":
        T.fail("run-failed", "%s: %s" % (prog, p.error))
        return
    out = d.out()
    for y, m in scen.months(spec):
        if not check(T, spec, prog, out, y, m, tr):
            return
    T.key(prog, tr, spec["win"], spec["params"], sorted(out.items()))
    T.samples.append("%s %s: %d files" % (prog, spec["win"], len(out)))
