"""The voyage checks of a month follow from each platform's own usable reports of three months."""
from sim import gen as G
from sim import model, scen, voyage, world

ID, TITLE = "P26", "Voyage flags follow from the platform's own reports of three months"
CASES = {"quick": 250, "thorough": 6000}
RULE = ("one case = a run over 1-3 months of an archive of ships and buoys with position errors, spikes, repeated, rounded and "
        "saturated values, unusable records and gaps, the nine voyage flags of every row against a reference model of voyages; "
        "distinct by program, window, parameters and content; the counts give the number of flags of each kind set and clear")


def params(rng):
    P = scen.clone({k: world.PARAMS[k] for k in ("track_check", "IQUAM_track_check", "IQUAM_spike_check", "saturated_runs",
                                                 "multiple_rounded_values", "find_repeated_values")})
    # limits off the grid of the data: no ties by rounding
    P["IQUAM_spike_check"]["ship_delta_t"] = rng.choice([2.03, 2.03, 0.97])
    P["IQUAM_spike_check"]["buoy_delta_t"] = rng.choice([1.02, 1.02, 0.51])
    P["IQUAM_spike_check"]["max_gradient_time"] = rng.choice([1.0, 1.003, 0.101, 0.503])
    P["IQUAM_spike_check"]["max_gradient_space"] = rng.choice([0.5, 0.011, 0.107])
    P["IQUAM_spike_check"]["number_of_neighbours"] = rng.choice([5, 5, 1, 2, 30])
    P["IQUAM_track_check"]["number_of_neighbours"] = rng.choice([5, 5, 1, 2, 30])
    P["IQUAM_track_check"]["ship_speed_limit"] = rng.choice([60.0, 60.0, 25.0])
    P["IQUAM_track_check"]["buoy_speed_limit"] = rng.choice([15.0, 15.0, 3.0])
    P["track_check"]["max_midpoint_discrepancy"] = rng.choice([150.0, 150.0, 30.0, 80.0])
    P["track_check"]["max_speed_change"] = rng.choice([10.0, 10.0, 4.0])
    P["track_check"]["max_direction_change"] = rng.choice([60.0, 60.0, 30.0, 100.0])
    P["track_check"]["max_absolute_speed"] = rng.choice([40.0, 40.0, 60.0, 20.0])
    P["find_repeated_values"].update(min_count=rng.choice([5, 20, 2]), threshold=rng.choice([0.7, 0.31, 0.53]))
    P["multiple_rounded_values"].update(min_count=rng.choice([5, 20, 2]), threshold=rng.choice([0.5, 0.5, 0.31, 0.23]))
    P["saturated_runs"].update(shortest_run=rng.choice([4, 4, 2, 8]), min_time_threshold=rng.choice([48.0, 48.0, 24.0, 12.0]))
    return P


def sail(g, rng, kind):
    """A platform whose reported motion agrees more or less with its positions."""
    recs = g.platform(kind)
    style = rng.choice(["asis", "asis", "steady", "steady", "loop", "fast", "slow"])
    jump = rng.choice([0.0, 0.05, 0.15])
    if style != "asis":
        v = {"steady": rng.uniform(6, 14), "loop": 9, "fast": rng.uniform(16, 26), "slow": rng.uniform(0, 3)}[style]
        crs = rng.uniform(0, 360)
        p, t = (rng.uniform(-60, 60), rng.uniform(-180, 180)), None
        if rng.random() < 0.2:
            p = (rng.choice([-1, 1]) * rng.uniform(70, 84), p[1])
        if rng.random() < 0.2:
            p = (p[0], rng.choice([179.8, -179.9, 0.05]))
        for r in recs:
            if not world_ok(r):
                continue
            now = voyage.when(r)
            if t is not None:
                dt = min(30.0, now - t)
                a, b = voyage.move(p, crs, v / voyage.NM * dt)
                p = (max(-88.0, min(88.0, p[0] + a)), (p[1] + b + 180) % 360 - 180)
                if style == "loop" or rng.random() < 0.05:
                    crs = (crs + rng.uniform(20, 90)) % 360
            t = now
            la, lo = p
            if rng.random() < jump:
                la = max(-89, min(89, la + rng.choice([-20, 10, 4, 2, -1, 0.3])))
                lo += rng.choice([0, 10, -10, 3, 1])
            r["LAT"], r["LON"] = g.snap(la), g.snap((lo + 180) % 360 - 180)
            if rng.random() < 0.3 and r["LON"] < 0:
                r["LON"] += 36000
            if r["DS"] is not None:
                r["DS"] = int(round(crs / 45.0)) % 8 if rng.random() < 0.85 else rng.randrange(10)
            if r["VS"] is not None:
                x = v + rng.gauss(0, 2)
                r["VS"] = max(0, min(9, int((x + 5) / (5.0 if r["YR"] >= 1968 else 3.0)))) if rng.random() < .85 else rng.randrange(10)
    dup = rng.choice([0, 0, 0.1])
    spikes = rng.choice([0, 0.05, 0.2])
    same = rng.choice([None, None, "SST", "AT", "DPT", "SLP"])
    sat = rng.choice([0, 0, 0.5, 0.85, 0.95])
    whole = rng.choice([0, 0, 0.3, 0.6])
    const = {}
    out = []
    for r in recs:
        if rng.random() < spikes and r["SST"] is not None:
            r["SST"] += rng.choice([-40, -15, -11, 12, 21, 30, 90])
        if same and r[same] is not None and rng.random() < 0.75:
            r[same] = const.setdefault(same, r[same])
        if r["AT"] is not None and rng.random() < sat:
            r["DPT"] = r["AT"]
        if r["DPT"] is not None and rng.random() < whole:
            r["DPT"] -= r["DPT"] % 10
        out.append(r)
        if rng.random() < dup:           # a second report at the same moment
            q = dict(r)
            q["UID"] = g.uid()
            if rng.random() < 0.5:
                q["LAT"] = g.snap(min(89.0, q["LAT"] / 100.0 + rng.choice([0, 0.3, 2])))
            if q["SST"] is not None:
                q["SST"] += rng.choice([0, 5, 13, 25])
            out.append(q)
    return out


def world_ok(r):
    return (model.valid_day(r["YR"], r["MO"], r.get("DY")) and r.get("HR") is not None and 0 <= r["HR"] < 2400)


class Gen(G.Gen):
    inside = False

    def platform(self, kind):
        if self.inside:
            return G.Gen.platform(self, kind)
        self.inside = True
        try:
            return sail(self, self.rng, kind)
        finally:
            self.inside = False


def gen(rng, tier):
    n = rng.choice([1, 1, 2, 3])
    years = rng.choice([[1855, 1885, 1890], [1925, 1935, 1940, 1950], [1966, 1967, 1968, 1974], [1985, 1999, 2004, 2012]])
    win = scen.window(rng, years, n, edgy=0.5)
    g = Gen(rng, *win, opts={"ships": rng.randrange(1, 5), "drifters": rng.randrange(0, 3), "others": rng.randrange(0, 3),
                             "reports": rng.choice([2, 6, 14]), "gross": rng.choice([0, .05, .2]),
                             "bad": rng.choice([0, .05]), "foreign": rng.choice([0, .05]), "dups": rng.choice([0, .05]),
                             "track_err": rng.choice([0, 0.05, 0.2])})
    if rng.random() < 0.05:
        g.opts["reports"] = rng.choice([50, 110])
    elif rng.random() < 0.1:
        g.opts.update(reports=1, ships=6)
    files = g.archive()
    ids, d720 = {}, set()
    odd = ["2        ", "00002    ", "3        ", "7        ", "00007    ", "1        ", "MASKST   ", "0205     "]
    for k in sorted(files):
        for f in files[k]:
            for r in f["lines"]:
                if "raw" in r or r.get("ID") is None or r["ID"].rstrip() in g.exclude:
                    continue
                if r["ID"] not in ids:
                    ids[r["ID"]] = r["ID"]
                    if rng.random() < 0.15:      # IDs that are shared by many ships in some years
                        o = rng.choice(odd)
                        if o not in ids.values():
                            ids[r["ID"]] = o
                    if rng.random() < 0.1:
                        d720.add(r["ID"])
                if rng.random() < (0.9 if r["ID"] in d720 else 0.01):
                    r["DCK"] = 720
                r["ID"] = ids[r["ID"]]
            G.retime(f["lines"])
    spec = {"win": list(win), "files": files, "exclude": g.exclude, "bg": {}}
    spec["program"] = rng.choice(["marine_qc", "marine_qc", "marine_qc", "marine_qc_hires", "marine_qc_track_only"])
    spec["tracking"] = spec["program"] != "marine_qc" or rng.random() < 0.4
    spec["params"] = params(rng) if rng.random() < 0.85 else {}
    spec["knobs"] = scen.knobs(rng)
    return spec


def check(T, spec, prog, out, y, m, tracking, label=""):
    """Voyage flags of one month's outputs; True if right."""
    fl = voyage.flags(spec, y, m)
    hires = prog == "marine_qc_hires"
    for path, (kind, block, rows) in sorted(model.expected_files(spec, prog, y, m, tracking).items()):
        if kind != "qc":
            continue
        if path not in out:
            T.fail("file-missing", label + path)
            return False
        head, body = world.parse_csv(out[path])
        if [b[0].ljust(6) for b in body] != [r["UID"].ljust(6) for r in rows]:
            T.fail("rows-differ", "%s%s" % (label, path))
            return False
        for b, r in zip(body, rows):
            for c, g in zip(head[1:], b[1:]):
                k = (block[0], c)
                if k not in fl[id(r)]:
                    continue
                w = fl[id(r)][k]
                if hires and k == ("SST", "spike"):
                    w = 9
                if w is model.SKIP:
                    T.count("undecided")
                    continue
                T.count("%s_%s_%s" % (k[0], k[1], w))
                if g != str(w):
                    T.fail("flag-%s-%s" % k, "%s%s, report %s of %s (%d %d %r %r): %s %s is %s instead of %s"
                           % (label, path, r["UID"], r.get("ID"), r["YR"], r["MO"], r.get("DY"), r.get("HR"),
                              k[0], k[1], g, w))
                    return False
    return True


def run(spec, T):
    d = T.deploy(spec)
    prog, tr = spec["program"], spec["tracking"]
    p = d.run1(prog, d.month_args(*spec["win"], tr))
    if p.status != "ok":
        T.fail("run-failed", "%s: %s" % (prog, p.error))
        return
    out = d.out()
    for y, m in scen.months(spec):
        if not check(T, spec, prog, out, y, m, tr):
            return
    T.key(prog, tr, spec["win"], spec["params"], sorted(out.items()))
    T.samples.append("%s %s: %d files" % (prog, spec["win"], len(out)))
