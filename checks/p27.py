"""Every flag that one report decides follows from that report and the parameters, whatever was run before."""
from sim import gen as G
from sim import model, scen, world

ID, TITLE = "P27", "Flags decided by one report follow from it and the parameters alone"
CASES = {"quick": 200, "thorough": 6000}
RULE = ("one case = a history of 1-3 runs of the programs in one deployment over an archive full of values at and next to "
        "every limit, with seeded parameters and, at times, a death in between, every record-local flag of every row "
        "against the reference model; distinct by programs, window, parameters and content")
PLATFORM = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, None]


def params(rng):
    P = scen.clone({k: world.PARAMS[k] for k in ("base", "SST", "AT", "DPT", "SLP", "W")})
    if rng.random() < 0.5:
        return {}
    P["base"]["time_since_sun_above_horizon"] = rng.choice([0.0, 1.0, 1.0, 2.0, 3.0])
    P["SST"]["freezing_point"] = rng.choice([-1.8, -1.0, 0.0])
    P["SST"]["maximum_anomaly"] = rng.choice([3.0, 8.0, 12.0])
    P["SST"]["hard_limits"] = [rng.choice([-5.0, -2.0, 2.0]), rng.choice([45.0, 30.0])]
    P["AT"]["maximum_anomaly"] = rng.choice([4.0, 10.0])
    P["AT"]["hard_limits"] = [rng.choice([-80.0, -10.0]), rng.choice([65.0, 35.0])]
    P["DPT"]["minmax_standard_deviation"] = rng.choice([[1.0, 4.0], [0.5, 1.2], [1.5, 2.0]])
    P["DPT"]["maximum_standardised_anomaly"] = rng.choice([2.5, 5.5])
    P["SLP"]["maximum_standardised_anomaly"] = rng.choice([1.0, 3.0])
    P["SLP"]["lowbar"] = rng.choice([5.0, 10.0])
    P["W"]["hard_limits"] = rng.choice([[0.0, 50.0], [0.0, 10.0], [1.0, 30.0]])
    P["W"]["variable_limit"] = rng.choice([3.0, 1.5])
    return P


def within(rng, a, b):
    """On, beside and between the ends of an interval of degrees."""
    return int(rng.choice([a * 100, b * 100, a * 100 - 3, b * 100 + 3] + [rng.uniform(a, b) * 100] * 3))


def edge(rng, P, r, win):
    """Puts one field of a report at or beside a limit."""
    def near(v):
        return int(round(v * 10)) + rng.choice([-1, 0, 0, 1])
    y, m = r["YR"], r["MO"]
    last = world.mlen(y, m)
    k = rng.choice(["sst", "at", "dpt", "w", "wind", "pt", "dck", "day", "hour", "pos", "mat", "d732", "none", "slp",
                    "sat", "deck701", "day", "calm"])
    if rng.random() < 0.4:
        k = "mat" if 1879 <= y <= 1893 else "d732" if 1957 <= y <= 1975 else "deck701" if y <= 1860 else k
    if k == "sst":
        r["SST"] = near(rng.choice([P["SST"]["freezing_point"]] + P["SST"]["hard_limits"]))
    elif k == "at":
        r["AT"] = near(rng.choice(P["AT"]["hard_limits"]))
    elif k == "dpt":
        r["DPT"] = near(rng.choice(P["DPT"]["hard_limits"]))
    elif k == "w":
        r["W"] = max(0, near(rng.choice(P["W"]["hard_limits"] + [P["W"]["variable_limit"]])))
    elif k == "wind":
        r["D"], r["W"] = rng.choice([361, 362, 360, 1]), rng.choice([0, 1, 14, 15, 16, 29, 30, 31, None])
    elif k == "calm":
        r["D"], r["W"] = rng.choice([361, 362, None]), rng.choice([0, None, 30])
    elif k == "pt":
        r["PT"] = rng.choice(PLATFORM)
    elif k == "dck":
        r["DCK"] = rng.choice([708, 780, 874, 732, 193, 701, 795, 926, None])
    elif k == "day":
        r["DY"] = rng.choice([0, 1, last, last, last + 1, 29, 30, 31, 32, None])
    elif k == "hour":
        r["HR"] = rng.choice([0, 1, 99, 2300, 2399, 2400, 2401, None])
    elif k == "pos":
        r["LAT"] = rng.choice([9000, -9000, 8999, 9001, -9001, r["LAT"]])
        r["LON"] = rng.choice([18000, -18000, 35999, 36000, 36001, -18001, 18001, 17999, r["LON"]])
    elif k == "mat":
        lo0, lo1, la0, la1 = rng.choice(model.MAT_REGION)
        r["DCK"] = 193
        r["LAT"], r["LON"] = within(rng, la0, la1), within(rng, lo0, lo1)
    elif k == "d732":
        lo0, la0, lo1, la1 = rng.choice([model.REGION[i] for i in sorted(model.REGION)])
        r["DCK"] = 732
        r["LAT"], r["LON"] = within(rng, la0, la1), within(rng, lo0, lo1)
    elif k == "none":
        for n in rng.sample(["SST", "AT", "DPT", "SLP", "W", "D"], rng.randrange(1, 6)):
            r[n] = None
    elif k == "slp":
        r["SLP"] = rng.choice([8700, 9500, 9900, 10000, 10100, 10500, 10746, 8699])
    elif k == "sat" and r["AT"] is not None:
        r["DPT"] = r["AT"] + rng.choice([-1, 0, 1])
    elif k == "deck701":
        r["DCK"], r["HR"] = 701, None


def gen(rng, tier):
    years = rng.choice([[1855, 1859, 1860], [1880, 1888, 1892, 1893], [1958, 1963, 1968, 1971, 1974], [1985, 2004, 2012],
                        [1900, 2000, 2024], [2005, 2006]])
    win = scen.window(rng, years, rng.choice([1, 1, 2]), edgy=0.6)
    if years[0] == 2005:
        win = rng.choice([(2005, 11, 2005, 12), (2005, 12, 2006, 1), (2006, 1, 2006, 2), (2005, 10, 2005, 11)])
    P0 = params(rng)
    P = dict(world.PARAMS, **P0)
    spec = scen.make(rng, win, {"ships": rng.randrange(1, 4), "drifters": rng.randrange(0, 3),
                                "others": rng.randrange(0, 3), "reports": rng.choice([5, 9]),
                                "gross": rng.choice([0, .05, .2]), "grid_edges": rng.random() < 0.2})
    q = rng.choice([0.2, 0.5, 0.9])
    bad = sorted(model.BAD_DRIFTERS)
    rename = {}
    for k in sorted(spec["files"]):
        for f in spec["files"][k]:
            for r in f["lines"]:
                if "raw" in r:
                    continue
                if years[0] == 2005 and r.get("PT") == 7 and r.get("ID"):
                    if r["ID"] not in rename:
                        rename[r["ID"]] = "%-9s" % rng.choice(bad) if rng.random() < 0.6 else r["ID"]
                    if rename[r["ID"]] not in [x.ljust(9) for x in spec["exclude"]]:
                        r["ID"] = rename[r["ID"]]
                if rng.random() < q and r.get("MO"):
                    edge(rng, P, r, win)
            G.retime(f["lines"])
    spec["params"] = P0
    spec["runs"] = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        spec["runs"].append([rng.choice(["marine_qc", "marine_qc", "marine_qc_hires", "marine_qc_track_only"]),
                             rng.random() < 0.6])
    spec["die"] = rng.random() < 0.3
    spec["knobs"] = scen.knobs(rng)
    return spec


def run(spec, T):
    d = T.deploy(spec)
    ms = scen.months(spec)
    for i, (prog, tr) in enumerate(spec["runs"]):
        tr = tr or prog == "marine_qc_track_only"
        if spec["die"] and i == 0:
            plan = spec.get("plan")
            if plan is None:
                p = d.run1(prog, d.month_args(*spec["win"], tr))
                if p.status != "ok":
                    T.fail("run-failed", "%s: %s" % (prog, p.error))
                    return
                rng = scen.rng_of(spec, "die")
                plan = spec["plan"] = [scen.crash_at(rng, x) for x in scen.pick_points(rng, p.trace, 1)]
                d.reset()
            d.run1(prog, d.month_args(*spec["win"], tr), plan)
        p = d.run1(prog, d.month_args(*spec["win"], tr))
        if p.status != "ok":
            T.fail("run-failed", "%s: %s" % (prog, p.error))
            return
        if not model.compare(T, spec, prog, d.out(), ms, tr, values=False, flagmodel=True, exact=False,
                             label="run %d (%s): " % (i, prog)):
            return
    T.key(spec["runs"], spec["win"], spec["params"], sorted(d.out().items()))
    T.samples.append("%r %r" % (spec["runs"], spec["win"]))
