"""Months without data neither stop a run nor leak into the months around them."""
from sim import model, scen, world

ID, TITLE = "P05", "Months with no archive file, or an empty one, are stepped over"
CASES = {"quick": 200, "thorough": 5000}
RULE = ("one case = a run over 2-5 months of which some, at the start, in the middle, at the end, all, or a whole "
        "neighbourhood, have no archive file, a file with no records, or only unusable ones; every output against the "
        "reference model; distinct by program and pattern of the months")


def gen(rng, tier):
    prog = rng.choice(["marine_qc", "marine_qc", "marine_qc_track_only", "marine_qc_hires"])
    win = scen.window(rng, scen.OLD, rng.choice([2, 3, 4, 5]))
    spec = scen.make(rng, win, {"ships": rng.randrange(0, 2), "drifters": rng.randrange(0, 3), "others": 1, "reports": 4,
                                "excluded": rng.choice([0, 1])})
    ks = sorted(spec["files"])
    mode = rng.choice(["one", "run", "most", "all", "random"])
    gone = set()
    if mode == "one":
        gone = {rng.choice(ks)}
    elif mode == "run":
        a = rng.randrange(len(ks))
        gone = set(ks[a:a + rng.choice([2, 3, 4])])
    elif mode == "most":
        gone = set(ks) - {rng.choice(ks)}
    elif mode == "all":
        gone = set(ks)
    else:
        gone = {k for k in ks if rng.random() < 0.4}
    for k in sorted(gone):
        how = rng.choice(["absent", "absent", "norecords", "unusable"])
        if how == "absent":
            del spec["files"][k]
        else:
            for f in spec["files"][k]:
                f["lines"] = []
                if how == "unusable":
                    f["lines"] = [{"raw": "XXXX"}, {"raw": ""}, {"raw": " " * 120}][:rng.randrange(1, 4)]
    if rng.random() < 0.3:      # the month is in both archives: the first one counts
        for k in sorted(spec["files"]):
            fs = spec["files"][k]
            if fs and rng.random() < 0.5:
                fs.append({"stub": 1 - fs[0]["stub"], "lines": fs[0]["lines"][: len(fs[0]["lines"]) // 2]})
    spec["program"] = prog
    spec["tracking"] = rng.random() < 0.7
    return spec


def run(spec, T):
    d = T.deploy(spec)
    prog, tr = spec["program"], spec["tracking"]
    p = d.run1(prog, d.month_args(*spec["win"], tr))
    if p.status != "ok":
        T.fail("stopped", "%s: %s" % (prog, p.error))
        return
    out = d.out()
    ms = scen.months(spec)
    model.compare(T, spec, prog, out, ms, tr, flagmodel=True)
    pat = ""
    w = [world.prevm(*ms[0])] + ms + [world.nextm(*ms[-1])]
    for y, m in w:
        f = model.month_file(spec, y, m)
        pat += "-" if f is None else "0" if not f["lines"] else "x" if not model.admissible(spec, y, m) else "D"
    T.count("pattern_months", len(pat))
    T.key(prog, tr, pat, spec["win"][1])
    if len(T.samples) < 2:
        T.samples.append("%s %s %s" % (prog, spec["win"], pat))
