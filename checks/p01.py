"""Every admissible report exactly once, in order, with the archive's values."""
from sim import model, scen

ID, TITLE = "P01", "Every report of a month appears exactly once in its outputs"
CASES = {"quick": 300, "thorough": 6000}
RULE = ("one case = one program run over 1-3 target months of a generated archive (damaged lines, foreign-month "
        "records, duplicates, excluded IDs, odd IDs), all outputs against the reference model; "
        "distinct by program, tracking, set of months and content of the outputs")


def gen(rng, tier):
    prog = rng.choice(["marine_qc", "marine_qc", "marine_qc_track_only", "marine_qc_hires"])
    n = rng.choice([1, 1, 2, 3])
    win = scen.window(rng, scen.OLD, n)
    spec = scen.make(rng, win, {"ships": rng.randrange(0, 4), "drifters": rng.randrange(0, 4),
                                "others": rng.randrange(0, 3), "reports": rng.choice([2, 6, 9]),
                                "gross": rng.choice([0, .05, .3]), "bad": rng.choice([0, .03, .2]),
                                "foreign": rng.choice([0, .05, .2]), "dups": rng.choice([0, .1]),
                                "oddids": rng.choice([0, 0, .5]), "big": 0.04}, drop=0.05)
    spec["program"] = prog
    spec["tracking"] = rng.random() < 0.7
    spec["knobs"] = scen.knobs(rng)
    spec["params"] = {"runid": scen.runid(rng)}
    return spec


def run(spec, T):
    d = T.deploy(spec)
    prog, tr = spec["program"], spec["tracking"]
    p = d.run1(prog, d.month_args(*spec["win"], tr))
    if p.status != "ok":
        T.fail("run-failed", "%s: %s" % (prog, p.error))
        return
    out = d.out()
    ms = scen.months(spec)
    model.compare(T, spec, prog, out, ms, tr)
    T.key(prog, tr, spec["win"], sorted(out.items()))
    T.samples.append("%s %s tracking=%s: %d files" % (prog, spec["win"], tr, len(out)))
