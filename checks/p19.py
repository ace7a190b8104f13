"""Anomalies and climatology-based flags are those of the right cell and day however the fields are laid out in their files."""
from checks import p28
from sim import gen as G
from sim import model, scen, world

ID, TITLE = "P19", "Climatologies are read right, however their files are laid out"
CASES = {"quick": 180, "thorough": 5000}
RULE = ("one case = a run over 1-2 months of an archive spread over the globe and the year with the climatologies in seeded "
        "layouts (south to north, from 0 E, longitude first, with a level axis; one field, pentads or days; other names of the "
        "axes; missing cells or no mask; no file at all; negative standard deviations), every anomaly, every flag that rests "
        "on a climatology and every buddy flag against the reference models; distinct by layouts, window and content")
LATS = ["lat", "lats", "latitude", "latitudes"]
LONS = ["lon", "lons", "long", "longs", "longitude", "longitudes"]


def layout(rng):
    s = "".join(c for c in "fr" if rng.random() < 0.5)
    x = rng.random()
    return s + ("t" if x < 0.15 else "4" if x < 0.3 else "n" if x < 0.4 else "")


def gen(rng, tier):
    win = scen.window(rng, scen.OLD, rng.choice([1, 1, 2]), edgy=0.6)
    g = G.Gen(rng, *win, opts={"ships": rng.randrange(2, 8), "drifters": rng.randrange(0, 4), "others": rng.randrange(0, 3),
                               "reports": rng.choice([4, 9]), "gross": rng.choice([0, .05]), "track_err": 0})
    files = g.archive()
    if rng.random() < 0.5:
        p28.crowd(rng, g, files, rng.choice([0.7, 2.0, 4.0]))
    spec = {"win": list(win), "files": files, "exclude": g.exclude, "bg": g.background() if rng.random() < 0.5 else {}}
    spec["program"] = rng.choice(["marine_qc", "marine_qc", "marine_qc", "marine_qc_hires", "marine_qc_track_only"])
    spec["tracking"] = spec["program"] != "marine_qc" or rng.random() < 0.4
    if spec["tracking"]:
        scen.from_greenwich(rng, spec, 0.6)
    spec["fields"] = {}
    big = 1
    used = ["clim:SST/mean", "clim:AT/mean", "clim:DPT/mean", "clim:DPT/stdev", "clim:SLP/mean", "clim:SLP/stdev"]
    for k in used + ["clim:SHU/mean", "hires:SST/mean"] + ["conf:" + x for x in sorted(world.CONF_CLIMS)]:
        if rng.random() < 0.35:
            continue
        o = {"layout": layout(rng), "missing": rng.choice([0.0, 0.05, 0.3])}
        if "n" in o["layout"]:
            o["missing"] = 0.0
        if rng.random() < 0.6:
            o["axes"] = [rng.choice(LATS), rng.choice(LONS)]
        if k.startswith("hires"):
            o["layout"] = "".join(c for c in o["layout"] if c in "f4n")
        else:
            n = rng.choice([1, 73, 73])
            if big and rng.random() < 0.15 and "r" not in o["layout"]:
                n, big = 365, 0
            o["shape"] = [n, 180, 360]
            if "stdev" in k or k.startswith("conf:SST_buddy") or k.startswith("conf:Old"):
                if rng.random() < 0.3 and k.startswith("conf:"):
                    o["base"], o["amp"] = -0.3, 1.2
        if k.startswith("clim:") and rng.random() < 0.07:
            o = {"absent": True}
        o["seed"] = rng.randrange(100, 180)
        spec["fields"][k] = o
    spec["knobs"] = scen.knobs(rng)
    return spec


def run(spec, T):
    d = T.deploy(spec)
    prog, tr = spec["program"], spec["tracking"]
    p = d.run1(prog, d.month_args(*spec["win"], tr))
    if p.status != "ok":
        T.fail("run-failed", "%s: %s" % (prog, p.error))
        return
    out, ms = d.out(), scen.months(spec)
    if not model.compare(T, spec, prog, out, ms, tr, flagmodel=True):
        return
    for y, m in ms:
        if not p28.check(T, spec, prog, out, y, m, tr):
            return
    T.key(prog, tr, spec["win"], spec["fields"], sorted(out.items()))
    if len(T.samples) < 3:
        T.samples.append("%s %s %r" % (prog, spec["win"], spec["fields"]))
