"""Reference model of the buddy checks, written from the documentation of the checks.

The eligible reports of three months are averaged in cells of one degree and five days; a report is compared with the mean
of the neighbouring cells. The search ends at the poles and goes once round the globe at most. Cells with a report in reach
whose eligibility the model does not settle are not decided.
"""
import math

from . import imma, model, ncstub, voyage, world

SKIP = model.SKIP
NEED = {"SST": [("POS", n, 0) for n in ("date", "time", "pos", "blklst")] + [("SST", n, 0) for n in
                                                                            ("noval", "freez", "clim", "nonorm")],
        "AT": [("POS", "isship", 1), ("AT", "mat_blacklist", 0)] + [("POS", n, 0) for n in ("date", "time", "pos", "blklst",
                                                                                        "day")]
        + [("AT", n, 0) for n in ("noval", "clim", "nonorm")],
        "DPT": [("DPT", "hum_blacklist", 0)] + [("POS", n, 0) for n in ("date", "time", "pos", "blklst")]
        + [("DPT", n, 0) for n in ("noval", "clim", "nonorm")],
        "SLP": [("POS", n, 0) for n in ("date", "time", "pos", "blklst")] + [("SLP", n, 0) for n in ("noval", "clim", "nonorm")]}


def field(f, x, y, p):
    if f is None:
        return None
    t = {73: p, 365: 5 * p}.get(f["shape"][0], 0)
    return ncstub.value(f, t, y, x)


def near(a, b):
    return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))


class Grid:
    def __init__(self):
        self.sum, self.n, self.unsure = {}, {}, set()

    def add(self, c, a):
        self.sum[c] = self.sum.get(c, 0.0) + a
        self.n[c] = self.n.get(c, 0) + 1

    def neighbours(self, c, reach):
        """[(mean, number)] of the cells in reach of c; None where it can't be said."""
        x, y, p = c
        full = int(reach[0] / math.cos(math.radians(89.5 - y)))

        def inside(o):
            dx, dp = (o[0] - x) % 360, (o[2] - p) % 73
            return (min(dx, 360 - dx) <= full and abs(o[1] - y) <= reach[1] and min(dp, 73 - dp) <= reach[2])
        if any(inside(o) for o in self.unsure):
            return None
        return [(self.sum[o] / self.n[o], self.n[o]) for o in sorted(self.n) if o != c and inside(o)]


def erf_gap(a, b, mu, s):
    return 0.5 * (math.erf((b - mu) / (s * math.sqrt(2))) - math.erf((a - mu) / (s * math.sqrt(2))))


def simple(x, c, grid, sd, P):
    mean, width = 0.0, 500.0
    if c in grid.unsure:
        return SKIP
    for j, reach in enumerate(P["limits"]):
        ns = grid.neighbours(c, reach)
        if ns is None:
            return SKIP
        if ns:
            mean = sum(a for a, _ in ns) / len(ns)
            total = sum(k for _, k in ns)
            mult = [m for lim, m in zip(P["number_of_obs_thresholds"][j], P["multipliers"][j]) if total > lim][-1]
            width = mult * (1.0 if sd is None or sd < 0 else sd)
            break
    d = abs(x - mean)
    return SKIP if near(d, width) else int(d > width)


def bayes(x, c, grid, sds, hi, P):
    if c in grid.unsure:
        return SKIP
    ns = grid.neighbours(c, P["limits"])
    if ns is None:
        return SKIP
    s1, s2, s3 = [1.0 if s is None or s < 0 else s for s in sds]
    m, k = P["measurement_error"], P["noise_scaling"]
    mu, sigma = 0.0, 500.0
    if ns:
        mu = sum(a for a, _ in ns) / len(ns)
        t = sum((m ** 2 + k * s2 ** 2) / n for _, n in ns) / float(len(ns)) ** 2 + s3 ** 2 / len(ns)
        sigma = math.sqrt(m ** 2 + s1 ** 2 + k * s2 ** 2 + t)
    p0, q = P["prior_probability_of_gross_error"], P["quantization_interval"]
    if abs(x) > hi - 1e-9:
        return SKIP
    good = erf_gap(x - q / 2, x + q / 2, mu, sigma) / erf_gap(-hi - q / 2, hi + q / 2, mu, sigma)
    gross = 1.0 / (1.0 + 2 * hi / q)
    p = p0 * gross / (p0 * gross + (1 - p0) * good)
    if abs(10 * p - round(10 * p)) < 1e-6:
        return SKIP
    return min(9, int(math.floor(10 * p)))


def flags(spec, y, m, program):
    """{id(report): {(block, flag): value or SKIP}} for the reports of three months."""
    hires = program == "marine_qc_hires"
    P = dict(world.PARAMS)
    P.update(spec.get("params", {}))
    recs = model.window_records(spec, y, m)
    trk = voyage.flags(spec, y, m)
    local = {id(r): model.flags(spec, r, hires=hires) for r in recs}
    out = {id(r): {} for r in recs}
    names = ["SST"] if program != "marine_qc" else ["SST", "AT", "DPT", "SLP"]
    conf, fields = world.conf_fields(spec), world.clim_fields(spec)
    for var in names:
        grid = Grid()
        who = []
        for r in recs:
            fl = local[id(r)]
            states = [fl[(b, n)] if fl[(b, n)] is SKIP else fl[(b, n)] == w for b, n, w in NEED[var]]
            t = trk[id(r)][("POS", "trk")]
            states.append(SKIP if t is SKIP else t == 0)
            if var == "SST":
                states.append(r.get("DCK") != 780)
            if False in states:
                out[id(r)][(var, "bud")] = 0
                if var in ("SST", "AT"):
                    out[id(r)][(var, "bbud")] = 0
                continue
            c = model.cell(r, 1)
            if hires and var == "SST":
                norm = model.field_value(world.hires_field(spec), r, r["MO"], r["DY"])
            else:
                norm = model.clim(spec, var, "mean", r)
            cc = None if c is None or c is SKIP else (c[1], c[0], model.pentad(r["MO"], r["DY"]) - 1)
            if SKIP in states or cc is None or norm is SKIP:
                out[id(r)][(var, "bud")] = out[id(r)][(var, "bbud")] = SKIP
                if cc is not None:
                    grid.unsure.add(cc)
                elif r.get("LAT") is not None:
                    lat, lon = model.latlon(r)     # on the edge of cells: it may count in any of them
                    for dx in (-0.5, 0.5):
                        for dy in (-0.5, 0.5):
                            grid.unsure.add((int(math.floor(lon + 180 + dx)) % 360,
                                             min(179, max(0, int(math.floor(90 - lat + dy)))),
                                             model.pentad(r["MO"], r["DY"]) - 1))
                continue
            a = imma.val(r, var) - norm
            grid.add(cc, a)
            who.append((r, cc, a))
        for r, c, a in who:
            if var in ("SST", "AT"):
                sd = field(conf["Old_SST_stdev_climatology"], *c)
                sds = [field(conf[k], *c) for k in ("SST_buddy_one_box_to_buddy_avg", "SST_buddy_one_ob_to_box_avg",
                                                    "SST_buddy_avg_sampling")]
                out[id(r)][(var, "bbud")] = bayes(a, c, grid, sds, P[var]["maximum_anomaly"], P["bayesian_buddy_check"])
            else:
                sd = field(fields[(var, "stdev")], *c)
            out[id(r)][(var, "bud")] = simple(a, c, grid, sd, P["slp_buddy_check" if var == "SLP" else "mds_buddy_check"])
    return out
