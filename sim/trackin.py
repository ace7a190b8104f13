"""Inputs of the tracking QC for one drifter, made up report by report, and a reference model of its outputs."""
import datetime
import math

import numpy as np

from . import model, world

POS = model.DRIFTER_QC["POS"]
SST = model.DRIFTER_QC["SST"]
TPOS = ["drf_agr", "drf_spd"]
TSST = ["drf_tail1", "drf_tail2", "drf_bias", "drf_noise", "drf_short"]
HEAD = (["UID", "DATE", "PENTAD", "ID", "LON", "LAT", "YR", "MO", "DY", "HR"] + POS + SST + TPOS + TSST +
        ["SST", "OSTIA", "BGVAR", "ICE"])
BLOCKS = ("Variables", "POS_qc", "SST_qc")


def light(y, m, d, h, lat, lon):
    """N or D: night or day for the SST checks (sun below -2.5 degrees); T: too near to say."""
    e = model.sun_elevation(y, m, d, h, lat, lon) + 2.5
    return "T" if abs(e) < model.sun_doubt(y) else "N" if e < 0 else "D"


def when(s):
    return datetime.date(*s[:3]).toordinal() * 24.0 + s[3]


# -- generation -------------------------------------------------------------------------------
def drifter(rng, win, ident, uidgen, n=None, gaps=0.25, bad=0.15, sstbad=0.15):
    """[report] in time order: a dict of text-ready values and flags."""
    months = [m for m in world.months(*win)]
    if len(months) > 2:
        months = [months[0]] + [m for m in months[1:-1] if rng.random() > gaps] + [months[-1]]
    n = n if n is not None else rng.choice([1, 2, 3, 6, 8, 12, 25, 45, 80])
    lat, lon = rng.uniform(0.1, rng.choice([2, 44, 44, 82])) * rng.choice([1, -1]), rng.uniform(-180, 180)
    if rng.random() < 0.25:                       # about to cross the date line, or Greenwich
        lon = rng.choice([179.98, -179.98, 179.7, -179.7, 0.02, -0.02, -0.3])
    kind = rng.choice(["drift", "drift", "agr", "pick", "agrpick", "slow"])
    temp = rng.choice(["good", "good", "bias", "noise", "tail1", "tail2", "bothtails", "spikes", "badbg", "shorttail"])
    # slots: half-hours of day or night beyond doubt, others only for reports that the SST checks are not to use
    slots = []
    bursts = rng.random() < 0.3                   # several reports an hour where night falls and ends
    for y, m in months:
        for d in range(1, world.mlen(y, m) + 1):
            for q in range(48):
                h = q / 2.0
                slots.append((y, m, d, h, light(y, m, d, h, lat, lon)))
                if bursts and q < 47 and slots[-1][4] != light(y, m, d, h + 0.5, lat, lon):
                    slots.extend((y, m, d, round(h + f, 2), light(y, m, d, h + f, lat, lon))
                                 for f in sorted(rng.sample([k / 100.0 for k in range(3, 49)], 7)))
    good = [i for i, s in enumerate(slots) if s[4] == "N" or s[4] == "D" and (s[3] % 3 == 0 or s[3] * 2 % 1)] or [0, 7, 11]
    if bursts and rng.random() < 0.5:
        good = [i for i in good if slots[i][3] * 2 % 1 or slots[i][3] % 6 == 0] or good
    dense = rng.random() < 0.6
    if dense:
        a = rng.randrange(len(good))
        span = good[a:a + int(n * rng.choice([1.3, 2, 4])) + 2]
        span = span if len(span) >= min(n, 3) else good
        pick = set(rng.sample(span, min(n, len(span))))
    else:
        pick = set(rng.sample(good, min(n, len(good))))
    odd = [i for i, s in enumerate(slots) if s[4] == "T"]
    for _ in range(int(n * 0.15) if odd else 0):
        pick.add(rng.choice(odd))
    pick = sorted(pick)
    n = len(pick)
    agr_from = rng.randrange(n) if kind.startswith("agr") else n
    p0 = rng.randrange(n)
    pickup = range(p0, p0 + rng.randrange(1, 9)) if kind.endswith("pick") else ()
    head = rng.uniform(-1, 1), rng.uniform(-1, 1)
    k1, k2 = rng.randrange(1, max(2, n // 2 + 1)), rng.randrange(max(0, n // 2), n)
    out = []
    last = None
    bias0 = rng.choice([1.0, 1.6, -3.0])
    for j, i in enumerate(pick):
        y, m, d, h, near = slots[i]
        if last is not None and j < agr_from:
            dt = min(72.0, when(slots[i]) - when(slots[last]))
            v = {"slow": 0.0005}.get(kind, 0.02) if j not in pickup else rng.choice([0.15, 0.3])
            lat += head[0] * v * dt
            lon += head[1] * v * dt
        last = i
        lat, lon = max(-84.0, min(84.0, lat)), (lon + 180.0) % 360.0 - 180.0
        la = round(lat + rng.choice([0, 0, 0.01, -0.01]) * (rng.random() < 0.2), 2)
        lo = round(lon, 2)
        if rng.random() < 0.03:
            la = round(max(-84, min(84, lat + rng.choice([5, -5, 0.5]))), 2)
        if abs(la) < 0.02:
            la = 0.02
        near = light(y, m, d, h, la, lo)       # it may have drifted into another time of day
        ost = round(rng.uniform(5, 25), 6)
        sd = {"noise": 2.2}.get(temp, 0.25)
        an = rng.gauss(0, sd)
        if temp == "bias":
            an += bias0
        if temp in ("tail1", "bothtails") and j < k1:
            an += rng.choice([4, 6, 9])
        if temp in ("tail2", "bothtails") and j >= k2:
            an -= rng.choice([4, 6, 9])
        if temp == "spikes" and rng.random() < 0.15:
            an += rng.choice([-8, 8])
        if temp == "shorttail" and j < 4:
            an += rng.choice([5.0, 0])
        var = round(rng.uniform(0.01, 0.2), 6)
        if temp == "badbg" and rng.random() < 0.3:
            var = round(rng.uniform(0.31, 2), 6)
        r = {"UID": uidgen(), "ID": ident, "YR": y, "MO": m, "DY": d, "HR": h, "LAT": la, "LON": lo, "near": near,
             "SST": round(ost + an, 1), "OSTIA": ost, "ICE": rng.choice([None, 0.0, 0.0, 0.1]), "BGVAR": var}
        if rng.random() < 0.05:
            r["ICE"] = rng.choice([0.16, 0.9])
        if rng.random() < 0.05:
            r["OSTIA"] = r["ICE"] = None
        r["pos"] = {f: 0 for f in POS}
        r["pos"].update(isbuoy=1, isdrifter=1, day=rng.randrange(2), iquam_track=int(rng.random() < 0.1))
        r["sst"] = {f: 0 for f in SST}
        r["sst"].update(bud=rng.choice([0, 0, 1, 9]), nbud=rng.choice([0, 1]), bbud=rng.choice([0, 0, 1, 2, 3]),
                        spike=rng.choice([0, 0, 0, 1]))
        if near == "T" or rng.random() < sstbad:
            f = rng.choice(["clim", "nonorm", "freez", "noval", "rep", "hardlimit", "bbud"])
            r["sst"][f] = 1 if f != "bbud" else rng.choice([4, 5, 8, 9])
            if f == "noval":
                r["SST"] = None
                r["sst"]["clim"] = r["sst"]["hardlimit"] = 1
            if f == "freez":
                r["SST"] = -5.5
            if f == "hardlimit":
                r["SST"] = 60.0
        if rng.random() < bad:
            f = rng.choice(["isbuoy", "date", "time", "pos", "blklst", "date0"])
            r["pos"].update(trk=9, iquam_track=9, day=9)
            if f == "isbuoy":
                r["pos"]["isbuoy"] = 0
            elif f == "date":
                r["DY"] = None
                r["pos"]["date"] = 1
            elif f == "date0":
                r["DY"] = rng.choice([0, 32])
                r["pos"]["date"] = 1
            elif f == "time":
                r["HR"] = rng.choice([None, 24.5])
                r["pos"]["time"] = 1
            elif f == "pos":
                r["LAT"] = rng.choice([95.0, -99.9])
                r["pos"]["pos"] = 1
                r["OSTIA"] = r["ICE"] = r["BGVAR"] = None
            else:
                r["LAT"], r["LON"] = 0.0, 0.0
                r["pos"]["blklst"] = 1
        out.append(r)
    return out


def txt(v):
    return "\\N" if v is None else str(v)


def rows(reps):
    """{block: text} of one month's three files."""
    out = {}
    t = ",".join(model.DRIFTER_VARS) + "\n"
    for r in reps:
        c = {"DATE": "%04d-%02d-%02d" % (r["YR"], r["MO"], r["DY"]) if model.valid_day(r["YR"], r["MO"], r["DY"])
             else "0000-00-00", "PENTAD": "1"}
        vals = []
        for n in model.DRIFTER_VARS:
            vals.append(c[n] if n in c else '"%s"' % r["ID"].replace('"', '""') if n == "ID" else txt(r.get(n)))
        t += ",".join(vals) + "\n"
    out["Variables"] = t
    for b, names, k in (("POS_qc", POS, "pos"), ("SST_qc", SST, "sst")):
        t = "UID," + ",".join(names) + "\n"
        for r in reps:
            t += r["UID"] + "," + ",".join(str(r[k][f]) for f in names) + "\n"
        out[b] = t
    return out


def path(root, block, y, m, ident, runid=None):
    return "%s/out/%d/%02d/%s_%d%02d_%s_%s.csv" % (root, y, m, block, y, m, model.safe(ident), runid or model.RUNID)


def by_month(reps):
    out = {}
    for r in reps:
        out.setdefault((r["YR"], r["MO"]), []).append(r)
    return out


def write(root, reps, ident, order=None):
    """Writes the inputs of one drifter; order: a rearrangement of each month's rows."""
    for (y, m), rs in by_month(reps).items():
        rs = list(rs)
        if order is not None:
            order(rs)
        for b, t in rows(rs).items():
            world.put(path(root, b, y, m, ident), t.encode("latin-1"))


def output(win_end, ident, edge, runmonthid, runid=None):
    """Paths below track of the outputs of one chunk, by documentation."""
    y, m = win_end
    name = "Tracking_%d%02d_%s_%s.csv" % (y, m, model.safe(ident), runid or model.RUNID)
    d = "TrackingQC/%d/%02d/" % (y, m)
    out = []
    if "new" in edge or "regular" in edge:
        out.append(d + name)
    for e in ("start_edge_case", "end_edge_case"):
        if e in edge:
            out.append(d + e + "_" + runmonthid + "/" + name)
    return out


# -- the reference model ------------------------------------------------------------------------
R = 6371.0088


def dist(a, b):
    la1, lo1, la2, lo2 = [math.radians(x) for x in (a["LAT"], a["LON"], b["LAT"], b["LON"])]
    s = math.sin((la1 - la2) / 2) ** 2 + math.cos(la1) * math.cos(la2) * math.sin((lo1 - lo2) / 2) ** 2
    return 2 * R * math.asin(min(1.0, math.sqrt(s)))


def hours(r):
    import datetime
    return (datetime.date(r["YR"], r["MO"], r["DY"]).toordinal()) * 24.0 + r["HR"]


class Near(Exception):
    """A comparison too close to call."""


def gt(a, b):
    if abs(a - b) < 1e-9 * max(1.0, abs(b)):
        raise Near()
    return a > b


def passes_track(r):
    p = r["pos"]
    return p["isbuoy"] == 1 and p["date"] == 0 and p["time"] == 0 and p["pos"] == 0 and p["blklst"] == 0


def passes_sst(r):
    s = r["sst"]
    return all(s[f] == 0 for f in ("clim", "nonorm", "freez", "noval", "rep", "hardlimit")) and s["bbud"] < 4


def aground(v, par):
    w, period = int(par["smooth_win"]), par["min_win_period"] * 24.0
    n = len(v)
    if n <= w:
        return [0] * n
    half = (w - 1) // 2
    t = [hours(r) for r in v]
    lons = []                                # without jumps at the date line
    for r in v:
        lons.append(r["LON"] if not lons else lons[-1] + (r["LON"] - lons[-1] + 180) % 360 - 180)
    sm = []
    for i in range(n - w + 1):
        sm.append({"LAT": float(np.median([r["LAT"] for r in v[i:i + w]])),
                   "LON": float(np.median(lons[i:i + w])), "t": t[i + half]})
    tol = dist({"LAT": 0, "LON": 0}, {"LAT": 0.01, "LON": 0.01})
    first = None
    for i, s in enumerate(sm):
        if sm[-1]["t"] - s["t"] < period:
            break
        if gt(dist(s, sm[-1]), tol):
            first = None
        elif first is None:
            first = i
    if first is None:
        return [0] * n
    if first > 0:
        first += half
    return [int(i >= first) for i in range(n)]


def iquam(v, limit, par):
    """IQUAM track check: the report with most speed violations goes, again and again."""
    n, k = len(v), int(par["number_of_neighbours"])
    t = [hours(r) for r in v]
    bad = [set() for _ in v]
    for i in range(n):
        for j in range(max(0, i - k), min(n, i + k + 1)):
            if i != j and gt(max(dist(v[i], v[j]) - par["delta_d"], 0.0) / (abs(t[i] - t[j]) + par["delta_t"]), limit):
                bad[i].add(j)
    flag = [0] * n
    while any(bad):
        i = max(range(n), key=lambda q: (len(bad[q]), -q))
        flag[i] = 1
        for j in bad[i]:
            bad[j].discard(i)
        bad[i] = set()
    return flag


def speed(v, iq, par):
    n, period = len(v), par["min_win_period"] * 24.0
    if n <= 1:
        return [0] * n
    t = [hours(r) for r in v]
    f = iquam(v, iq["ship_speed_limit"], iq)
    out = [0] * n
    for i in range(n):
        if t[-1] - t[i] < period:
            break
        if f[i]:
            continue
        later = [j for j in range(n) if t[j] >= t[i] + period and not f[j]]
        if not later:
            continue
        j = later[0]
        if gt(dist(v[i], v[j]) / (t[j] - t[i]) * 1000.0 / 3600.0, par["speed_limit"]):
            for q in range(i, j + 1):
                out[q] = 1
    return out


def usable(r):
    """Night, over water, not icy."""
    return r["near"] == "N" and r["OSTIA"] is not None and not (r["ICE"] is not None and r["ICE"] > 0.15)


def tails(v, p):
    n_all = len(v)
    idx = [i for i, r in enumerate(v) if usable(r)]
    t1, t2 = [0] * n_all, [0] * n_all
    an = [v[i]["SST"] - v[i]["OSTIA"] for i in idx]
    er = [math.sqrt(v[i]["BGVAR"]) for i in idx]
    n = len(idx)
    if n == 0:
        return t1, t2
    start, end = -1, n
    L = int(p["long_win_len"])
    lim = math.sqrt(p["background_err_lim"])
    if n >= L:
        for back in (False, True):
            a, e = (an[::-1], er[::-1]) if back else (an, er)
            for i in range(n - L + 1):
                wa, we = np.array(a[i:i + L]), np.array(e[i:i + L])
                if any(gt(x, lim) for x in we):
                    break
                if gt(abs(np.mean(wa)), p["long_err_std_n"] * math.sqrt(p["drift_inter"] ** 2 + np.mean(we) ** 2)) or \
                        gt(np.std(wa), math.sqrt(p["drif_intra"] ** 2 + np.mean(we ** 2))):
                    if back:
                        end = n - 1 - i - (L - 1) // 2
                    else:
                        start = i + (L - 1) // 2
                else:
                    break
    if start < end:
        S = int(p["short_win_len"])
        a0, e0 = an[start + 1:end], er[start + 1:end]
        m = len(a0)
        if m >= S:
            for back in (False, True):
                a, e = (a0[::-1], e0[::-1]) if back else (a0, e0)
                for i in range(m - S + 1):
                    if any(gt(x, lim) for x in e[i:i + S]):
                        break
                    bad = sum(gt(abs(x), p["short_err_std_n"] * math.sqrt(y ** 2 + p["drift_inter"] ** 2 +
                                                                          p["drif_intra"] ** 2))
                              for x, y in zip(a[i:i + S], e[i:i + S]))
                    if bad < p["short_win_n_bad"]:
                        break
                    step = S if i == m - S else 1
                    if back:
                        end -= step
                    else:
                        start += step
    if start >= end:
        return t1, t2
    if start != -1:
        t1 = [int(i <= idx[start]) for i in range(n_all)]
    if end != n:
        t2 = [int(i >= idx[end]) for i in range(n_all)]
    return t1, t2


def bias(v, p):
    """(bias, noise, short) for the whole record."""
    lim = p["background_err_lim"]
    masked = any(r["BGVAR"] is not None and gt(r["BGVAR"], lim) for r in v)
    use = [r for r in v if usable(r) and not gt(r["BGVAR"], lim)]
    if not use:
        return 0, 0, 0
    a = np.array([r["SST"] - r["OSTIA"] for r in use])
    e = np.array([r["BGVAR"] for r in use])
    if len(use) >= p["n_eval"]:
        return (int(gt(abs(np.mean(a)), p["bias_lim"])),
                int(gt(np.std(a), math.sqrt(p["drif_intra"] ** 2 + np.mean(e)))), 0)
    if masked:
        return 0, 0, 0
    bad = sum(gt(abs(x), p["err_std_n"] * math.sqrt(y + p["drift_inter"] ** 2 + p["drif_intra"] ** 2))
              for x, y in zip(a, e))
    return 0, 0, int(bad >= p["n_bad"])


def flags(reps, params):
    """{uid: {flag: value}}; raises Near where a comparison is too close to call."""
    P = dict(world.PARAMS)
    P.update(params or {})
    b = dict(P["buoy_bias_noise_check"])
    b["drift_inter"] = b["drif_inter"]
    t = P["buoy_tail_check"]
    out = {r["UID"]: {f: 9 for f in TPOS + TSST} for r in reps}
    v = sorted([r for r in reps if passes_track(r)], key=hours)
    for r, x, y in zip(v, aground(v, P["new_buoy_aground_check"]),
                       speed(v, P["IQUAM_track_check"], P["new_buoy_speed_check"])):
        out[r["UID"]].update(drf_agr=x, drf_spd=y)
    v = [r for r in v if passes_sst(r) and out[r["UID"]]["drf_agr"] == 0 and out[r["UID"]]["drf_spd"] == 0]
    for r, x, y in zip(v, *tails(v, t)):
        out[r["UID"]].update(drf_tail1=x, drf_tail2=y)
    v = [r for r in v if out[r["UID"]]["drf_tail1"] == 0 and out[r["UID"]]["drf_tail2"] == 0]
    x, y, z = bias(v, b)
    for r in v:
        out[r["UID"]].update(drf_bias=x, drf_noise=y, drf_short=z)
    return out


def args(d, ident, win, edge, runmonthid):
    return ["-config", d.conf, "-id=" + ident, "-yr1", str(win[0]), "-mn1", str(win[1]), "-yr2", str(win[2]), "-mn2",
            str(win[3]), "-edge"] + list(edge) + ["-runmonthid", runmonthid]


EDGES = [["regular"], ["new"], ["start_edge_case"], ["end_edge_case"], ["start_edge_case", "end_edge_case"],
         ["start_edge_case", "new"], ["new", "regular"]]


def uidgen(rng):
    from . import gen
    state = [rng.randrange(36 ** 6)]

    def nxt():
        state[0] = (state[0] + rng.randrange(1, 999)) % (36 ** 6)
        return gen.uid(state[0])
    return nxt


def new_id(rng, odd=0.3, others=(), kin=0.4):
    """An ID; often one that is easily taken for one of the others."""
    if others and rng.random() < kin:
        s = rng.choice(list(others)).rstrip()
        s = rng.choice([s + "1", s + "X", s[:-1], s[1:], "0" + s, s[:-1] + "7", s.swapcase(), "1" + s[1:]])
        if 0 < len(s.strip()) and len(s) <= 9 and s[0] != " ":
            return "%-9s" % s
    s = rng.choice(["%05d", "%07d"]) % rng.randrange(10000, 99999)
    if rng.random() < odd:
        s = rng.choice(["44/%03d", "7*%03d", "A %03d", "D-%03d", "9.%03d", "B/%02d*", "E,%03d", 'F"%03d',
                        "G\'%03d", "H[%03d]", "?%03d", "{%03d}"]) % rng.randrange(100)
    return "%-9s" % s


def check_output(T, data, where, reps, want, label=""):
    """One tracking output against the reports that must be in it; want: {uid: flags} or None."""
    if not data.endswith(b"\n"):
        T.fail("torn", "%s does not end with a line" % where)
        return False
    head, body = world.parse_csv(data)
    if head != HEAD:
        T.fail("header", "%s: %r" % (where, head))
        return False
    got = [b[0].ljust(6) for b in body]
    from collections import Counter
    w = Counter(r["UID"] for r in reps)
    if Counter(got) != w:
        T.fail("not-once", "%s: lacks %r, has too many of %r" % (where, list((w - Counter(got)))[:4],
                                                                 list((Counter(got) - w))[:4]))
        return False
    by = {b[0].ljust(6): dict(zip(head, b)) for b in body}
    for r in reps:
        g = by[r["UID"]]
        for c in ("ID", "LON", "LAT", "YR", "MO", "DY", "HR", "SST", "OSTIA", "BGVAR", "ICE"):
            val = g[c].ljust(9) if c == "ID" else g[c]
            if not model.same(c, val, r[c]):
                T.fail("value-" + c, "%s, report %s: %s is %r instead of %r" % (where, r["UID"], c, g[c], r[c]))
                return False
        for k, names in (("pos", POS), ("sst", SST)):
            for f in names:
                if g[f] != str(r[k][f]):
                    T.fail("flag-" + f, "%s, report %s: %s is %s instead of %d" % (where, r["UID"], f, g[f], r[k][f]))
                    return False
        if want is not None:
            for f in TPOS + TSST:
                if g[f] != str(want[r["UID"]][f]):
                    T.fail("track-" + f, "%s%s, report %s: %s is %s instead of %d"
                           % (label, where, r["UID"], f, g[f], want[r["UID"]][f]))
                    return False
    if all(model.valid_day(r["YR"], r["MO"], r["DY"]) and r["HR"] is not None and 0 <= r["HR"] < 24 for r in reps):
        t = {r["UID"]: hours(r) for r in reps}
        seq = [t[u] for u in got]
        if seq != sorted(seq):
            T.fail("time-order", "%s is not in time order" % where)
            return False
    return True
