"""Small executable reference models of what the programs must produce, written from the documentation.

Nothing here calls the code under test. Values that the model does not settle are SKIP.
"""
import calendar
import datetime
import math

from collections import Counter

from . import imma, ncstub, world


class _Skip:
    def __repr__(self):
        return "SKIP"


SKIP = _Skip()
RUNID = "base"
ML = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
ML29 = [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


# -- what the archive holds ------------------------------------------------------------------
def month_file(spec, y, m):
    """The archive file that counts for the month, or None."""
    files = spec["files"].get(world.key(y, m)) or []
    return min(files, key=lambda f: f.get("stub", 0)) if files else None


def pad(i):
    return "%-9s" % i if len(i) < 9 else i


def admissible(spec, y, m):
    f = month_file(spec, y, m)
    if f is None:
        return []
    ex = {pad(i) for i in spec.get("exclude", [])}
    out = []
    for r in f["lines"]:
        if "raw" in r:
            continue
        if r.get("UID") is None or r.get("LAT") is None or r.get("LON") is None:
            continue
        if r.get("YR") != y or r.get("MO") != m or r.get("ID") in ex:
            continue
        out.append(r)
    return out


# -- positions, days --------------------------------------------------------------------------
def latlon(r):
    lat, lon = r["LAT"] * 0.01, r["LON"] * 0.01
    if r["LON"] > 18000:
        lon -= 360.0
    return lat, lon


def cell(r, per_degree):
    """(row, column) counted from 90 N and 180 W; None off the globe; SKIP on an edge."""
    la = r["LAT"]
    lo = r["LON"] if r["LON"] <= 18000 else r["LON"] - 36000
    if la > 9000 or la < -9000 or lo > 18000 or lo < -18000:
        return None
    step = 100 // per_degree
    if la % step == 0 or lo % step == 0:
        return SKIP
    return (9000 - la) // step, (lo + 18000) // step


def valid_day(y, m, d):
    return d is not None and 1 <= m <= 12 and 1 <= d <= calendar.monthrange(y, m)[1]


def day_before(r):
    """(year, month, day) of the day before the report's, None where it has no valid day."""
    if r.get("YR") is None or r.get("MO") is None or not valid_day(r["YR"], r["MO"], r.get("DY")):
        return None
    d = datetime.date(r["YR"], r["MO"], r["DY"]) - datetime.timedelta(1)
    return d.year, d.month, d.day


def clim_day(m, d):
    """A day on which a climatology has a value (29 February always counts)."""
    return d is not None and 1 <= m <= 12 and 1 <= d <= ML29[m - 1]


def pentad(m, d):
    if m == 2 and d == 29:
        m, d = 3, 1
    return (sum(ML[:m - 1]) + d - 1) // 5 + 1


def field_value(f, r, m, d):
    """Value of a climatology where and when the report was made."""
    if f is None or not clim_day(m, d):
        return None
    c = cell(r, f["shape"][1] // 180)
    if c is None or c is SKIP:
        return c
    return ncstub.value(f, tindex(f, m, d), c[0], c[1])


def tindex(f, m, d):
    n = f["shape"][0]
    if n == 73:
        return pentad(m, d) - 1
    if n == 365:
        return sum(ML[:m - 1]) + d - 1 if (m, d) != (2, 29) else 59
    return 0


def clim(spec, name, stat, r):
    """mds-style fields have no value off the globe; the others are not settled there."""
    v = field_value(world.clim_fields(spec)[(name, stat)], r, r["MO"], r.get("DY"))
    if cell(r, 1) is None and clim_day(r["MO"], r.get("DY")):
        return None if name in ("SST", "AT") else SKIP
    return v


def season(m):
    return ["DJF", "DJF", "MAM", "MAM", "MAM", "JJA", "JJA", "JJA", "SON", "SON", "SON", "DJF"][m - 1]


def background_entry(spec, y, m, d):
    """The background file that counts for the day: first directory that has one, bzipped before plain."""
    es = spec.get("bg", {}).get("%04d%02d%02d" % (y, m, d)) or []
    for stub in range(len(world.BACKGROUNDS)):
        for form in ("bz2", "plain"):
            for e in es:
                if e["stub"] == stub and e["form"] == form:
                    return e
    return None


def background(spec, r):
    """(OSTIA, ICE, BGVAR) of a report when tracking is on."""
    y, m, d = r["YR"], r["MO"], r.get("DY")
    if y < 1985 or d is None:
        return None, None, None
    ost = ice = None
    if valid_day(y, m, d):
        day = datetime.date(y, m, d) - datetime.timedelta(1)
        e = background_entry(spec, day.year, day.month, day.day)
        if e is not None:
            fs = world.bg_spec(e)
            c = cell(r, 20)
            if c is SKIP:
                ost = ice = SKIP
            elif c is not None:
                ost = ncstub.value(fs["analysed_sst"], 0, c[0], c[1])
                ost = None if ost is None else ost - 273.15
                ice = ncstub.value(fs["sea_ice_fraction"], 0, c[0], c[1])
    f = world.conf_fields(spec)[season(m) + "_ostia_background"]
    var = None if cell(r, 1) is None else field_value(f, r, m, d)
    return ost, ice, var


# -- expected variables -----------------------------------------------------------------------
def hour(r):
    if r.get("HR") is None:
        return 0.0 if r.get("DCK") == 701 and r["YR"] < 1860 else None
    return r["HR"] * 0.01


def minus(a, b):
    if a is None:
        return None
    if b is SKIP:
        return SKIP
    return None if b is None else a - b


def variables(spec, r, kind, tracking):
    """Expected columns of one row. kind: 'deck' or 'drifter'."""
    y, m, d = r["YR"], r["MO"], r.get("DY")
    v = imma.val
    out = {"UID": r["UID"],
           "DATE": "%04d-%02d-%02d" % (y, m, d) if valid_day(y, m, d) else "0000-00-00",
           "PENTAD": pentad(m, d) if clim_day(m, d) else 0,
           "ID": r.get("ID"), "YR": y, "MO": m, "DY": d, "HR": hour(r),
           "LAT": r["LAT"] * 0.01, "LON": r["LON"] * 0.01, "AT": v(r, "AT"), "SST": v(r, "SST"),
           "DPT": v(r, "DPT"), "SLP": v(r, "SLP"),
           "SST_anom": minus(v(r, "SST"), clim(spec, "SST", "mean", r))}
    if kind == "trackonly":
        out.update(AT_anom=None, DPT_anom=None, SLP_anom=None)
    else:
        for n in ("AT", "DPT", "SLP"):
            out[n + "_anom"] = minus(v(r, n), clim(spec, n, "mean", r))
    ost, ice, var = background(spec, r) if tracking else (None, None, None)
    out["OSTIA"] = ost
    if kind == "deck":
        out["W"], out["D"] = v(r, "W"), v(r, "D")
    else:
        out["ICE"], out["BGVAR"] = ice, var
    return out


DECK_VARS = ["UID", "DATE", "PENTAD", "ID", "YR", "MO", "DY", "HR", "LAT", "LON", "AT", "AT_anom", "SST", "SST_anom",
             "DPT", "DPT_anom", "SLP", "SLP_anom", "OSTIA", "W", "D"]
DRIFTER_VARS = DECK_VARS[:19] + ["ICE", "BGVAR"]
QC = {"POS": ["day", "isship", "trk", "date", "time", "pos", "blklst", "isbuoy", "iquam_track"],
      "SST": ["bud", "clim", "nonorm", "freez", "noval", "nbud", "bbud", "rep", "spike", "hardlimit"],
      "AT": ["bud", "clim", "nonorm", "freez", "noval", "mat_blacklist", "bbud", "rep", "hardlimit"],
      "DPT": ["bud", "clim", "nonorm", "freez", "noval", "hum_blacklist", "bbud", "rep", "ssat", "repsat", "round",
              "hardlimit"],
      "SLP": ["bud", "clim", "nonorm", "noval", "rep"],
      "W": ["noval", "hardlimit", "consistency", "wind_blacklist"]}
DRIFTER_QC = {"POS": QC["POS"] + ["isdrifter"], "SST": QC["SST"]}


# -- expected values of the flags that depend on one report alone ---------------------------------
REGION = {1: [-175, 40, -170, 55], 2: [-165, 40, -160, 60], 3: [-145, 40, -140, 50], 4: [-140, 30, -135, 40],
          5: [-140, 50, -130, 55], 6: [-70, 35, -60, 40], 7: [-50, 45, -40, 50], 8: [5, 70, 10, 80],
          9: [0, -10, 10, 0], 10: [-30, -25, -25, -20], 11: [-60, -50, -55, -45], 12: [75, -20, 80, -15],
          13: [50, -30, 60, -20], 14: [30, -40, 40, -30], 15: [20, 60, 25, 65], 16: [0, -40, 10, -30],
          17: [-135, 30, -130, 40]}
YEARS = {1958: [1, 2, 3, 4, 5, 6, 14, 15], 1959: [1, 2, 3, 4, 5, 6, 14, 15], 1960: [1, 2, 3, 5, 6, 9, 14, 15],
         1961: [1, 2, 3, 5, 6, 14, 15, 16], 1962: [1, 2, 3, 5, 12, 13, 14, 15, 16],
         1963: [1, 2, 3, 5, 6, 12, 13, 14, 15, 16], 1964: [1, 2, 3, 5, 6, 12, 13, 14, 16],
         1965: [1, 2, 6, 10, 12, 13, 14, 15, 16], 1966: [1, 2, 6, 9, 14, 15, 16], 1967: [1, 2, 5, 6, 9, 14, 15],
         1968: [1, 2, 3, 5, 6, 9, 14, 15], 1969: [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 14, 15, 16],
         1970: [1, 2, 3, 4, 5, 6, 8, 9, 14, 15], 1971: [1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 14, 16],
         1972: [4, 7, 8, 9, 10, 11, 13, 16, 17], 1973: [4, 7, 8, 10, 11, 13, 16, 17],
         1974: [4, 7, 8, 10, 11, 16, 17]}
BAD_DRIFTERS = {"53521", "53522", "53566", "53567", "53568", "53571", "53578", "53580", "53582", "53591", "53592",
                "53593", "53594", "53595", "53596", "53599", "53600", "53601", "53602", "53603", "53604", "53605",
                "53606", "53607", "53608", "53609", "53901", "53902"}
MAT_REGION = [(-80, 0, 40, 55), (-10, 30, 35, 45), (15, 45, -10, 40), (15, 95, -10, 15), (95, 105, -10, 5)]


def blacklisted(r):
    lat, lon = latlon(r)
    y, m = r["YR"], r["MO"]
    if r["LAT"] == 0 and r["LON"] == 0:
        return 1
    if r.get("PT") == 13 or r.get("DCK") == 874:
        return 1
    if r.get("DCK") == 732:
        for i in YEARS.get(y, []):
            a = REGION[i]
            if a[0] <= lon <= a[2] and a[1] <= lat <= a[3]:
                return 1
    if (y, m) in ((2005, 11), (2005, 12), (2006, 1)) and (r.get("ID") or "").rstrip() in BAD_DRIFTERS:
        return 1
    return 0


def hard(v, lim):
    return 1 if v is None or not lim[0] <= v <= lim[1] else 0


def flag_clim(v, c, limit):
    if v is None or c is None:
        return 1
    if c is SKIP:
        return SKIP
    d = abs(v - c)
    return SKIP if abs(d - limit) < 1e-9 else int(d > limit)


def flag_std(v, c, s, check):
    if v is None:
        return 1
    if c is SKIP or s is SKIP:
        return SKIP
    if c is None or s is None:
        return 1
    return check(abs(v - c), s)


def sun_elevation(y, m, d, hour, lat, lon):
    """Elevation of the sun in degrees, to a small fraction of a degree (Astronomical Almanac, low precision)."""
    n = (datetime.datetime(y, m, d) - datetime.datetime(2000, 1, 1, 12)).total_seconds() / 86400.0 + hour / 24.0
    mean = math.radians((280.460 + 0.9856474 * n) % 360)
    g = math.radians((357.528 + 0.9856003 * n) % 360)
    lam = mean + math.radians(1.915 * math.sin(g) + 0.020 * math.sin(2 * g))
    eps = math.radians(23.439 - 0.0000004 * n)
    ra = math.atan2(math.cos(eps) * math.sin(lam), math.cos(lam))
    dec = math.asin(math.sin(eps) * math.sin(lam))
    gmst = (18.697374558 + 24.06570982441908 * n) % 24
    ha = math.radians(gmst * 15 + lon) - ra
    la = math.radians(lat)
    return math.degrees(math.asin(math.sin(la) * math.sin(dec) + math.cos(la) * math.cos(dec) * math.cos(ha)))


def sun_doubt(y):
    """How near to the limit, in degrees, the sun is too near to say on which side it is (the code counts leap days simply)."""
    return 0.1 if y >= 1985 else 0.7 if y >= 1901 else 1.1


def sunlit(r, hours_before):
    """1 if the sun was up that long before the report, 0 if down, SKIP if too near to the horizon to say."""
    lat, lon = latlon(r)
    e = sun_elevation(r["YR"], r["MO"], r["DY"], hour(r) - hours_before, lat, lon)
    return SKIP if abs(e) < sun_doubt(r["YR"]) else int(e > 0)


def flags(spec, r, hires=False):
    """{(block, flag): value} of every flag that one report alone decides."""
    P = dict(world.PARAMS)
    P.update(spec.get("params", {}))
    v = imma.val
    y, m, d, h = r["YR"], r["MO"], r.get("DY"), hour(r)
    out = {}
    pt, dck = r.get("PT"), r.get("DCK")
    pos = int(not (-9000 <= r["LAT"] <= 9000 and -18000 <= r["LON"] <= 36000))
    date = int(not (1850 <= y <= 2024 and valid_day(y, m, d)))
    tim = int(h is None or h >= 24 or h < 0)
    out[("POS", "pos")], out[("POS", "date")], out[("POS", "time")] = pos, date, tim
    if pos or date or tim:
        out[("POS", "day")] = 1
    else:
        out[("POS", "day")] = sunlit(r, P["base"]["time_since_sun_above_horizon"])
    out[("POS", "blklst")] = blacklisted(r)
    out[("POS", "isship")] = int(pt in (0, 1, 2, 3, 4, 5, 10, 11, 12, 17))
    out[("POS", "isbuoy")] = int(pt in (6, 7))
    out[("POS", "isdrifter")] = int(pt == 7)
    sst = v(r, "SST")
    if hires:
        sc = field_value(world.hires_field(spec), r, m, d)
        if cell(r, 1) is None:
            sc = SKIP if clim_day(m, d) else None
    else:
        sc = clim(spec, "SST", "mean", r)
    out[("SST", "noval")] = int(sst is None)
    out[("SST", "freez")] = int(sst is not None and r["SST"] < int(round(P["SST"]["freezing_point"] * 10)))
    out[("SST", "clim")] = flag_clim(sst, sc, P["SST"]["maximum_anomaly"])
    out[("SST", "nonorm")] = SKIP if sc is SKIP else int(sc is None)
    out[("SST", "hardlimit")] = hard(sst, P["SST"]["hard_limits"])
    if hires:
        return out
    at, dpt, slp, w = v(r, "AT"), v(r, "DPT"), v(r, "SLP"), v(r, "W")
    ac = clim(spec, "AT", "mean", r)
    out[("AT", "noval")] = int(at is None)
    out[("AT", "clim")] = flag_clim(at, ac, P["AT"]["maximum_anomaly"])
    out[("AT", "nonorm")] = SKIP if ac is SKIP else int(ac is None)
    out[("AT", "hardlimit")] = hard(at, P["AT"]["hard_limits"])
    lat, lon = latlon(r)
    mb = pt == 5 and dck == 780
    if dck == 193 and 1880 <= y <= 1892:
        mb = mb or any(a <= lon <= b and c <= lat <= e for a, b, c, e in MAT_REGION)
    out[("AT", "mat_blacklist")] = int(mb)
    dc, ds = clim(spec, "DPT", "mean", r), clim(spec, "DPT", "stdev", r)

    def dew(diff, s):
        lo, hi = P["DPT"]["minmax_standard_deviation"]
        q = diff / min(hi, max(lo, s))
        lim = P["DPT"]["maximum_standardised_anomaly"]
        return SKIP if abs(q - lim) < 1e-9 else int(q > lim)

    out[("DPT", "clim")] = flag_std(dpt, dc, ds, dew)
    out[("DPT", "noval")] = int(dpt is None)
    out[("DPT", "nonorm")] = SKIP if dc is SKIP else int(dc is None)
    out[("DPT", "ssat")] = int(dpt is None or at is None or r["DPT"] > r["AT"])
    out[("DPT", "hum_blacklist")] = int(pt not in (0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 15))
    pc, ps = clim(spec, "SLP", "mean", r), clim(spec, "SLP", "stdev", r)

    def press(diff, s):
        a, b = P["SLP"]["maximum_standardised_anomaly"], P["SLP"]["lowbar"]
        if abs(diff / s - a) < 1e-9 or abs(diff - b) < 1e-9:
            return SKIP
        return int(diff / s > a and diff > b)

    out[("SLP", "clim")] = flag_std(slp, pc, ps, press)
    out[("SLP", "noval")] = int(slp is None)
    out[("SLP", "nonorm")] = SKIP if pc is SKIP else int(pc is None)
    out[("W", "noval")] = int(w is None)
    out[("W", "hardlimit")] = hard(w, P["W"]["hard_limits"])
    dd = r.get("D")
    lim = P["W"]["variable_limit"]
    out[("W", "consistency")] = int((dd == 361 and w != 0) or (dd == 362 and w is not None and w > lim))
    out[("W", "wind_blacklist")] = int(dck in (708, 780))
    return out


# -- expected files -----------------------------------------------------------------------------
def safe(i):
    return i.replace("/", "_").replace("*", "_")


def drifters(spec, y, m):
    """{id: records of the month} of the drifters, in the order of their first report."""
    out = {}
    for r in admissible(spec, y, m):
        if r.get("ID") is not None and r.get("PT") == 7:
            out.setdefault(r["ID"], []).append(r)
    return out


def window_records(spec, y, m):
    return [r for a in (world.prevm(y, m), (y, m), world.nextm(y, m)) for r in admissible(spec, *a)]


def expected_files(spec, program, y, m, tracking):
    """{relative path: ('vars'|'qc'|'ids', block, rows)} below out for one month."""
    k = world.key(y, m)
    d = "%d/%02d/" % (y, m)
    recs = admissible(spec, y, m)
    out = {}
    some = bool(window_records(spec, y, m))
    if program == "marine_qc" and some:
        out[d + "Variables_%s_%s.csv" % (k, RUNID)] = ("vars", "deck", recs)
        for b in QC:
            out[d + "%s_qc_%s_%s.csv" % (b, k, RUNID)] = ("qc", (b, QC[b]), recs)
    if program == "marine_qc_hires" and some:
        out[d + "SST_qc_%s_hires_%s.csv" % (k, RUNID)] = ("qc", ("SST", QC["SST"]), recs)
    if tracking:
        dr = drifters(spec, y, m)
        out[d + "ID_file.txt"] = ("ids", None, list(dr))
        for i, rows in dr.items():
            s = safe(i)
            if sum(safe(j) == s for j in dr) > 1:      # drifters that share a name are compare()'s business
                continue
            if program == "marine_qc_hires":
                out[d + "SST_qc_%s_%s_hires_%s.csv" % (k, s, RUNID)] = ("qc", ("SST", QC["SST"]), rows)
                continue
            kind = "trackonly" if program == "marine_qc_track_only" else "drifter"
            out[d + "Variables_%s_%s_%s.csv" % (k, s, RUNID)] = ("vars", kind, rows)
            for b in DRIFTER_QC:
                out[d + "%s_qc_%s_%s_%s.csv" % (b, k, s, RUNID)] = ("qc", (b, DRIFTER_QC[b]), rows)
    return out


def same(col, got, want):
    if want is SKIP:
        return True
    if want is None:
        return got == "\\N"
    if col in ("UID", "DATE", "ID"):
        return got == want
    try:
        return abs(float(got) - want) <= 1e-6 * max(1.0, abs(want)) + 1e-9
    except ValueError:
        return False


def header(kind, block):
    if kind == "vars":
        return DECK_VARS if block == "deck" else DRIFTER_VARS
    return ["UID"] + list(block[1])


def compare(T, spec, program, out, months, tracking, values=True, flagmodel=False, exact=True, label=""):
    """Compares a snapshot of the output tree with the model; reports every kind of difference once."""
    want = {}
    for y, m in months:
        want.update(expected_files(spec, program, y, m, tracking))
    seen = set()

    def bad(kind, text):
        if kind not in seen:
            seen.add(kind)
            T.fail(kind, label + text)

    for path in sorted(want):
        if path not in out:
            bad("file-missing", "%s is not there" % path)
    if exact:
        shared = any(n > 1 for y, m in months for n in Counter(safe(i) for i in drifters(spec, y, m)).values())
        for path in sorted(out):
            if path not in want and not shared:
                bad("file-extra", "%s should not be there" % path)
    hires = program == "marine_qc_hires"
    for y, m in months if tracking else []:
        names = Counter(safe(i) for i in drifters(spec, y, m))
        for s in sorted(n for n in names if names[n] > 1):
            tail = "_hires_%s.csv" % RUNID if hires else "_%s.csv" % RUNID
            start = "%d/%02d/%s_%s_%s" % (y, m, "SST_qc" if hires else "Variables", world.key(y, m), s.rstrip())
            n = sum(p.startswith(start) and p.endswith(tail) for p in out)
            if n < names[s]:
                bad("name-shared", "%d drifters have %d set(s) of files, %s..." % (names[s], n, start))
    cache = {}
    for path in sorted(want):
        if path not in out:
            continue
        kind, block, rows = want[path]
        data = out[path]
        if kind == "ids":
            text = "".join("%s,%s\n" % (i, safe(i)) for i in rows)
            lines = data.decode("latin-1").splitlines(True)
            if sorted(lines) != sorted(text.splitlines(True)):
                bad("id-list", "%s: %r instead of %r" % (path, lines[:6], text.splitlines(True)[:6]))
            T.count("id_lists")
            continue
        if not data.endswith(b"\n"):
            bad("file-torn", "%s does not end with a line" % path)
            continue
        head, body = world.parse_csv(data)
        if head != header(kind, block):
            bad("header", "%s: %r" % (path, head))
            continue
        uids = [b[0].ljust(6) for b in body]
        wuids = [r["UID"].ljust(6) for r in rows]
        if uids != wuids:
            lost, extra = Counter(wuids) - Counter(uids), Counter(uids) - Counter(wuids)
            if lost:
                bad("report-lost", "%s lacks %r" % (path, list(lost)[:5]))
            if extra:
                bad("report-extra", "%s has too many of %r" % (path, list(extra)[:5]))
            if not lost and not extra:
                bad("report-order", "%s: %r instead of %r" % (path, uids[:8], wuids[:8]))
            continue
        T.count("rows", len(rows))
        for b, r in zip(body, rows):
            if len(b) != len(head):
                bad("columns", "%s: %r" % (path, b))
                continue
            if kind == "vars" and values:
                kk = (id(r), block)
                if kk not in cache:
                    cache[kk] = variables(spec, r, block, tracking)
                w = cache[kk]
                for c, g in zip(head, b):
                    ww = w[c]
                    if c in ("UID", "ID"):
                        g = g.ljust(len(ww)) if ww is not None else g
                    if not same(c, g, ww):
                        bad("value-" + c, "%s, report %s: %s is %r instead of %r" % (path, r["UID"], c, g, ww))
            if kind == "qc":
                for g in b[1:]:
                    if g not in "0123456789" or len(g) != 1:
                        bad("flag-range", "%s, report %s: %r" % (path, r["UID"], g))
                if flagmodel:
                    if id(r) not in cache:
                        cache[id(r)] = flags(spec, r, hires)
                    fl = cache[id(r)]
                    for c, g in zip(block[1], b[1:]):
                        ww = fl.get((block[0], c), SKIP)
                        if ww is not SKIP:
                            T.count("flags")
                            if str(ww) != g:
                                bad("flag-%s-%s" % (block[0], c), "%s, report %s: %s %s is %s instead of %s"
                                    % (path, r["UID"], block[0], c, g, ww))
    return not seen
