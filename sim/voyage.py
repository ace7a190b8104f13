"""Reference model of the checks that follow a platform's voyage, written from the documentation of the checks.

A voyage is the reports of one ID, over the month before, the month itself and the month after, that pass the position,
date, time and blacklist checks, in the order of the archive. Where a quantity comes within rounding of its limit the
model does not decide (Near).
"""
import datetime
import math

from . import imma, model, world

R = 6371.0088
NM = 0.539957
GENERIC = {None, "1        ", "58       ", "RIGG     ", "     RIGG", "SHIP     ", "ship     ", "     SHIP", "PLAT     ",
           "     PLAT", "         ", "0120     ", "0204     ", "0205     ", "0206     ", "0207     ", "0208     ",
           "0209     ", "MASKST   ", "MASKSTID ", "MASK     ", "XXXX     ", "/////    "}
ALL = [("POS", "trk"), ("POS", "iquam_track"), ("SST", "spike"), ("SST", "rep"), ("AT", "rep"), ("DPT", "rep"),
       ("SLP", "rep"), ("DPT", "repsat"), ("DPT", "round")]


class Near(Exception):
    pass


def over(a, b):
    """a > b, undecided where the two agree to rounding."""
    if a is None or b is None:
        return False
    if abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b)):
        raise Near()
    return a > b


def generic(i, y):
    return (i in GENERIC or 1921 <= y <= 1941 and i in ("2        ", "00002    ")
            or 1930 <= y <= 1937 and i == "3        " or 1934 <= y <= 1954 and i in ("7        ", "00007    "))


def vec(lat, lon):
    a, b = math.radians(lat), math.radians(lon)
    return (math.cos(a) * math.cos(b), math.cos(a) * math.sin(b), math.sin(a))


def dist(p, q):
    u, v = vec(*p), vec(*q)
    c = (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])
    return R * math.atan2(math.sqrt(sum(x * x for x in c)), sum(a * b for a, b in zip(u, v)))


def when(r):
    return (datetime.date(r["YR"], r["MO"], r["DY"]).toordinal() * 24.0) + model.hour(r)


def pos(r):
    return model.latlon(r)


def step(a, b):
    """(speed, distance, hours) from a to b."""
    d = dist(pos(a), pos(b))
    t = when(b) - when(a)
    return (d / t if t != 0 else d), d, t


def course(a, b):
    """Initial course from a to b in degrees, None where it is not well defined."""
    (la1, lo1), (la2, lo2) = pos(a), pos(b)
    if la1 == la2 and (lo1 - lo2) % 360 == 0:
        return 0.0
    la1, lo1, la2, lo2 = [math.radians(x) for x in (la1, lo1, la2, lo2)]
    y = math.sin(lo2 - lo1) * math.cos(la2)
    x = math.cos(la1) * math.sin(la2) - math.sin(la1) * math.cos(la2) * math.cos(lo2 - lo1)
    if abs(y) < 1e-7 or math.cos(la1) < 1e-4 or math.hypot(x, y) < 1e-7:
        raise Near()
    return math.degrees(math.atan2(y, x)) % 360


def move(p, crs, km):
    """Increment of latitude and longitude on going km along a course."""
    la, lo, c, d = math.radians(p[0]), math.radians(p[1]), math.radians(crs), km / R
    la2 = math.asin(max(-1.0, min(1.0, math.sin(la) * math.cos(d) + math.cos(la) * math.sin(d) * math.cos(c))))
    dl = math.atan2(math.sin(c) * math.sin(d) * math.cos(la), math.cos(d) - math.sin(la) * math.sin(la2))
    return math.degrees(la2) - p[0], math.degrees(dl)


def between(p, q, f):
    """The point a fraction f of the way along the great circle."""
    u, v = vec(*p), vec(*q)
    d = dist(p, q) / R
    if d < 1e-9:
        return p
    if math.sin(d) < 1e-6:
        raise Near()
    a, b = math.sin((1 - f) * d) / math.sin(d), math.sin(f * d) / math.sin(d)
    x, y, z = [a * s + b * t for s, t in zip(u, v)]
    return math.degrees(math.atan2(z, math.hypot(x, y))), math.degrees(math.atan2(y, x))


def heading(r):
    v = r.get("DS")
    return None if v is None else [0, 45, 90, 135, 180, 225, 270, 315, 360, None][v]


def knots(r):
    v = r.get("VS")
    if v is None:
        return None
    return 0.0 if v == 0 else (v * 5.0 - 2.0 if r["YR"] >= 1968 else v * 3.0 - 1.0)


def track(vs, P):
    """Flags of the track check."""
    n = len(vs)
    if generic(vs[0].get("ID"), vs[0]["YR"]) or vs[0].get("PT") in (6, 7) or n < 3:
        return [0] * n
    st = [None] + [step(vs[i - 1], vs[i]) for i in range(1, n)]
    speed = [None] + [s[0] for s in st[1:]]
    alt = [None] + [step(vs[i - 1], vs[i + 1])[0] for i in range(1, n - 1)] + [None]
    bins = [0] * 12
    for s in speed[1:]:
        k = s * NM / 3.0
        if abs(k - round(k)) < 1e-6 and 0 < round(k) <= 11:
            raise Near()
        bins[min(11, max(0, int(math.floor(k))))] += 1
    mode = bins.index(max(bins)) * 3.0 + 1.5
    amax = (15.0 if mode <= 8.5 else mode * 1.25) / NM

    def project(i, j, sign, t):
        """Distance between where i projected to j's time should be and j; half way each with either's motion."""
        a, b = vs[i], vs[j]
        if None in (knots(a), knots(b), heading(a), heading(b)):
            return None
        turn = 0.0 if sign > 0 else -180.0
        x = move(pos(a), heading(a) + turn, knots(a) / NM * t / 2.0)
        y = move(pos(b), heading(b) + turn, knots(b) / NM * t / 2.0)
        return dist(pos(b), (pos(a)[0] + x[0] + y[0], pos(a)[1] + x[1] + y[1]))
    out = [0] * n
    for i in range(1, n - 1):
        bad = (over(speed[i], amax) and over(alt[i - 1], amax) or over(speed[i + 1], amax) and over(alt[i + 1], amax)
               or over(speed[i], amax) and over(speed[i + 1], amax))
        if not bad:
            continue
        t0, t1 = st[i][2], st[i + 1][2]
        f = t0 / (t0 + t1) if t0 + t1 != 0 else 0.0
        if not over(dist(pos(vs[i]), between(pos(vs[i - 1]), pos(vs[i + 1]), f)), P["max_midpoint_discrepancy"] / NM):
            continue
        v, w, h, g = knots(vs[i]), knots(vs[i - 1]), heading(vs[i]), heading(vs[i - 1])
        why = over(speed[i], P["max_absolute_speed"] / NM)
        if not why and v and w and t0 > 0:
            far = t0 * (v + w) / 2.0 / NM
            why = over(project(i - 1, i, 1, t0), far) and over(project(i + 1, i, -1, t1), far)
        if not why and v is not None and w is not None:
            why = (over(abs(v / NM - speed[i]), P["max_speed_change"] / NM)
                   and over(abs(w / NM - speed[i]), P["max_speed_change"] / NM))
        if not why and h is not None and g is not None:
            c = course(vs[i - 1], vs[i])
            m = P["max_direction_change"]
            why = any(over(abs(x - c), m) and over(360 - m, abs(x - c)) for x in (h, g))
        out[i] = int(bool(why))
    return out


def worst_first(n, bad):
    """Flags from pairs in conflict: the report in most conflicts goes, the first of equals, until none is left."""
    left = [set(x) for x in bad]
    out = [0] * n
    while any(left):
        k = max(range(n), key=lambda i: (len(left[i]), -i))
        out[k] = 1
        for j in left[k]:
            left[j].discard(k)
        left[k] = set()
    return out


def iquam(vs, P):
    n = len(vs)
    if generic(vs[0].get("ID"), vs[0]["YR"]):
        return [0] * n
    lim = P["buoy_speed_limit"] if vs[0].get("PT") in (6, 7) else P["ship_speed_limit"]
    k = P["number_of_neighbours"]
    bad = [[] for _ in vs]
    for i in range(n):
        for j in range(i + 1, min(n, i + k + 1)):
            _, d, t = step(vs[i], vs[j])
            if over(max(d - P["delta_d"], 0.0) / (abs(t) + P["delta_t"]), lim):
                bad[i].append(j)
                bad[j].append(i)
    return worst_first(n, bad)


def spike(vs, P):
    n = len(vs)
    lim = P["buoy_delta_t"] if vs[0].get("PT") in (6, 7) else P["ship_delta_t"]
    k = P["number_of_neighbours"]
    bad = [[] for _ in vs]
    for i in range(n):
        for j in range(i + 1, min(n, i + k + 1)):
            a, b = imma.val(vs[i], "SST"), imma.val(vs[j], "SST")
            if a is None or b is None or a == b:
                continue
            _, d, t = step(vs[i], vs[j])
            if over(abs(a - b), max(lim, d * P["max_gradient_space"], abs(t) * P["max_gradient_time"])):
                bad[i].append(j)
                bad[j].append(i)
    return worst_first(n, bad)


def repeated(vs, var, P):
    have = [r[var] for r in vs if r.get(var) is not None]
    out = []
    for r in vs:
        v = r.get(var)
        out.append(int(v is not None and len(have) > P["min_count"]
                       and over(have.count(v) / float(len(have)), P["threshold"])))
    return out


def rounded(vs, P):
    have = [r["DPT"] for r in vs if r.get("DPT") is not None]
    whole = [v for v in have if v % 10 == 0]
    if len(have) <= P["min_count"]:
        return [0] * len(vs)
    q = len(whole) / float(len(have))
    hit = q == P["threshold"] or over(q, P["threshold"])
    return [int(hit and r.get("DPT") is not None and r["DPT"] % 10 == 0) for r in vs]


def saturated(vs, P):
    out = [0] * len(vs)
    run = []
    for i, r in enumerate(list(vs) + [None]):
        if r is not None and r.get("AT") is not None and r.get("AT") == r.get("DPT"):
            run.append(i)
            continue
        if len(run) > P["shortest_run"]:
            t = when(vs[run[-1]]) - when(vs[run[0]])
            if t == P["min_time_threshold"] and all(vs[k].get("HR") is not None and vs[k]["HR"] % 300 == 0
                                                   for k in (run[0], run[-1])):
                hit = True         # a whole number of eighths of a day: exact in any arithmetic
            else:
                hit = over(t, P["min_time_threshold"])
            if hit:
                for k in run:
                    out[k] = 1
        run = []
    return out


def flags(spec, y, m):
    """{id(report): {(block, flag): value or SKIP}} for the reports of the month; 9 for those not looked at."""
    P = dict(world.PARAMS)
    P.update(spec.get("params", {}))
    recs = model.window_records(spec, y, m)
    by, out = {}, {}
    for r in recs:
        out[id(r)] = dict.fromkeys(ALL, 9)
        fl = model.flags(spec, r, hires=True)
        if all(fl[("POS", n)] == 0 for n in ("pos", "date", "time", "blklst")):
            by.setdefault(r.get("ID"), []).append(r)
    for i in by:
        vs = by[i]
        todo = {("POS", "trk"): lambda: track(vs, P["track_check"]),
                ("POS", "iquam_track"): lambda: iquam(vs, P["IQUAM_track_check"]),
                ("SST", "spike"): lambda: spike(vs, P["IQUAM_spike_check"]),
                ("DPT", "repsat"): lambda: saturated(vs, P["saturated_runs"]),
                ("DPT", "round"): lambda: rounded(vs, P["multiple_rounded_values"])}
        for v in ("SST", "AT", "DPT", "SLP"):
            todo[(v, "rep")] = lambda v=v: repeated(vs, v, P["find_repeated_values"])
        for k, f in todo.items():
            try:
                got = f()
            except Near:
                got = [model.SKIP] * len(vs)
            for r, g in zip(vs, got):
                out[id(r)][k] = g
    return out
