"""Seeded generation of archives: platforms, their reports, gross errors, damaged lines."""
import random

from . import imma, ncstub, world

B36 = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def uid(n):
    s = ""
    for _ in range(6):
        s = B36[n % 36] + s
        n //= 36
    return s


def clim_at(lat, lon, y, m, d, name="SST"):
    """Roughly what the SST climatology says there (only used to make plausible values)."""
    spec = [c for c in world.CLIMS if c[0] == name and c[1] == "mean"][0][3]
    row = min(179, max(0, int(90 - lat)))
    col = min(359, max(0, int(lon + 180)))
    t = min(72, ((m - 1) * 30 + d) // 5) if spec["shape"][0] == 73 else 0
    if "f" in spec.get("layout", ""):
        pass
    v = ncstub.value(spec, t, row, col)
    return v if v is not None else 15.0


ID_STYLES = ["%05d", "%07d", "BUOY%02d", "S%03dX"]


class Gen:
    def __init__(self, rng, y1, m1, y2, m2, opts=None):
        """Months y1/m1 .. y2/m2 are targets; the archive covers one month more on either side."""
        self.rng = rng
        self.y1, self.m1, self.y2, self.m2 = y1, m1, y2, m2
        self.opts = {"ships": 3, "drifters": 2, "others": 1, "reports": 8, "gross": 0.05, "bad": 0.03,
                     "foreign": 0.03, "excluded": 1, "dups": 0.02, "region": None, "grid_edges": False,
                     "oddids": 0.0, "track_err": 0.05, "dense_days": False, "kin": 0.3, "twins": 0.35, "att": 0.25,
                     "big": 0.0}
        self.opts.update(opts or {})
        if rng.random() < self.opts["big"]:          # much more than the usual: long series, or many platforms
            self.opts.update(rng.choice([{"ships": 5, "drifters": 5, "reports": 110},
                                         {"ships": rng.choice([30, 70]), "drifters": rng.choice([30, 70]), "reports": 4}]))
        self.nuid = rng.randrange(36 ** 6)
        self.months = [world.prevm(y1, m1)] + world.months(y1, m1, y2, m2) + [world.nextm(y2, m2)]
        self.used = set()
        self.ids = []
        self.exclude = []

    def uid(self):
        self.nuid = (self.nuid + self.rng.randrange(1, 5000)) % (36 ** 6)
        return uid(self.nuid)

    def new_id(self, kind):
        rng = self.rng
        while True:
            r = rng.random()
            if kind == "drifter":
                s = rng.choice(["%05d", "%07d"]) % rng.randrange(10000, 99999)
                if r < self.opts["oddids"]:
                    s = rng.choice(["44/%03d", "7*%03d", "A %03d", "D-%03d", "9.%03d", "B/%02d*", "E,%03d",
                                    'F"%03d', '"G%03d"', "H'%03d", "-%03d", "-J%02d", " %04d", "  L%02d"]) % rng.randrange(100)
            else:
                s = rng.choice(["SH%04d", "%04d", "CALL%d", "W%dK"]) % rng.randrange(1000, 9999)
                if r < self.opts["oddids"]:
                    s = rng.choice(["S/%03d", "K*%03d", "M V %03d", "S,%03d", 'K"%03d', " S%03d"]) % rng.randrange(100)
            if rng.random() < self.opts["kin"]:
                s = self.kin(kind) or s
            s = "%-9s" % s
            safe = s.replace("/", "_").replace("*", "_").replace(",", "_")
            if safe not in self.used and len(s) == 9:
                self.used.add(safe)
                self.ids.append(s)
                return s

    def kin(self, kind):
        """An ID that is easily taken for one already there."""
        rng = self.rng
        if not self.ids:
            return "%09d" % rng.randrange(10 ** 8, 10 ** 9) if kind == "drifter" else None
        s = rng.choice(self.ids).rstrip()
        how = rng.choice(["longer", "shorter", "last", "zero", "case", "first"])
        if how == "longer" and len(s) < 9:
            return s + rng.choice("0123456789X")
        if how == "shorter" and len(s) > 4:
            return s[:-1]
        if how == "last":
            s = "%-9s" % s
            return s[:8] + rng.choice("123456789A") if rng.random() < 0.5 else s.rstrip()[:-1] + rng.choice("0123456789")
        if how == "zero" and len(s) < 9:
            return "0" + s
        if how == "case" and s.swapcase() != s:
            return s.swapcase()
        if how == "first":
            return rng.choice("123456789") + s[1:]
        return None

    def snap(self, v):
        """Hundredths, off the edges of the 0.05 degree cells unless edges are wanted."""
        v = int(round(v * 100))
        if not self.opts["grid_edges"] and v % 5 == 0:
            v += self.rng.choice([1, 2, 3, 4])
        return v

    def platform(self, kind):
        rng = self.rng
        o = self.opts
        pt = {"drifter": 7, "moored": 6, "ship": 5, "cman": 13, "ctd": 11, "generic": 5, "anon": 5,
              "deck780": 5}[kind]
        pid = self.new_id(kind)
        if kind == "generic":
            pid = "SHIP     "
        if kind == "anon":
            pid = None
        dck = {"drifter": 714, "moored": 715, "ship": rng.choice([926, 927, 892, 732, 708]), "cman": 795,
               "ctd": 926, "generic": 926, "anon": 926, "deck780": 780}[kind]
        if o["region"]:
            la0, la1, lo0, lo1 = o["region"]
        else:
            la0, la1, lo0, lo1 = rng.choice([(-60, 60, -180, 180), (30, 40, -40, -20), (-20, -10, 60, 90),
                                             (-5, 5, -5, 5), (40, 55, 170, 180), (-80, 80, -180, 180)])
        lat, lon = rng.uniform(la0, la1), rng.uniform(lo0, lo1)
        heading = rng.uniform(-1, 1), rng.uniform(-1, 1)
        step = {"ship": 1.0, "generic": 1.0, "anon": 1.0, "deck780": 1.0, "ctd": 0.3, "moored": 0.0, "cman": 0.0,
                "drifter": rng.choice([0.0, 0.05, 0.2, 0.6])}[kind]
        rounded = rng.random() < 0.15
        constant = rng.random() < 0.12
        saturated = rng.random() < 0.12
        bias = rng.choice([0, 0, 0, 1.5, -2.5, 6.0])
        off = rng.gauss(0, 0.6)
        const = None
        att = sorted(rng.sample(sorted(imma.OTHERS), rng.choice([1, 2, 3, 7]))) if rng.random() < o["att"] else []
        nosup = rng.random() < o["att"]
        out = []
        for (y, m) in self.months:
            if rng.random() < 0.12:
                continue
            n = max(0, int(rng.gauss(o["reports"], o["reports"] / 3.0)))
            if n == 0:
                continue
            days = world.mlen(y, m)
            hours = sorted(rng.sample(range(0, days * 24), min(n, days * 24)))
            if rng.random() < 0.5:
                start = rng.randrange(0, days * 24)
                hours = [start + 6 * i for i in range(n) if start + 6 * i < days * 24]
            if o["dense_days"]:
                some = sorted(rng.sample(range(days), min(days, 4)))
                hours = sorted(rng.choice(some) * 24 + h for h in rng.sample(range(24), min(n, 24)))
            last = None
            for h in hours:
                if last is not None:
                    lat += heading[0] * step * min(24, (h - last)) / 6.0
                    lon += heading[1] * step * min(24, (h - last)) / 6.0
                last = h
                if abs(lat) > 85:
                    lat = 85.0 if lat > 0 else -85.0
                    heading = (-heading[0], heading[1])
                if lon > 179.5:
                    lon -= 359
                if lon < -179.5:
                    lon += 359
                d = h // 24 + 1
                la, lo = self.snap(lat), self.snap(lon)
                if rng.random() < o["track_err"]:
                    la = self.snap(max(-89, min(89, lat + rng.choice([-10, 10, 3]))))
                if rng.random() < 0.3 and lo < 0:
                    lo += 36000
                c = clim_at(la / 100.0, (lo / 100.0 if lo <= 18000 else lo / 100.0 - 360), y, m, d)
                sst = int(round(10 * (c + off + bias + rng.gauss(0, 0.8))))
                if constant:
                    const = sst if const is None else const
                    sst = const
                at = sst - rng.randrange(-5, 15)
                dpt = at - rng.randrange(0, 40)
                if saturated:
                    dpt = at
                if rounded:
                    dpt -= dpt % 10
                rec = {"YR": y, "MO": m, "DY": d, "HR": (h % 24) * 100 + rng.choice([0, 0, 0, 50, 25]),
                       "LAT": la, "LON": lo, "ID": pid, "UID": self.uid(), "DCK": dck, "PT": pt, "SID": 63,
                       "SST": sst, "AT": at, "DPT": dpt, "SLP": 10080 + rng.randrange(-60, 60),
                       "W": rng.randrange(0, 200), "D": rng.randrange(1, 361), "DS": rng.randrange(0, 10),
                       "VS": rng.randrange(0, 10)}
                for v in ("SST", "AT", "DPT", "SLP", "W", "D", "DS", "VS"):
                    if rng.random() < 0.06:
                        rec[v] = None
                if kind in ("drifter",) and rng.random() < 0.5:
                    rec["AT"] = rec["DPT"] = rec["W"] = rec["D"] = None
                    rec["DS"] = rec["VS"] = None
                if rng.random() < 0.04:
                    rec["SST"] = rng.choice([-40, 350, 499, 120, -25])
                if rng.random() < 0.03:
                    rec["AT"] = rng.choice([-300, 450, 0])
                if rng.random() < 0.03:
                    rec["HR"] = None
                if rng.random() < o["gross"]:
                    self.gross(rec, days)
                if att:
                    rec["ATT"] = [[a, rng.randrange(1000)] for a in att if rng.random() < 0.9]
                if nosup:
                    rec["NOSUP"] = 1
                out.append(rec)
        return out

    def twin(self, p):
        """Another platform of the kind that keeps the first company: about the same places, in the same hours."""
        rng = self.rng
        pid = self.new_id("drifter" if p[0].get("PT") == 7 else "ship")
        dla, dlo = rng.choice([0, 1, 7, 30, 60]), rng.choice([0, 1, 7, 30, 60])
        out = []
        for r in p:
            if rng.random() < 0.2:
                continue
            q = dict(r)
            q.pop("_gross", None)
            q["UID"], q["ID"] = self.uid(), pid
            if abs(q["LAT"]) < 8900 and q["LAT"] and q["LON"] is not None and -17900 < q["LON"] < 17900:
                q["LAT"] += dla if (q["LAT"] + dla) % 5 else dla + 1
                q["LON"] += dlo if (q["LON"] + dlo) % 5 else dlo + 1
            if q["HR"] is not None and 0 <= q["HR"] < 2400:
                q["HR"] = q["HR"] // 100 * 100 + rng.choice([0, 1, 33, 50, 75, 98])
            for v in ("SST", "AT", "DPT", "SLP"):
                if q[v] is not None:
                    q[v] += rng.choice([0, 0, 1, -1, 5, -30])
            out.append(q)
        return out

    def gross(self, rec, days):
        rng = self.rng
        k = rng.choice(["day", "day0", "noday", "lat", "lon", "zero", "hour", "dayplus"])
        if k == "day":
            rec["DY"] = rng.choice([32, 45, 99])
        elif k == "dayplus":
            rec["DY"] = min(99, days + 1)
        elif k == "day0":
            rec["DY"] = 0
        elif k == "noday":
            rec["DY"] = None
        elif k == "lat":
            rec["LAT"] = rng.choice([9001, -9001, 9530, -9999, 9999])
        elif k == "lon":
            rec["LON"] = rng.choice([36001, 40500, -18001, -27050, 63999])
        elif k == "zero":
            rec["LAT"] = rec["LON"] = 0
        elif k == "hour":
            rec["HR"] = rng.choice([2400, 2511, 9900, -100])
        rec["_gross"] = k

    def damaged(self):
        """A line that cannot be read as a report (whatever the reader does, it is not one)."""
        rng = self.rng
        y, m = rng.choice(self.months)
        good = imma.line({"YR": y, "MO": m, "DY": 3, "HR": 600, "LAT": 1011, "LON": 2022, "ID": "DAMAGED  ",
                          "UID": self.uid(), "DCK": 926, "PT": 5, "SID": 1, "SST": 150, "AT": 140})
        k = rng.choice(["letters", "letters_early", "empty", "attm", "nouid", "garbage", "spaces", "binary",
                        "attm_text", "short"])
        if k == "letters":                     # a letter inside a numeric field after the ID
            p = rng.choice([86, 87, 88])
            s = good[:p] + "X" + good[p + 1:]
            s = good[:85] + "1X2 " + good[89:]   # SST
        elif k == "letters_early":             # before the ID is reached
            s = "19X4" + good[4:]
        elif k == "empty":
            s = ""
        elif k == "attm":                      # an attachment that does not exist
            s = good[:108] + "5510" + "ZZZZZZ"
        elif k == "attm_text":
            s = good[:108] + "??65" + good[112:]
        elif k == "nouid":
            s = good[:108]
        elif k == "garbage":
            s = "".join(rng.choice("ABCDEFGHIJ#?!") for _ in range(rng.randrange(5, 160)))
        elif k == "spaces":
            s = " " * rng.randrange(1, 130)
        elif k == "binary":
            s = "".join(chr(rng.choice([0, 1, 7, 127, 200, 255, 26])) for _ in range(rng.randrange(5, 60)))
        else:
            s = good[:rng.choice([3, 11, 20, 40, 60, 107])]
        return {"raw": s, "_bad": k}

    def archive(self):
        """Returns {"YYYYMM": [{"stub": i, "lines": [...]}]} and sets self.exclude."""
        rng = self.rng
        o = self.opts
        recs = []
        for kind, n in (("ship", o["ships"]), ("drifter", o["drifters"])):
            for _ in range(n):
                recs.append(self.platform(kind))
        kinds = ["moored", "cman", "ctd", "generic", "anon", "deck780"]
        for _ in range(o["others"]):
            recs.append(self.platform(rng.choice(kinds)))
        if rng.random() < o["twins"] and any(recs):
            recs.append(self.twin(rng.choice([p for p in recs if p])))
        if o["excluded"]:
            for _ in range(o["excluded"]):
                p = self.platform(rng.choice(["ship", "drifter"]))
                if p:
                    self.exclude.append(p[0]["ID"].rstrip())
                recs.append(p)
        files = {world.key(y, m): [] for (y, m) in self.months}
        allrecs = [r for p in recs for r in p]
        # ICOADS files are in time order, ships interleaved
        def order(r):
            return (r["YR"], r["MO"], r["DY"] if r["DY"] is not None else -1,
                    r["HR"] if r["HR"] is not None else -1)
        by = {}
        for r in allrecs:
            by.setdefault(world.key(r["YR"], r["MO"]), []).append(r)
        for k in files:
            rows = by.get(k, [])
            mode = rng.random()
            if mode < 0.6:
                rows.sort(key=order)
            elif mode < 0.8:
                pass                        # one platform after the other
            else:
                rows = interleave(rng, rows)
            out = []
            for r in rows:
                if rng.random() < o["bad"]:
                    out.append(self.damaged())
                if rng.random() < o["foreign"]:
                    f = dict(r)
                    f["UID"] = self.uid()
                    w = rng.choice(["YR", "MO"])
                    if w == "YR":
                        f["YR"] += rng.choice([-1, 1, 10])
                    else:
                        f["MO"] = rng.choice([x for x in range(1, 13) if x != f["MO"]])
                    if rng.random() < 0.15:
                        f["MO"] = None
                    f["_foreign"] = 1
                    out.append(f)
                out.append(r)
                if rng.random() < o["dups"]:
                    out.append(dict(r))
            if rng.random() < 4 * o["bad"]:
                out.insert(0, self.damaged())
            if rng.random() < 4 * o["bad"]:
                out.append(self.damaged())
            files[k] = [{"stub": rng.randrange(2), "lines": out}]
        return files

    def background(self, first_year=1985, forms=("plain", "bz2"), missing=0.1):
        """Background fields for the day before every day of the window, with gaps."""
        rng = self.rng
        bg = {}
        n = 0
        base = rng.randrange(1, 10 ** 6)
        y, m = world.prevm(*self.months[0])
        days = [(y, m, world.mlen(y, m))]
        for (y, m) in self.months:
            days += [(y, m, d) for d in range(1, world.mlen(y, m) + 1)]
        for (y, m, d) in days:
            n += 1
            if rng.random() < missing:
                continue
            es = []
            for stub in (0, 1):
                if rng.random() < (0.6 if stub == 0 else 0.75):
                    form = rng.choice(forms)
                    if rng.random() < 0.06:
                        form = rng.choice(["empty", "emptybz2"])
                    es.append({"stub": stub, "form": form, "seed": base + n * 2 + stub})
            if es:
                bg["%04d%02d%02d" % (y, m, d)] = es
        return bg


def retime(lines):
    """Puts each platform's reports in time order, in the places where that platform has reports."""
    by = {}
    for i, r in enumerate(lines):
        if "raw" not in r:
            by.setdefault(r.get("ID"), []).append(i)

    def when(r):
        h = r.get("HR")
        return (r.get("DY") or 0, h if h is not None else 0)
    for places in by.values():
        rs = sorted((lines[i] for i in places), key=when)
        for i, r in zip(places, rs):
            lines[i] = r


def days_before(y1, m1, y2, m2):
    """The days whose background field a run over the window can ask for."""
    y, m = world.prevm(*world.prevm(y1, m1))
    out = [(y, m, world.mlen(y, m))]
    for y, m in world.months(*world.prevm(y1, m1), *world.nextm(y2, m2)):
        out += [(y, m, d) for d in range(1, world.mlen(y, m) + 1)]
    return out


def interleave(rng, rows):
    """A random interleaving of the platforms that keeps each platform's own order."""
    by = {}
    for r in rows:
        by.setdefault(r.get("ID"), []).append(r)
    queues = [list(v) for v in by.values()]
    out = []
    while queues:
        q = rng.choice(queues)
        out.append(q.pop(0))
        if not q:
            queues.remove(q)
    return out
