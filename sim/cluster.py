"""A simulated batch system: sbatch takes scripts, squeue lists what has not ended by the simulated clock."""
import os
import shlex

from . import model, world

USER = "hadjj"


class Cluster:
    def __init__(self, plan=None):
        """plan: {"user": [[start, end]..] other jobs of the same user, "others": n, "durations": [..],
        "fail": [numbers of sbatch calls that fail], "qfail": [numbers of squeue calls that fail]}"""
        p = plan or {}
        self.user = [list(x) for x in p.get("user", [])]
        self.others = p.get("others", 0)
        self.durations = p.get("durations") or [100.0]
        self.fail = set(p.get("fail", []))
        self.qfail = set(p.get("qfail", []))
        self.status = p.get("status", 1)     # what they end with: a number, or minus that of a signal
        self.jobs = []          # {"t", "end", "path", "text", "queued"}
        self.calls = self.qcalls = 0
        self.polls = []         # (time, listed, process)

    def load(self, t):
        return sum(1 for a, b in self.user if a <= t < b) + sum(1 for j in self.jobs if t < j["end"])

    def sbatch(self, sim, argv, out):
        k = __import__("sim.kernel", fromlist=["x"])
        n = self.calls
        self.calls += 1
        f = sim.op("spawn", "sbatch")
        if n in self.fail or (f is not None and f["kind"] in ("childfail", "err", "nomem")):
            sim.fire("childfail:sbatch")
            return (f or {}).get("status") or self.status
        path = [a for a in argv if not a.startswith("-")]
        if len(path) != 1:
            return 1
        try:
            with k.O_OPEN(path[0], "rb") as fh:
                text = fh.read().decode("latin-1")
        except OSError:
            return 1
        if not text.startswith("#!"):
            return 1                   # as the real sbatch has it
        d = self.durations[len(self.jobs) % len(self.durations)]
        self.jobs.append({"t": sim.now, "end": sim.now + d, "path": path[0], "text": text,
                          "queued": self.load(sim.now), "after": len(self.polls), "by": k.CUR.name})
        out.write(("Submitted batch job %d\n" % (len(self.jobs),)).encode())
        return 0

    def squeue(self, sim, argv, out):
        n = self.qcalls
        self.qcalls += 1
        f = sim.op("spawn", "squeue")
        if n in self.qfail or (f is not None and f["kind"] in ("childfail", "err", "nomem")):
            sim.fire("childfail:squeue")
            return (f or {}).get("status") or self.status
        t = sim.now
        lines = ["Mon Jan  1 00:00:00 2018", "             JOBID PARTITION     NAME     USER    STATE       TIME TIME_LIMI  "
                 "NODES NODELIST(REASON)"]
        one = "%18d      rpn  Trackin %8s  RUNNING       1:00     30:00      1 expspicesrv%03d"
        c = self.load(t)
        for i in range(c):
            lines.append(one % (100000 + i, USER, i % 50))
        for i in range(self.others):
            lines.append(one % (200000 + i, "usr%d" % (i % 7), i % 50))
        self.polls.append((t, c, kernel_cur()))
        out.write(("\n".join(lines) + "\n").encode())
        return 0


def kernel_cur():
    from . import kernel
    return kernel.CUR.name


def parse_script(text):
    """(arguments of tracking_qc, file its output goes to) of a job script; None if there is not exactly one command."""
    if not text.endswith("\n"):
        return None
    found = []
    for line in text.split("\n"):
        if line.startswith("#") or not line.strip() or line.startswith("module "):
            continue
        lex = shlex.shlex(line, posix=True, punctuation_chars="><;&|")
        lex.whitespace_split = True
        lex.commenters = ""
        try:
            w = list(lex)
        except ValueError:
            return None
        found.append(w)
    if len(found) != 1:
        return None
    w = found[0]
    dest = None
    if ">" in w:
        i = w.index(">")
        if i + 2 != len(w):
            return None
        dest = w[i + 1]
        w = w[:i]
    if len(w) < 2 or os.path.basename(w[1]) != "tracking_qc.py" or any(x in (";", "&", "&&", "|", "||", ">>", "<") for x in w):
        return None
    return w[2:], dest


def opts(argv):
    """{option: value or list}"""
    out, i = {}, 0
    while i < len(argv):
        o, eq, v = argv[i].partition("=")
        vals = [v] if eq else []
        i += 1
        while i < len(argv) and not argv[i].startswith("-"):
            vals.append(argv[i])
            i += 1
        if o in out:
            out["twice"] = o
        out[o] = vals
    return out


# -- the reference model of the chunks ------------------------------------------------------------
def chunks(months, has, gap):
    """[(first, last, classes)]: months with data, cut where at least gap months have none."""
    n = len(months)
    idx = [i for i in range(n) if has[i]]
    out = []
    for i in idx:
        if out and i - out[-1][1] - 1 < gap:
            out[-1][1] = i
        else:
            out.append([i, i])
    res = []
    for a, b in out:
        c = []
        if a < gap:
            c.append("start_edge_case")
        after = n - 1 - b            # months without data at the end of the series
        if after < gap:
            c.append("end_edge_case")
        if after == gap:
            c.append("new")
        if "start_edge_case" not in c and "end_edge_case" not in c:
            c.append("regular")
        res.append((months[a], months[b], c))
    return res


def wanted(cls, mode):
    return (mode == "all" or (mode == "standard" and "regular" in cls) or (mode == "new" and "new" in cls) or
            (mode == "noend" and "end_edge_case" not in cls))


def runmonthid(win):
    return "%d%02d-%d%02d" % tuple(win)


def write_ids(root, win, ids):
    """ids: {id: [0/1 per month]}; writes the ID lists as marine_qc does."""
    for n, (y, m) in enumerate(world.months(*win)):
        t = "".join("%s,%s\n" % (i, model.safe(i)) for i in ids if ids[i][n])
        world.put("%s/out/%d/%02d/ID_file.txt" % (root, y, m), t.encode("latin-1"))


def args(d, win, gap, mode):
    return ["-config", d.conf, "-gap", str(gap), "-yr1", str(win[0]), "-mn1", str(win[1]), "-yr2", str(win[2]), "-mn2",
            str(win[3]), "-edge", mode]


def expected(win, ids, gap, mode):
    """Sorted [(id without padding, y1, m1, y2, m2, edge words)]."""
    out = []
    ms = world.months(*win)
    for i in ids:
        for a, b, c in chunks(ms, ids[i], gap):
            if wanted(c, mode):
                out.append((i.rstrip(), a[0], a[1], b[0], b[1], tuple(sorted(c))))
    return sorted(out)


def submitted(jobs, conf, rmid):
    """The same for the jobs of a cluster; a string for a job that is not right."""
    out = []
    for j in jobs:
        p = parse_script(j["text"])
        if p is None:
            return "job script %s does not run exactly one tracking QC:\n%s" % (j["path"], j["text"])
        o = opts(p[0])
        try:
            if "twice" in o or sorted(o) != sorted(["-id", "-config", "-yr1", "-mn1", "-yr2", "-mn2", "-edge", "-runmonthid"]):
                return "job script %s has options %r" % (j["path"], p[0])
            if o["-config"] != [conf] or o["-runmonthid"] != [rmid] or len(o["-id"]) != 1:
                return "job script %s has options %r" % (j["path"], p[0])
            out.append((o["-id"][0].rstrip(), int(o["-yr1"][0]), int(o["-mn1"][0]), int(o["-yr2"][0]),
                        int(o["-mn2"][0]), tuple(sorted(o["-edge"]))))
        except (KeyError, ValueError, IndexError):
            return "job script %s has options %r" % (j["path"], p[0])
    return sorted(out)


def series(rng, n, gap):
    """A row of months with and without data, with gaps about the critical length."""
    out = []
    v = rng.random() < 0.5
    while len(out) < n:
        if v:
            k = rng.choice([1, 1, 2, 3, 5])
        else:
            k = rng.choice([gap - 1, gap, gap, gap + 1, 1, 2, gap * 2, 12])
        out += [int(v)] * max(1, k)
        v = not v
    out = out[:n]
    if rng.random() < 0.4:                     # an exact number of empty months at the end or start
        k = rng.choice([gap - 1, gap, gap, gap + 1])
        for i in range(max(0, n - k), n):
            out[i] = 0
        if 0 < n - k:
            out[n - k - 1] = 1
    if rng.random() < 0.3:
        k = rng.choice([gap - 1, gap, gap + 1])
        for i in range(min(k, n)):
            out[i] = 0
        if k < n:
            out[k] = 1
    return out


def some_ids(rng, k, odd=0.4):
    ids, safe = [], set()
    while len(ids) < k:
        i = odd_id(rng) if rng.random() < odd else "%-9s" % (rng.choice(["%05d", "%07d"]) % rng.randrange(10000, 99999))
        s = model.safe(i).replace(" ", "")
        if s not in safe:
            safe.add(s)
            ids.append(i)
    return ids


def odd_id(rng):
    n = rng.randrange(100)
    return "%-9s" % (rng.choice(["44/%03d", "7*%03d", "A %03d", "D-%03d", "9.%03d", "B/%02d*", "C$%03d", "E;%02d", "F'%03d",
                                 "G&%03d", "H>%03d", "J(%02d)", "K\\%03d", "L`%02d`", 'M"%03d', "N#%03d", "~%03d", "P!%02d",
                                 "Q?%02d", "R[%02d]", "S|%02d", "T,%03d", "U,%02d,A", "-%03d",
                                 "-A%02d", "--%02d", "W=%03d"]) % n)
