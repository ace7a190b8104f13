"""Outputs follow from the inputs and the command line, not from where, when and on what they are made."""
from checks import p18
from checks.p28 import crowd
from sim import child, scen, world
from sim import gen as G

ID, TITLE = "P25", "Same inputs, same outputs: no clock, hash order, buffer or machine shows in them"
CASES = {"quick": 56, "thorough": 4000}
RULE = ("one evaluation = the same pipeline (a monthly program, then the wrapper and the tracking QC jobs) in another "
        "interpreter with another hash seed, clock, time zone, process ids, host, user, folder, directory order, random state, "
        "buffer sizes and short reads and writes; every output file byte for byte against the first (lists of IDs as sets of "
        "lines); distinct by archive and surroundings")


def variant(rng):
    v = {"env": {"PYTHONHASHSEED": str(rng.randrange(1, 10 ** 6)), "TZ": rng.choice(["UTC", "EST5EDT", "NZST-12NZDT", "Asia/X-5:30"]),
                 "LANG": rng.choice(["C", "C.UTF-8", "de_DE.UTF-8"]), "USER": rng.choice(["hadjj", "root", "x"]),
                 "HOME": rng.choice(["/", "/nonexistent", "/tmp"])},
         "knobs": {"rbuf": rng.choice([1, 7, 512, 8192, 1 << 20]), "wbuf": rng.choice([1, 13, 512, 8192, 1 << 20]),
                   "bzchunks": rng.choice([1, 3, 17]), "short": rng.choice([0, 1, 2, 5]), "pid": rng.choice([1, 77, 999999]),
                   "epoch": rng.choice([0.0, 1.0e6, 4.0e8, 951782400.0, 1.5e9, 1.6e9, 4.0e9]),
                   "host": rng.choice(["a", "node-17.cluster", "x" * 60]), "listing": rng.randrange(1000)},
         "cwd": rng.choice(["/", "/tmp", None]), "seed": rng.randrange(10 ** 9)}
    if v["knobs"]["rbuf"] < 100 or v["knobs"]["wbuf"] < 100:
        v["knobs"]["rbuf"], v["knobs"]["wbuf"] = rng.choice([(64, 64), (4096, 48), (48, 4096)])
    return v


def gen(rng, tier):
    spec = p18.gen(rng, tier)
    spec["program"] = rng.choice(["marine_qc", "marine_qc", "marine_qc_hires", "marine_qc_track_only"])
    spec["knobs"] = {}
    for k in sorted(spec["files"]):          # both archives have the month, with not quite the same reports
        if rng.random() < 0.5 and len(spec["files"][k]) == 1:
            f = spec["files"][k][0]
            other = [dict(r, SST=(r["SST"] or 0) + 3) if "raw" not in r else r for r in f["lines"] if rng.random() < 0.8]
            spec["files"][k].append({"stub": 1 - f["stub"], "lines": other})
    months = len(world.months(*spec["win"]))
    if months < 3 and rng.random() < 0.3:    # ships crowd, so that each has many neighbours
        g = G.Gen(rng, *spec["win"], opts={"ships": rng.randrange(6, 12), "drifters": 0, "others": 0, "reports": 10, "gross": 0})
        files = g.archive()
        crowd(rng, g, files, 2.0)
        for k in sorted(files):
            if k in spec["files"]:
                for f in spec["files"][k]:
                    f["lines"] = f["lines"] + [r for a in files[k] for r in a["lines"]]
    spec["variants"] = [variant(rng) for _ in range(2)]
    if months * sum(len(f["lines"]) for k in spec["files"] for f in spec["files"][k]) > 1500:
        for v in spec["variants"]:           # a byte or two at a time would take too long
            for k in ("rbuf", "wbuf"):
                v["knobs"][k] = max(v["knobs"][k], 500)
    return spec


def outputs(spec, T):
    """{name: bytes} of everything the pipeline makes, the root's own name taken out."""
    d = T.deploy(spec)
    if spec["program"] == "marine_qc_hires":
        for w in p18.stages(spec):
            p = d.run1("marine_qc_hires", d.month_args(*w, True))
            if p.status != "ok":
                T.fail("failed", "marine_qc_hires: %s" % p.error)
                return None
    elif p18.pipeline(T, d, spec) is None:
        return None
    res = {}
    for top, snap in (("out", d.out()), ("track", d.track())):
        for k, v in snap.items():
            v = v.replace(d.root[:len(d.root) - len(d.spec.get("dirname", ""))].encode(), b"$")
            if k.endswith("ID_file.txt"):
                v = b"".join(sorted(v.splitlines(True)))
            res[top + "/" + k] = v
    return res


def run(spec, T):
    first = outputs(spec, T)
    if first is None:
        return
    for n, v in enumerate(spec["variants"]):
        s = scen.clone(spec)
        s["knobs"], s["seed"] = v["knobs"], v["seed"]
        got, doc = child.start("p25", s, v["env"], v["cwd"])
        if got is None:
            raise RuntimeError("child: %s" % doc)
        for c, what in ((T.n, "n"), (T.fired, "fired"), (T.probes, "probes")):
            c.update(doc[what])
        T.simtime += doc["simtime"]
        if doc["viol"]:
            T.fail(doc["viol"][0]["kind"], "with %r: %s" % (v, doc["viol"][0]["text"]))
            spec["variants"] = [v]
            return
        x = scen.diff(first, got)
        if x:
            T.fail("differs", "with %r: %s" % (v, x))
            spec["variants"] = [v]
            return
        T.count("files_compared", len(got))
        T.key(v, sorted(got.items()))
    if len(T.samples) < 3:
        T.samples.append("%s %s, %r" % (spec["program"], spec["win"], spec["variants"][0]))
