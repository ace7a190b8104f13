"""Each program writes in its own folders alone and leaves its inputs as they are."""
import re

from checks import p18
from sim import model, scen, world

ID, TITLE = "P24", "Programs write in their own folders alone and never change their inputs"
CASES = {"quick": 60, "thorough": 4000}
RULE = ("one evaluation = one whole pipeline over an archive whose IDs try to lead file names astray, undisturbed or with "
        "crashes, I/O errors and failing submissions, every path that each process opened for writing, made, moved or removed "
        "held against the folders of its program and months, and the inputs of every stage compared byte for byte; distinct "
        "by archive, schedule and faults")
PARTS = ["../../x", "../x", "..", "...", "/etc/x", "/x", "a/../b", "./c", "a/b/c", "*", "**/x", "~root", "~/x", "%s", "x/", "//",
         "../bg/x", "../arch", "x/..", "{0}", "con", ".x", "x.csv", "../../..", "$HOME", "..\\x", "a,b", "?????", "[0-9]*", "[!x]?", "{a,b}", "x?", "-x/../..", "-rf", "--", "-"]


def gen(rng, tier):
    spec = p18.gen(rng, tier)
    names, used = {}, set()
    for k in sorted(spec["files"]):
        for f in spec["files"][k]:
            for r in f["lines"]:
                if r.get("PT") == 7 and r.get("ID") and r["ID"] not in names:
                    n = r["ID"]
                    if rng.random() < 0.8:
                        while True:
                            n = "%-9s" % (rng.choice(PARTS) if rng.random() < 0.7 else
                                          "%s%d" % (rng.choice(["../a", "/tmp/", "..//", "x/../", "../../"]), rng.randrange(99)))
                            s = re.sub(r"[^A-Za-z0-9]", "_", n)
                            if len(n) == 9 and s not in used and "," not in n:
                                used.add(s)
                                break
                    names[r["ID"]] = n
                if r.get("PT") == 7 and r.get("ID"):
                    r["ID"] = names[r["ID"]]
    spec["program"] = rng.choice(["marine_qc", "marine_qc_track_only", "marine_qc_hires"])
    spec["gap"] = rng.choice([1, 2])
    return spec


def allowed(prog, argv, path):
    """Whether a process of this program may make, write, move or remove the path."""
    if prog in ("marine_qc", "marine_qc_hires", "marine_qc_track_only"):
        if path.startswith("$/scratch/"):
            return "/" not in path[len("$/scratch/"):]
        a = dict(zip(argv, argv[1:]))
        ms = world.months(int(a["-year1"]), int(a["-month1"]), int(a["-year2"]), int(a["-month2"]))
        for y, m in ms:
            if path in ("$/out", "$/out/%d" % y, "$/out/%d/%02d" % (y, m)):
                return True
            d = "$/out/%d/%02d/" % (y, m)
            if path.startswith(d):
                return "/" not in path[len(d):]
        return False
    if prog == "Tracking_QC_wrapper":
        return path in ("$/track/TrackingQC", "$/track/TrackingQC/jobs", "$/track/TrackingQC/logs") or \
            re.match(r"\$/track/TrackingQC/(jobs|logs)/[^/]+$", path) is not None
    return path == "$/track" or path.startswith("$/track/")


def bystanders(d, spec):
    """Files of other runs, programs and people, wherever the programs work, named much like their own."""
    files = {}

    def put(name, *a):
        files[name % a] = ("kept %s\n" % (name % a)).encode()
    ms = world.months(*spec["win"])
    ids = sorted({model.safe(r["ID"]) for k in spec["files"] for f in spec["files"][k] for r in f["lines"]
                  if r.get("PT") == 7 and r.get("ID")})[:3] + ["99999    "]
    for y, m in ms + [world.nextm(*ms[-1]), world.prevm(*ms[0])]:
        k = world.key(y, m)
        put("out/%d/%02d/Variables_%s_other.csv", y, m, k)
        put("out/%d/%02d/POS_qc_%s_base.csv.old", y, m, k)
        put("out/%d/%02d/notes.part", y, m)
        put("scratch/%s01-other.nc", k)
        put("scratch/%s01-nrt.nc.elsewhere.7.tmp", k)
        put("track/TrackingQC/%d/%02d/Tracking_%s_00000_base.csv", y, m, k)
        put("track/TrackingQC/%d/%s-00000", y, k)
        put("track/Tracking_%s", k)
        for i in ids:
            put("out/%d/%02d/SST_qc_%s_%s_other.csv", y, m, k, i)
            put("track/TrackingQC/%d/notes_%s%s_other", y, k, i.replace(" ", ""))
            put("track/TrackingQC/%d/%02d/Tracking_%s_%s_other.csv", y, m, k, i)
            put("track/TrackingQC/%d/%02d/end_edge_case_other/Tracking_%s_%s_base.csv", y, m, k, i)
            put("track/TrackingQC/logs/SPICE_trackqc_genout%s%s_other", k, i.replace(" ", ""))
            put("track/TrackingQC/jobs/Tracking_job_%s_%s_%s_x_other", i.replace(" ", ""), k, k)
            put("track/%s_%s", k, i)
    put("out/ID_file.txt")
    put("track/TrackingQC/readme")
    for name, data in files.items():
        world.put(d.root + "/" + name, data)
    return files


def inputs(d):
    return {k: v for k, v in world.snapshot(d.root).items() if k.split("/")[0] not in ("out", "track", "scratch", "tmp")}


def look(T, d, before, what, others):
    for s in d.sims:
        if s.outside:
            T.fail("outside", "%s: %r" % (what, s.outside[:3]))
            return False
        for p in s.procs:
            for t in sorted(p.touched):
                T.count("paths_written")
                if not allowed(p.program, p.argv, t):
                    T.fail("wrong-place", "%s: %s %r wrote, made, moved or removed %s" % (what, p.program, p.argv, t))
                    return False
    x = scen.diff(before, inputs(d))
    if x:
        T.fail("input-changed", "%s: %s" % (what, x))
        return False
    now = world.snapshot(d.root)
    for name in sorted(others):
        if now.get(name) != others[name]:
            T.fail("not-its-own", "%s: %s, which no program wrote, is %s" % (what, name, "changed" if name in now else "gone"))
            return False
    T.count("bystanders", len(others))
    T.absorb(d)
    return True


def stages(T, d, spec, seed, pr, plan):
    """Runs the pipeline; what fails is allowed to, unless no fault was given."""
    before = inputs(d)
    others = bystanders(d, spec)
    if spec["program"] == "marine_qc_hires":
        for i, w in enumerate(p18.stages(spec)):
            p = d.run1("marine_qc_hires", d.month_args(*w, True), plan.get(str(i)))
            if p.status != "ok" and not plan:
                T.fail("failed", "marine_qc_hires: %s" % p.error)
                return None, []
        tr = [(0, "m0", p.trace)]
        return look(T, d, before, "marine_qc_hires, faults %r" % plan, others), tr
    out0 = None
    made = []
    r = p18.pipeline(T, d, spec, seed, pr, plan, None, made)
    if r is None:
        return None, []
    del out0
    return look(T, d, before, "%s, faults %r" % (spec["program"], plan), others), r[1]


def run(spec, T):
    d = T.deploy(spec)
    ok, traces = stages(T, d, spec, None, 0.2, {})
    if not ok:
        return
    T.key(spec["win"], spec["program"], sorted(d.out().items()), sorted(d.track().items()))
    if "plans" not in spec:
        rng = scen.rng_of(spec, "plans")
        spec["plans"] = []
        for seed, pr, hurt in spec["rounds"]:
            plan = {}
            if spec["program"] == "marine_qc_hires":
                p = scen.pick_points(rng, traces[0][2], 1)[0]
                plan = {"0": [scen.crash_at(rng, p) if rng.random() < 0.5 else scen.error_at(rng, p)]}
            else:
                for n, name, tr in rng.sample(traces, min(len(traces), rng.randrange(1, 4))):
                    for p in scen.pick_points(rng, tr, 1):
                        plan.setdefault(str(n), {})[name] = [scen.crash_at(rng, p) if rng.random() < 0.5
                                                             else scen.error_at(rng, p)]
            spec["plans"].append(plan)
    for n, plan in enumerate(spec["plans"]):
        seed, pr, _ = spec["rounds"][min(n, len(spec["rounds"]) - 1)]
        d.reset()
        ok, _ = stages(T, d, spec, seed, pr, plan)
        if not ok:
            if T.viol:
                spec["plans"] = [plan]
                spec["rounds"] = [[seed, pr, True]]
            return
        T.key(spec["win"], plan, seed)
    if len(T.samples) < 3:
        T.samples.append("%s %s, faults %r" % (spec["program"], spec["win"], spec["plans"]))
