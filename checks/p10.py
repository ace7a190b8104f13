"""Runs side by side give what they give one after the other."""
from sim import scen, world

ID, TITLE = "P10", "Runs side by side give what they give alone"
CASES = {"quick": 110, "thorough": 4000}
RULE = ("one evaluation = one seeded schedule of 2-5 processes of the programs over one deployment (months, directories and "
        "scratch files in common, no two of them writing the same outputs), some of them killed part way; every process "
        "that was not killed must end well with the outputs it has alone; distinct by processes, task switches and deaths")
SCHEDS = 3


def gen(rng, tier):
    n = rng.choice([1, 2, 2, 3])
    win = scen.window(rng, scen.YEARS, n, edgy=0.5)
    spec = scen.make(rng, win, {"ships": 1, "drifters": rng.randrange(1, 3), "others": 0, "reports": 4,
                                "oddids": rng.choice([0, 0.5])}, bgforms=("bz2", "plain"), drop=0.05)
    ms = world.months(*win)
    spec["tracking"] = True
    spec["procs"] = []
    taken = set()
    for _ in range(40):
        prog = rng.choice(["marine_qc", "marine_qc_track_only", "marine_qc_hires"])
        i = rng.randrange(len(ms))
        j = rng.randrange(i, len(ms))
        cls = "h" if prog == "marine_qc_hires" else "m"
        want = {(cls, m) for m in ms[i:j + 1]}
        if want & taken:
            continue
        taken |= want
        spec["procs"].append([prog] + list(ms[i]) + list(ms[j]))
        if len(spec["procs"]) == 5:
            break
    spec["scheds"] = [[rng.randrange(10 ** 9), rng.choice([0.02, 0.1, 0.3, 0.7, 1.0]), rng.random() < 0.35]
                      for _ in range(SCHEDS)]
    spec["knobs"] = scen.knobs(rng)
    return spec


def part(prog, snap, ms):
    """What one program of the window writes, the ID list apart."""
    hires = prog == "marine_qc_hires"
    out = {}
    for y, m in ms:
        for k, v in scen.under(snap, y, m).items():
            name = k.split("/")[-1]
            if name == "ID_file.txt":
                out[k] = v
            elif ("_hires_" in name) == hires:
                out[k] = v
    return out


def run(spec, T):
    d = T.deploy(spec)
    alone, traces = [], []
    for prog, y1, m1, y2, m2 in spec["procs"]:
        d.reset()
        p = d.run1(prog, d.month_args(y1, m1, y2, m2, True))
        if p.status != "ok":
            T.fail("clean-run-failed", p.error)
            return
        alone.append(part(prog, d.out(), world.months(y1, m1, y2, m2)))
        traces.append(p.trace)
    if "plans" not in spec:
        rng = scen.rng_of(spec, "plans")
        spec["plans"] = []
        for seed, pr, crash in spec["scheds"]:
            plan = {}
            if crash:
                i = rng.randrange(len(traces))
                pts = scen.pick_points(rng, traces[i], 1)
                plan[str(i)] = [scen.crash_at(rng, p) for p in pts]
            if rng.random() < 0.7:
                plan["holds"] = scen.holds(rng, traces, rng.choice([1, 1, 2]))
            spec["plans"].append(plan)
        spec["switchlists"] = [None] * len(spec["plans"])
    for n, plan in enumerate(spec["plans"]):
        d.reset()
        seed, pr, _ = spec["scheds"][n] if n < len(spec["scheds"]) else spec["scheds"][0]
        sw = spec["switchlists"][n]
        s = d.sim(sched_seed=None if sw is not None else seed, switches=sw, switch_p=pr)
        for i, (prog, y1, m1, y2, m2) in enumerate(spec["procs"]):
            s.spawn("p%d" % i, prog, d.month_args(y1, m1, y2, m2, True), d.env(), plan.get(str(i)),
                    holds=plan.get("holds", {}).get(str(i)))
        s.run()
        out = d.out()

        def bad(kind, text):
            spec["plans"], spec["switchlists"] = [plan], [sw if sw is not None else [list(x) for x in s.made]]
            spec["scheds"] = [[seed, pr, any(k != "holds" for k in plan)]]
            T.fail(kind, text)
        crashed = [i for i, p in enumerate(s.procs) if p.status == "crashed"]
        dirty = set()
        for i in crashed:
            dirty |= set(world.months(*spec["procs"][i][1:]))
        for i, p in enumerate(s.procs):
            if i in crashed:
                continue
            prog = spec["procs"][i][0]
            ms = world.months(*spec["procs"][i][1:])
            if p.status != "ok":
                bad("failed", "process %d (%r) failed beside the others: %s" % (i, spec["procs"][i], p.error))
                return
            got = part(prog, out, ms)
            want = dict(alone[i])
            for y, m in ms:
                if (y, m) in dirty:      # a process that died may have been writing the ID list, which both write
                    for x in (got, want):
                        x.pop("%d/%02d/ID_file.txt" % (y, m), None)
            x = scen.diff(want, got)
            if x:
                bad("differs", "process %d (%r) beside the others: %s" % (i, spec["procs"][i], x))
                return
        T.key(spec["procs"], plan, s.made)
        if len(T.samples) < 2:
            T.samples.append("%r, %d switches, dead: %r" % (spec["procs"], len(s.made), crashed))
