"""Tracking QC gives every report back once, with flags that follow from the eligible reports alone."""
import random

from sim import scen, trackin, world

ID, TITLE = "P16", "Tracking QC returns each report once, flagged from its eligible reports"
CASES = {"quick": 1300, "thorough": 12000}
RULE = ("one case = tracking QC of one generated drifter chunk (aground, picked up, biased, noisy, bad tails, gaps of months, "
        "ineligible reports anywhere), its output against a reference model of the documented checks, again with the rows "
        "of the inputs in another order, and again with the ineligible reports changed; distinct by content and window")


def gen(rng, tier):
    n = rng.choice([1, 1, 2, 3, 4])
    win = scen.window(rng, scen.YEARS, n)
    ident = trackin.new_id(rng)
    spec = {"win": list(win), "ident": ident, "files": {}, "bg": {}}
    n = rng.choice([150, 320]) if rng.random() < 0.04 else None
    spec["reps"] = trackin.drifter(rng, win, ident, trackin.uidgen(rng), n=n, bad=rng.choice([0, 0.1, 0.3]),
                                   sstbad=rng.choice([0, 0.1, 0.3]))
    spec["edge"] = rng.choice(trackin.EDGES)
    spec["runmonthid"] = "%d%02d-%d%02d" % (win[0], 1, win[2], 12)
    spec["shuffle"] = rng.randrange(10 ** 9)
    spec["bare"] = rng.random() < 0.5          # the ID on the command line has no padding
    p = {"runid": scen.runid(rng)}
    if rng.random() < 0.3:
        p["buoy_tail_check"] = dict(world.PARAMS["buoy_tail_check"], long_win_len=rng.choice([3, 5, 9]),
                                    short_win_len=rng.choice([2, 4]), short_win_n_bad=rng.choice([1, 2]))
        p["buoy_bias_noise_check"] = dict(world.PARAMS["buoy_bias_noise_check"], n_eval=rng.choice([2, 4, 12]),
                                          n_bad=rng.choice([1, 2, 3]))
        p["new_buoy_aground_check"] = {"smooth_win": rng.choice([1, 3, 7]), "min_win_period": rng.choice([1, 2, 4])}
        p["new_buoy_speed_check"] = {"speed_limit": rng.choice([1.0, 2.5, 3.5]), "min_win_period": rng.choice([0.11, 0.4])}
    spec["params"] = p
    return spec


def shrinks(spec):
    n = len(spec["reps"])
    step = max(1, n // 2)
    while step >= 1:
        for a in range(0, n, step):
            c = scen.clone(spec)
            c["reps"] = c["reps"][:a] + c["reps"][a + step:]
            if c["reps"]:
                yield c
        if step == 1:
            break
        step //= 2


def other(reps, rng):
    """The same drifter with its ineligible reports moved and changed (values only; they stay ineligible)."""
    out = []
    for r in reps:
        r = scen.clone(r)
        if not trackin.passes_track(r) and r["pos"]["pos"] == 0 and r["pos"]["blklst"] == 0:
            r["LAT"], r["LON"] = round(rng.uniform(-80, 80), 2), round(rng.uniform(-170, 170), 2)
        if not trackin.passes_track(r) or not trackin.passes_sst(r):
            if r["SST"] is not None:
                r["SST"] = round(rng.uniform(-5, 60), 1)
        out.append(r)
    return out


def once(T, d, spec, reps, order=None, what=""):
    d.reset()
    trackin.write(d.root, reps, spec["ident"], order)
    win = spec["win"]
    before = d.out()
    ident = spec["ident"].rstrip() if spec["bare"] else spec["ident"]
    p = d.run1("tracking_qc", trackin.args(d, ident, win, spec["edge"], spec["runmonthid"]))
    if p.status != "ok":
        T.fail("failed", "%s%s" % (what, p.error))
        return None
    if d.out() != before:
        T.fail("input-touched", "tracking QC changed its inputs")
        return None
    got = d.track()
    want = trackin.output(tuple(win[2:]), spec["ident"], spec["edge"], spec["runmonthid"])
    if sorted(got) != sorted(want):
        T.fail("where", "%soutputs %r instead of %r" % (what, sorted(got), sorted(want)))
        return None
    try:
        fl = trackin.flags(reps, spec["params"])
    except trackin.Near:
        fl = None
        T.count("too_close_to_call")
    for f in want:
        if not trackin.check_output(T, got[f], f, reps, fl, what):
            return None
    return got


def run(spec, T):
    d = T.deploy(spec)
    reps = spec["reps"]
    A = once(T, d, spec, reps)
    if A is None:
        return
    rng = random.Random(spec["shuffle"])
    if once(T, d, spec, reps, rng.shuffle, "rows in another order: ") is None:
        return
    if once(T, d, spec, other(reps, rng), None, "ineligible reports changed: ") is None:
        return
    fl = None
    try:
        fl = trackin.flags(reps, spec["params"])
        for f in trackin.TPOS + trackin.TSST:
            for v in (0, 1, 9):
                T.count("%s=%d" % (f, v), sum(x[f] == v for x in fl.values()))
    except trackin.Near:
        pass
    T.key(spec["win"], spec["edge"], [(r["UID"], r["SST"], r["LAT"]) for r in reps])
    T.samples.append("%s %s %d reports" % (spec["win"], spec["edge"], len(reps)))
