from mk import *
WRAP='''
def idlists(s, y, months):
    for m, ids in months.items():
        os.makedirs("%s/out/%d/%02d" % (s.root, y, m))
        with open("%s/out/%d/%02d/ID_file.txt" % (s.root, y, m), "w") as f:
            f.write("".join("%-9s,%-9s\\n" % (i, i) for i in ids))
    s.tool("squeue", "echo JOBID USER")
    s.tool("sbatch", 'cp "$1" "$KIT_ROOT/etc/job.$$"; grep tracking_qc.py "$1" >> "$KIT_ROOT/etc/jobs"')


def jobs(s):
    import re
    if not os.path.exists(s.root + "/etc/jobs"):
        return []
    out = []
    for l in s.text("etc/jobs").splitlines():
        o = dict(re.findall(r"-(yr1|mn1|yr2|mn2) (\\d+)", l))
        out.append(tuple(int(o[k]) for k in ("yr1", "mn1", "yr2", "mn2")))
    return sorted(out)


def wrap(s, y, m1, m2, edge, gap=3, **kw):
    return s.run("Tracking_QC_wrapper", "-gap", gap, "-yr1", y, "-mn1", m1, "-yr2", y, "-mn2", m2, "-edge", edge, **kw)

'''
mk('b11-first-class-only','P11',[('Tracking_QC_wrapper.py',"               'edge': \" \".join(edge), 'runmonthid': runmonthid}","               'edge': edge[0], 'runmonthid': runmonthid}")],
 "a chunk that is an edge case at both ends, or that has just ended and is near the start","the job is given only the first of the classes of its chunk", WRAP+'''
with Site() as s:
    idlists(s, 2005, {m: ["55555"] if 2 <= m <= 11 else [] for m in range(1, 13)})
    st, out = wrap(s, 2005, 1, 12, "all")
    check(st == 0, out[-500:])
    check("-edge start_edge_case end_edge_case" in s.text("etc/jobs"), s.text("etc/jobs"))
''')
mk('b12-give-up-waiting','P12',[('Tracking_QC_wrapper.py',"    count = checkload('hadjj')\n    while count > 250:\n        print(\"Reached max jobs (250), waiting 20 seconds\")\n        time.sleep(20)\n        count = checkload('hadjj')\n",
 "    count = checkload('hadjj')\n    waits = 0\n    while count > 250 and waits < 90:\n        print(\"Reached max jobs (250), waiting 20 seconds\")\n        time.sleep(20)\n        waits += 1\n        count = checkload('hadjj')\n")],
 "a queue that stays over the limit for more than half an hour","after half an hour of waiting the wrapper submits its next job although the queue is over the limit", WRAP+'''
HOOK = """
import time
def sleep(n):
    p = os.environ['KIT_ROOT'] + '/etc/slept'
    t = float(open(p).read()) if os.path.exists(p) else 0.0
    with open(p, 'w') as f: f.write(str(t + n))
time.sleep = sleep
"""
with Site() as s:
    idlists(s, 2005, {m: ["55555", "66666"] if m == 6 else [] for m in range(1, 13)})
    # over the limit for three simulated hours
    s.tool("squeue", """t=0; [ -f "$KIT_ROOT/etc/slept" ] && t=$(cat "$KIT_ROOT/etc/slept"); t=${t%.*}
echo "$t" >> "$KIT_ROOT/etc/polls"
n=251; [ "$t" -ge 10800 ] && n=3
for i in $(seq $n); do echo "$i rpn Trackin hadjj RUNNING"; done""")
    s.tool("sbatch", 't=0; [ -f "$KIT_ROOT/etc/slept" ] && t=$(cat "$KIT_ROOT/etc/slept"); echo "${t%.*}" >> "$KIT_ROOT/etc/times"')
    hook = s.root + "/hook.py"
    with open(hook, "w") as f:
        f.write(HOOK)
    st, out = wrap(s, 2005, 1, 12, "all", env={"KIT_HOOK": hook})
    check(st == 0, out[-500:])
    times = [int(x) for x in s.text("etc/times").split()]
    check(len(times) == 2 and times[1] >= 10800, "submissions at %r" % times)
''')
mk('b13-missing-list','P13',[('Tracking_QC_wrapper.py',"        extdir = safe_dir(out_dir, year, month)\n        idfile = open(extdir + '/ID_file.txt', 'r')\n","        extdir = safe_dir(out_dir, year, month)\n        if not os.path.isfile(extdir + '/ID_file.txt'):\n            print('no ID list for', year, month)\n            continue\n        idfile = open(extdir + '/ID_file.txt', 'r')\n")],
 "a month whose ID list is missing because its QC failed","the wrapper goes on without the month and reports success, with chunks cut or lost", WRAP+'''
with Site() as s:
    idlists(s, 2005, {m: ["55555"] if m in (4, 5, 6) else [] for m in range(1, 13)})
    os.remove(s.root + "/out/2005/06/ID_file.txt")
    st, out = wrap(s, 2005, 1, 12, "all")
    check(st != 0, "success without the list of June; jobs %r" % jobs(s))
''')
mk('b14-new-not-start','P14',[('Tracking_QC_wrapper.py',"                if 'new' in cl:","                if 'new' in cl and 'start_edge_case' not in cl:")],
 "a drifter whose chunk starts less than the critical gap after the start of the history and has just ended","mode new leaves out chunks that are near the start of the series, so they are never quality controlled", WRAP+'''
with Site() as s:
    idlists(s, 2005, {m: ["55555"] if m in (2, 3) else [] for m in range(1, 13)})
    for mode, last in (("noend", 4), ("new", 5), ("new", 6), ("new", 7)):
        st, out = wrap(s, 2005, 1, last, mode)
        check(st == 0, out[-500:])
    check(jobs(s) == [(2005, 2, 2005, 3)], "jobs %r" % jobs(s))
''')
TRK='''
def three(s, ident="55555", n=8, hist=lambda i: {}):
    s.archive(2005, 3, [drifter(2005, 3, 1 + i, 0, 10.12 + i * .05, 20.12, ident, **hist(i)) for i in range(n)])
    for d in range(1, 32):
        s.background(2005, 3, d, 15)
    s.background(2005, 2, 28, 15)
    st, out = s.month("marine_qc", 2005, 3)
    check(st == 0, out[-500:])


def track(s, ident="55555", **kw):
    return s.run("tracking_qc", "-id", ident, "-yr1", 2005, "-mn1", 3, "-yr2", 2005, "-mn2", 3, "-edge", "regular",
                 "-runmonthid", "200501-200512", **kw)


def paths(s, ident="55555"):
    return ["%s/out/2005/03/%s_200503_%-9s_base.csv" % (s.root, b, ident) for b in ("Variables", "POS_qc", "SST_qc")]

'''
mk('b15-two-lengths','P15',[('tracking_qc.py',"        if not all(x == filelines[0] for x in filelines):","        if len(filelines) > 1 and filelines[0] != filelines[1]:")],
 "the SST flag file of a drifter's month is cut at the end of a row","the lengths of only the first two of the three files are compared, so reports whose SST flags are missing go through", TRK+'''
with Site() as s:
    three(s)
    v, p, q = paths(s)
    with open(q) as f:
        lines = f.readlines()
    with open(q, "w") as f:
        f.writelines(lines[:-3])
    st, out = track(s)
    check(st != 0 and not s.tree("track"), "the cut file was taken")
    with open(q, "w") as f:
        f.writelines(lines)
    st, out = track(s)
    check(st == 0, out[-500:])
''')
mk('b16-tail2-not-left-out','P16',[('tracking_qc.py',"    filt.add_qc_filter('SST', 'drf_tail1', 0)  # remove obs failing preceding track checks\n    filt.add_qc_filter('SST', 'drf_tail2', 0)  # remove obs failing preceding track checks\n","    filt.add_qc_filter('SST', 'drf_tail1', 0)  # remove obs failing preceding track checks\n")],
 "a drifter whose values go bad at the end of its record only","reports of a bad end tail take part in the bias and noise check", TRK+'''
P = dict(buoy_tail_check={"long_win_len": 3, "long_err_std_n": 3., "short_win_len": 2, "short_err_std_n": 3., "short_win_n_bad": 1,
                          "drift_inter": 0.29, "drif_intra": 1., "background_err_lim": 0.3},
         buoy_bias_noise_check={"n_eval": 4, "bias_lim": 1.1, "drif_intra": 1., "drif_inter": 0.29, "err_std_n": 3., "n_bad": 2,
                                "background_err_lim": 0.3})
with Site(**P) as s:
    three(s, n=16, hist=lambda i: {"SST": 150 if i < 12 else 175})
    st, out = track(s)
    check(st == 0, out[-500:])
    rows = list(s.tree("track"))
    t = s.read([r for r in rows if "Tracking_2005" in r][0])
    bad = [r for r in t if r["drf_tail2"] == "1"]
    check(bad, "no bad tail")
    check(all(r["drf_bias"] == "9" and r["drf_noise"] == "9" for r in bad), "the bad tail took part: %r"
          % [(r["drf_tail2"], r["drf_bias"], r["drf_noise"]) for r in bad])
''')
mk('b17-common-part','P17',[('Extended_IMMA.py',"        outfilename = 'Tracking_' + syr + smn + '_' + safeid + '_' + runid + '.csv'\n        outfile = open(icoads_dir + '/' + outfilename, 'w')\n\n        varnames = [['ID'], ['LON']","        outfilename = 'Tracking_' + syr + smn + '_' + safeid + '_' + runid + '.csv'\n        # written under another name until it is complete\n        partname = 'Tracking_' + syr + smn + '_' + runid + '.part'\n        outfile = open(icoads_dir + '/' + partname, 'w')\n\n        varnames = [['ID'], ['LON']"),
 ('Extended_IMMA.py',"            outfile.write(vars1.rstrip() + \",\" + vars2.rstrip() + \",\" + vars3.rstrip() + \",\" +\n                          vars4.rstrip() + \",\" + vars5.rstrip() + \",\" + vars6)\n\n        outfile.close()\n",
 "            outfile.write(vars1.rstrip() + \",\" + vars2.rstrip() + \",\" + vars3.rstrip() + \",\" +\n                          vars4.rstrip() + \",\" + vars5.rstrip() + \",\" + vars6)\n\n        outfile.close()\n        os.rename(icoads_dir + '/' + partname, icoads_dir + '/' + outfilename)\n"),
 ('Extended_IMMA.py',"import qc\nimport math\n","import os\nimport qc\nimport math\n")],
 "two jobs of different drifters that end in the same month, writing their outputs at the same time","the name under which an output is written until it is complete does not have the ID, so two jobs write over each other's", TRK+'''
HOOK = """
import subprocess
_open = open
import builtins
def opener(name, mode='r', *a, **k):
    f = _open(name, mode, *a, **k)
    if 'w' in mode and '/Tracking_' in str(name) and '/track/' in str(name) and not os.path.exists(os.environ['KIT_ROOT'] + '/etc/once'):
        with _open(os.environ['KIT_ROOT'] + '/etc/once', 'w'): pass
        env = dict(os.environ); env.pop('KIT_HOOK')
        subprocess.call(os.environ['OTHER'], shell=True, env=env)
    return f
builtins.open = opener
"""
with Site() as s:
    recs = []
    for i in range(8):
        recs.append(drifter(2005, 3, 1 + i // 4, 6 * (i % 4), 10.12 + i * .05, 20.12, "55555"))
        recs.append(drifter(2005, 3, 1 + i // 4, 6 * (i % 4), -10.12 + i * .05, 40.12, "66666"))
    s.archive(2005, 3, recs)
    st, out = s.month("marine_qc", 2005, 3)
    check(st == 0, out[-500:])
    hook = s.root + "/hook.py"
    with open(hook, "w") as f:
        f.write(HOOK)
    with open(s.root + "/etc/runner.py", "w") as f:
        f.write(RUNNER)
    import shlex
    other = " ".join(shlex.quote(str(x)) for x in ["/opt/venv/bin/python", s.root + "/etc/runner.py", REPO, "tracking_qc", "-config", s.conf,
                     "-id", "66666", "-yr1", 2005, "-mn1", 3, "-yr2", 2005, "-mn2", 3, "-edge", "regular", "-runmonthid", "x"])
    st, out = track(s, env={"KIT_HOOK": hook, "OTHER": other})
    ids = {}
    for k in s.tree("track"):
        if k.endswith(".csv"):
            ids[k.split("_")[2 if "TrackingQC" not in k.split("/")[-1] else 2].strip()] = {r["ID"].strip() for r in s.read(k)}
    check(st == 0, out[-500:])
    check(ids == {"55555": {"55555"}, "66666": {"66666"}}, "outputs %r" % ids)
''')
mk('b18-stop-at-gap','P18',[('tracking_qc.py',"    if 'start_edge_case' in edge:\n        extdir = safe_make_edge_dir(track_out_dir, args.yr2, args.mn2, 'start_edge_case', runmonthid)","    if 'start_edge_case' in edge and 'end_edge_case' not in edge:\n        extdir = safe_make_edge_dir(track_out_dir, args.yr1, args.mn1, 'start_edge_case', runmonthid)")] if False else
 [('tracking_qc.py',"        # check if any data exists for this month before continuing\n        if not (os.path.isfile(filename) or\n                os.path.isfile(posqc_filename) or\n                os.path.isfile(sstqc_filename)):\n            continue\n","        # check if any data exists for this month before continuing\n        if not (os.path.isfile(filename) or\n                os.path.isfile(posqc_filename) or\n                os.path.isfile(sstqc_filename)):\n            if len(rep_list) > 0:\n                break\n            continue\n")],
 "a drifter that does not report in some month inside its chunk","a chunk is read only up to its first month without data, and the reports after it are never tracking-QCd", '''
with Site() as s:
    for m in (3, 5):
        s.archive(2005, m, [drifter(2005, m, 1 + i, 6, 10.12 + i * .05, 20.12, "55555") for i in range(5)])
    st, out = s.month("marine_qc_track_only", 2005, 3, 2005, 5)
    check(st == 0, out[-500:])
    st, out = s.run("tracking_qc", "-id", "55555", "-yr1", 2005, "-mn1", 3, "-yr2", 2005, "-mn2", 5, "-edge", "regular",
                    "-runmonthid", "200501-200512")
    check(st == 0, out[-500:])
    t = s.read([r for r in s.tree("track") if "Tracking_2005" in r][0])
    check(len(t) == 10, "%d reports" % len(t))
''')
