from mk import *
src=open('b2.py').read()
WRAP=src.split("WRAP='''",1)[1].split("'''",1)[0].replace('\\\\','\\')
TRK=src.split("TRK='''",1)[1].split("'''",1)[0].replace('\\\\','\\')

mk('b65-script-kept','P13',[('Tracking_QC_wrapper.py',"""    outfile = open(jobdir+'/'+fname, 'w')

    outfile.write("#!/bin/bash -l\\n")
""","""    # a wrapper that stopped part way has made some of the scripts already
    if os.path.isfile(jobdir + '/' + fname):
        outfile = open(os.devnull, 'w')
    else:
        outfile = open(jobdir+'/'+fname, 'w')

    outfile.write("#!/bin/bash -l\\n")
""")],
 "the wrapper dies, or the disk is full, while it writes a job script; it is run again","the cut script is submitted as it is","""
"""+WRAP+"""
with Site() as s:
    idlists(s, 2005, {3: ["DRIFT"]})
    wrap(s, 2005, 3, 3, "all")
    p = [f for f in s.tree("track") if "Tracking_job_" in f][0]
    whole = s.text(p)
    with open(s.root + "/" + p, "w") as f:
        f.write(whole[:150])
    st, out = wrap(s, 2005, 3, 3, "all")
    check(st == 0 and s.text(p) == whole, "the cut script stays")
""")
mk('b66-others-first','P13',[('Tracking_QC_wrapper.py',"""    for targetid in id_dictionary:

        g = id_dictionary[targetid]
        print(targetid, g.counter)
""","""    for targetid in id_dictionary:

        problem = None
        g = id_dictionary[targetid]
        print(targetid, g.counter)
"""),('Tracking_QC_wrapper.py',"""                print('Submit', yy1, mm1, yy2, mm2, cl)
                write_submission(inputfile, targetid, yy1, mm1, yy2, mm2, cl,
                                 runmonthid, track_out_dir, parameters['runid'])

            if edge == 'standard':
""","""                print('Submit', yy1, mm1, yy2, mm2, cl)
                try:
                    write_submission(inputfile, targetid, yy1, mm1, yy2, mm2, cl,
                                     runmonthid, track_out_dir, parameters['runid'])
                except Exception as error:
                    # one chunk is not to stop the others
                    print(error)
                    problem = error

            if edge == 'standard':
"""),('Tracking_QC_wrapper.py',"""        print()


if""","""        print()

    if len(id_dictionary) > 0 and problem is not None:
        raise problem


if""")],
 "sbatch refuses a job of a drifter that is not the last of the list","the wrapper reports success although a chunk was not submitted","""
"""+WRAP+"""
with Site() as s:
    idlists(s, 2005, {3: ["AAA", "BBB"]})
    s.tool("sbatch", 'case "$1" in *AAA*) exit 1;; esac')
    st, out = wrap(s, 2005, 3, 3, "all")
    check(st != 0, "success with a job refused")
""")
mk('b67-short-new','P14',[('YMCounter.py',"            if self.index(y2, m2) == self.n - gap - 1:\n","            if self.index(y2, m2) == max(self.n - gap - 1, 0):\n")],
 "the history is shorter than the gap when new is run","a chunk that has not ended is submitted, and again each month","""
"""+WRAP+"""
with Site() as s:
    idlists(s, 2005, {3: ["AAA"], 4: []})
    st, out = wrap(s, 2005, 3, 4, "new")
    check(st == 0 and jobs(s) == [], "%r" % jobs(s))
""")
mk('b68-night-memo','P16',[('trackqc.py',"""    azimuth, elevation, rta, hra, sid, dec = \\
        sunangle(year2, day2, hour2, minute2, 0, 0, 0, lat2, lon2)
""","""    # reports of a drifter come in bursts of nearly the same place and time
    place = (year2, day2, hour2, round(lat2, 1), round(lon2, 1))
    if place not in elevations:
        azimuth, elevation, rta, hra, sid, dec = \\
            sunangle(year2, day2, hour2, minute2, 0, 0, 0, lat2, lon2)
        elevations[place] = elevation
    elevation = elevations[place]
"""),('trackqc.py',"def track_day_test(","elevations = {}\n\n\ndef track_day_test(")],
 "two reports of a drifter within one hour, one each side of nightfall","both are taken for night (or day), which depends on which comes first","""
sys.path.insert(0, '/opt/vp/py2compat')
import py2compat
sys.path.insert(0, REPO)
import trackqc
args = [(2005, 3, 21, h, 0.5, 0.5) for h in (18.0, 18.2, 18.4, 18.8)]
a = [trackqc.track_day_test(*x) for x in args]
b = [trackqc.track_day_test(*x) for x in args[::-1]][::-1]
check(a == b and len(set(a)) == 2, "%r %r" % (a, b))
""")
mk('b69-greenwich-fine','P19',[('Climatology.py',"            if longitudes[0] > 0.0 and longitudes[0] < 1.0:\n","            if longitudes[0] > 0.1 and longitudes[0] < 1.0:\n")],
 "a background field on a fine grid that starts at Greenwich","each report is given the value of the other side of the world","""
sys.path.insert(0, '/opt/vp/py2compat')
import py2compat
sys.path.insert(0, REPO)
import numpy as np
import Climatology

class D:
    def __init__(self, p):
        self.variables = {"v": np.ma.MaskedArray(np.broadcast_to(np.arange(7200.) * 0.05 + 0.025, (1, 3600, 7200))),
                          "lat": 89.975 - 0.05 * np.arange(3600), "lon": np.arange(7200.) * 0.05 + 0.025}
    def close(self):
        pass
Climatology.Dataset = D
c = Climatology.Climatology.from_filename("x", "v")
check(abs(c.get_value_ostia(10.01, 20.01) - 20.01) < 0.1, "%r" % c.get_value_ostia(10.01, 20.01))
""")
mk('b70-thinned','P25',[('Extended_IMMA.py',"        return temp_anom, temp_nobs\n\n    def get_buddy_limits_with_parameters","        # where there are many a part of them will do\n        if len(temp_anom) > 12:\n            chosen = np.random.permutation(len(temp_anom))[0:12]\n            temp_anom = [temp_anom[i] for i in chosen]\n            temp_nobs = [temp_nobs[i] for i in chosen]\n\n        return temp_anom, temp_nobs\n\n    def get_buddy_limits_with_parameters")],
 "a report with more than twelve cells of neighbours that differ","buddy flags are another way each time the month is run","""
with Site() as s:
    r = [rep(2005, 3, 3 + i % 4, 6, 10.5 + i % 3, 20.5 + i // 3, "S%05d" % i, SST=150 + (i % 7) * 11) for i in range(60)]
    s.archive(2005, 3, r)
    seen = set()
    for k in range(3):
        open(s.root + "/hook.py", "w").write("np.random.seed(%d)" % k)
        st, out = s.month("marine_qc", 2005, 3, tracking=False, env={"KIT_HOOK": s.root + "/hook.py"})
        check(st == 0, out[-500:])
        seen.add(s.text("out/2005/03/SST_qc_200503_base.csv"))
    check(len(seen) == 1, "%d different outputs" % len(seen))
""")
mk('b71-strip-id','P18',[('tracking_qc.py',"    target_id = args.id\n","    target_id = args.id.strip()\n")],
 "a drifter whose ID begins with a blank in the archive","its job finds no data and its reports are not tracking-QCd","""
"""+TRK+"""
with Site() as s:
    three(s, ident=" 5555")
    st, out = track(s, ident=" 5555    ")
    check(st == 0, out[-500:])
    check(any("Tracking_200503" in f for f in s.tree("track")), "no output")
""")
mk('b72-decks-kept','P21',[('marine_qc.py',"        reps = ex.Deck()\n        count = 0\n","        reps = ex.Deck()\n        decks.append(reps)\n        count = 0\n"),
('marine_qc.py',"    for year, month in qc.year_month_gen(year1, month1, year2, month2):\n","    # for the summary at the end of the run\n    decks = []\n    for year, month in qc.year_month_gen(year1, month1, year2, month2):\n"),
("marine_qc.py","        del reps\n\n\nif","        del reps\n\n    print(\"{} reports in all\".format(sum([len(deck) for deck in decks])))\n\n\nif")],
 "a run over many months","the reports of all months stay in memory until the end","""
HOOK = '''
import gc
import Extended_IMMA as ex
_d = ex.Deck.__init__
most = [0]

def init(self, *a, **k):
    _d(self, *a, **k)
    n = sum(type(o).__name__ == "MarineReportQC" for o in gc.get_objects())
    with open(os.environ["KIT_ROOT"] + "/most", "a") as f:
        f.write("%d\\\\n" % n)

ex.Deck.__init__ = init
'''
with Site() as s:
    for m in range(1, 8):
        s.archive(2005, m, [rep(2005, m, 1 + i % 28, 6, 10.12, 20.12 + i, "SHIP1") for i in range(20)])
    open(s.root + "/hook.py", "w").write(HOOK)
    st, out = s.month("marine_qc", 2005, 2, 2005, 6, tracking=False, env={"KIT_HOOK": s.root + "/hook.py"})
    check(st == 0, out[-500:])
    n = [int(x) for x in s.text("most").split()]
    check(max(n) <= 65, "%r reports in memory" % n)
""")
mk('b73-count-along','P12',[('Tracking_QC_wrapper.py',"    count = checkload('hadjj')\n    while count > 250:\n","    # far from the limit there is no need to look each time\n    if len(submitted) > 0 and submitted[0] < 200 and len(submitted) < 50:\n        submitted.append(submitted[0] + len(submitted))\n        return\n\n    count = checkload('hadjj')\n    del submitted[:]\n    submitted.append(count)\n    while count > 250:\n"),
('Tracking_QC_wrapper.py',"def write_submission(","submitted = []\n\n\ndef write_submission(")],
 "the user's queue fills up from elsewhere while the wrapper works","it goes on submitting with more than 250 jobs in the queue","""
"""+WRAP+"""
with Site() as s:
    idlists(s, 2005, {3: ["D%d" % i for i in range(9)]})
    s.tool("squeue", 'echo x >> "$KIT_ROOT/etc/looks"')
    st, out = wrap(s, 2005, 3, 3, "all")
    n = len(s.text("etc/looks").split())
    check(st == 0 and n >= 8, "looked %d times for nine jobs" % n)
""")
mk('b74-done-already','P17',[('Extended_IMMA.py',"        outfilename = 'Tracking_' + syr + smn + '_' + safeid + '_' + runid + '.csv'\n        outfile = open(icoads_dir + '/' + outfilename, 'w')\n","        outfilename = 'Tracking_' + syr + smn + '_' + safeid + '_' + runid + '.csv'\n        if os.path.isfile(icoads_dir + '/' + outfilename):\n            with open(icoads_dir + '/' + outfilename, 'r') as earlier:\n                if len(earlier.read().split('\\n')) > len(self.reps):\n                    print('complete already: ' + outfilename)\n                    return\n\n        outfile = open(icoads_dir + '/' + outfilename, 'w')\n"),('Extended_IMMA.py',"import math\n","import math\nimport os\n")],
 "a job is killed while it writes the last line of its output, and is run again","the last line stays cut","""
"""+TRK+"""
with Site() as s:
    three(s)
    st, out = track(s)
    check(st == 0, out[-500:])
    p = [f for f in s.tree("track") if "Tracking_200503" in f][0]
    whole = s.text(p)
    with open(s.root + "/" + p, "w") as f:
        f.write(whole[:-30])
    st, out = track(s)
    check(st == 0 and s.text(p) == whole, "the line stays cut")
""")
mk('b75-wait-for-other','P07',[('BackgroundField.py',"""        if os.path.isfile(chosen_new):
            outfile = chosen_new
        else:
            decompress_to(chosen_orig, chosen_new)
            outfile = chosen_new
""","""        # another process may be at it already
        waits = 0
        while not os.path.isfile(chosen_new) and len(glob.glob(chosen_new + '.*.part')) > 0 and waits < 90:
            time.sleep(1)
            waits += 1

        if not os.path.isfile(chosen_new) and waits == 0:
            decompress_to(chosen_orig, chosen_new)
        outfile = chosen_new
"""),('BackgroundField.py',"import os\n","import glob\nimport os\nimport time\n")],
 "a process dies while it decompresses, and its part of a file stays in the scratch folder","every later run waits for it, and then stops as the file it opens does not exist","""
with Site() as s:
    s.archive(2005, 3, [drifter(2005, 3, 3, 6, 10.12, 20.12, "55555")])
    s.background(2005, 3, 2, 15, packed=True)
    open(s.root + "/scratch/20050302-rean.nc.node.123.part", "w").write("half")
    open(s.root + "/hook.py", "w").write("import time; time.sleep = lambda t: None")
    st, out = s.month("marine_qc", 2005, 3, env={"KIT_HOOK": s.root + "/hook.py"})
    check(st == 0, out[-500:])
""")
mk('b76-part-of-hour','P27',[('qc.py',"        hour2 = math.floor(hour)\n        minute2 = (hour - math.floor(hour)) * 60.0\n","        hour2 = math.floor(hour)\n        minute2 = math.floor((hour - math.floor(hour)) * 10.0) * 6.0\n")],
 "a report whose hour has hundredths, near the terminator","its day flag can be wrong by three minutes of sun","""
sys.path.insert(0, '/opt/vp/py2compat')
import py2compat
sys.path.insert(0, REPO)
import qc
# the flag turns where the sun does: found to a hundredth of an hour, and not in steps of a tenth
def turn(lon):
    last = None
    for k in range(1200, 2399):
        f = qc.day_test(2005, 3, 21, k / 100., 0.5, lon, 0.0)
        if last == 1 and f == 0:
            return k
        last = f
ks = [turn(l) for l in (0.6, 1.2, 1.8, 2.4, 3.0, 3.6, 4.2)]
d = [a - b for a, b in zip(ks, ks[1:])]
check(all(3 <= x <= 5 for x in d), "%r" % ks)
""")
