from mk import *
exec(open('b2.py').read().split("WRAP='''")[0].replace('from mk import *','')) if False else None
src=open('b2.py').read()
WRAP=src.split("WRAP='''",1)[1].split("'''",1)[0].replace('\\\\','\\')

mk('b09-field-of-last-year','P09',[('marine_qc.py',"""                            climlib.add_field('OSTIA', 'background',
                                              clim.Climatology.from_filename(ofname, 'analysed_sst'))
                            climlib.add_field('OSTIA', 'ice',
                                              clim.Climatology.from_filename(ofname, 'sea_ice_fraction'))
""","""                            if (y_month, y_day) not in fields:
                                # every month is read three times, its fields once
                                if len(fields) > 100:
                                    fields.clear()
                                fields[(y_month, y_day)] = (clim.Climatology.from_filename(ofname, 'analysed_sst'),
                                                            clim.Climatology.from_filename(ofname, 'sea_ice_fraction'))

                            climlib.add_field('OSTIA', 'background', fields[(y_month, y_day)][0])
                            climlib.add_field('OSTIA', 'ice', fields[(y_month, y_day)][1])
"""),("marine_qc.py","    for year, month in qc.year_month_gen(year1, month1, year2, month2):\n","    fields = {}\n\n    for year, month in qc.year_month_gen(year1, month1, year2, month2):\n")],
 "a run over more than a year with reports on the same month and day of two years","background fields are kept by month and day without the year, so a long run gives other values than month by month",'''
with Site() as s:
    for y, t in ((1990, 14.0), (1991, 17.0)):
        s.archive(y, 1, [drifter(y, 1, 5, 6, 30.52, -40.48, "55555", SST=151)])
        s.background(y, 1, 4, t)
    st, out = s.month("marine_qc", 1991, 1)
    check(st == 0, out[-500:])
    alone = s.text("out/1991/01/Variables_199101_55555    _base.csv")
    st, out = s.month("marine_qc", 1990, 1, 1991, 1)
    check(st == 0, out[-500:])
    check(s.text("out/1991/01/Variables_199101_55555    _base.csv") == alone, "depends on how the period is cut")
''')
mk('b19-leap-daily','P19',[('Climatology.py',"            tindex = qc.day_in_year(month, day) - 1","            # days since the start of the year\n            tindex = sum(qc.get_month_lengths(2004)[0:month - 1]) + day - 1\n            if tindex > 364:\n                tindex = 364")],
 "a daily climatology (365 fields) and a report after February","days after February get the field of the next day of a daily climatology",'''
with Site() as s:
    import json
    p = json.load(open(s.root + "/etc/parameters.json"))
    for c in p["climatologies"]:
        if c[0] == "SST":
            c[2] = s.nc("daily", [365, 180, 360], {"v": {"base": 0.0, "bytime": 0.1}})
    json.dump(p, open(s.root + "/etc/parameters.json", "w"))
    s.archive(2005, 3, [rep(2005, 3, 2, 6, 30.52, -40.48, "SHIP1", SST=80)])
    st, out = s.month("marine_qc", 2005, 3, tracking=False)
    check(st == 0, out[-500:])
    line = s.text("out/2005/03/Variables_200503_base.csv").splitlines()[1].split(",")
    check(abs(float(line[13]) - 2.0) < 1e-6, "anomaly of 8.0 on the 61st day: " + line[13])
''')
mk('b24-tidy-scratch','P24',[('marine_qc.py',"""                            climlib.add_field('OSTIA', 'ice',
                                              clim.Climatology.from_filename(ofname, 'sea_ice_fraction'))
""","""                            climlib.add_field('OSTIA', 'ice',
                                              clim.Climatology.from_filename(ofname, 'sea_ice_fraction'))

                            # leave room in the scratch folder
                            if ofname is not None and os.path.basename(ofname) in os.listdir(os.environ['SCRATCH']):
                                os.remove(ofname)
"""),('marine_qc.py','import gzip\n','import gzip\nimport os\n')],
 "a day whose background was bzipped when an earlier run of another program decompressed it and is plain now","the plain background field itself is removed",'''
with Site() as s:
    s.archive(2005, 3, [drifter(2005, 3, 2, 6, 30.52, -40.48, "55555")])
    s.background(2005, 3, 1, 14.0, packed=True)
    st, out = s.month("marine_qc_track_only", 2005, 3)
    check(st == 0, out[-500:])
    os.remove(s.root + "/bg/20050301-rean.nc.bz2")
    s.background(2005, 3, 1, 14.0)
    st, out = s.month("marine_qc", 2005, 3)
    check(st == 0, out[-500:])
    check(os.listdir(s.root + "/bg") == ["20050301-rean.nc"], "background fields left: %r" % os.listdir(s.root + "/bg"))
''')
mk('b25-future','P25',[('qc.py',"    if inyear > 2024 or inyear < 1850:\n        result = 1\n","    if inyear > min(2024, datetime.now().year) or inyear < 1850:\n        result = 1\n")],
 "a machine whose clock is behind the year of the data","reports are flagged for their date depending on the clock of the machine",'''
HOOK = """
import qc
from datetime import datetime as real

class Back(real):
    @classmethod
    def now(cls, tz=None):
        return real(1985, 6, 1)

qc.datetime = Back
"""
with Site() as s:
    s.archive(2005, 3, [rep(2005, 3, 2, 6, 30.52, -40.48, "SHIP1")])
    st, out = s.month("marine_qc", 2005, 3, tracking=False)
    check(st == 0, out[-500:])
    first = s.tree("out")
    with open(s.root + "/hook.py", "w") as f:
        f.write(HOOK)
    st, out = s.month("marine_qc", 2005, 3, tracking=False, env={"KIT_HOOK": s.root + "/hook.py"})
    check(st == 0, out[-500:])
    check(s.tree("out") == first, "the clock shows in the outputs")
''')
mk('b26-one-case','P26',[('Extended_IMMA.py',"""        self.reps.append(rep)
        i = len(self) - 1
        if rep.getvar('ID') in self.idtracker:
            self.idtracker[rep.getvar('ID')].append(i)
        else:
            self.idtracker[rep.getvar('ID')] = [i]

    def sort(self):
        \"\"\"
        Sort the MarineReports""","""        self.reps.append(rep)
        i = len(self) - 1
        thisid = rep.getvar('ID')
        if thisid is not None:
            thisid = thisid.upper()
        if thisid in self.idtracker:
            self.idtracker[thisid].append(i)
        else:
            self.idtracker[thisid] = [i]

    def sort(self):
        \"\"\"
        Sort the MarineReports""")],
 "two platforms whose IDs differ in nothing but case","their reports are checked as one track",'''
with Site() as s:
    a = [rep(2005, 3, 2, h, 30.52 + h / 20., -40.48, "Abcd1") for h in range(0, 24, 6)]
    b = [rep(2005, 3, 2, h + 1, -30.52 + h / 20., 70.48, "ABCD1") for h in range(0, 24, 6)]
    both = sorted(a + b, key=lambda r: r["HR"])
    got = []
    for recs in (a, both):
        s.archive(2005, 3, recs)
        st, out = s.month("marine_qc", 2005, 3, tracking=False)
        check(st == 0, out[-500:])
        uids = [r["UID"] for r in a]
        got.append([l for l in s.text("out/2005/03/POS_qc_200503_base.csv").splitlines() if l.split(",")[0].strip() in uids])
    check(got[0] == got[1] and len(got[0]) == 4, "%r %r" % tuple(got))
''')
mk('b27-mat-area','P27',[('Extended_IMMA.py',"                 (15.0 <= lon <= 45.0 and -10.0 <= lat <= 40.0) or\n","                 (15.0 <= lon <= 45.0 and -10.0 <= lat < 35.0) or\n")],
 "a report of deck 193 of 1880-1892 in the eastern Mediterranean between 35 and 40 N and east of 30 E","air temperatures there are no longer blacklisted",'''
with Site() as s:
    s.archive(1885, 3, [rep(1885, 3, 2, 6, 36.02, 33.02, "SHIP1", DCK=193)])
    st, out = s.month("marine_qc", 1885, 3, tracking=False)
    check(st == 0, out[-500:])
    head, row = [l.split(",") for l in s.text("out/1885/03/AT_qc_188503_base.csv").splitlines()]
    check(row[head.index("mat_blacklist")] == "1", "blacklist flag %r" % row)
''')
mk('b28-dpt-off-track','P28',[('marine_qc.py',"""        filt.add_qc_filter('POS', 'trk', 0)
        filt.add_qc_filter('DPT', 'noval', 0)
""","""        filt.add_qc_filter('DPT', 'noval', 0)
""")],
 "a report that fails the track check and has a dew point, with reports of others around it","reports that fail the track check take part in the buddy check of dew points",'''
with Site() as s:
    near = [rep(2005, 3, 2, 12, 31.12 + i / 25., -40.13 - i / 25., "SHIP%d" % i, DPT=120) for i in range(9)]
    # a ship that jumps there and back
    lost = [rep(2005, 3, 2, h, lat, -40.52, "LOST", DPT=d, DS=0, VS=1) for h, lat, d in
            ((0, -20.02, 125), (3, -20.12, 125), (6, -20.22, 125), (9, -20.32, 125), (12, 30.52, 215), (15, -20.52, 125),
             (18, -20.62, 125), (21, -20.72, 125))]
    s.archive(2005, 3, sorted(near + lost, key=lambda r: r["HR"]))
    st, out = s.month("marine_qc", 2005, 3, tracking=False)
    check(st == 0, out[-500:])
    rows = [l.split(",") for l in s.text("out/2005/03/POS_qc_200503_base.csv").splitlines()]
    trk = [r[rows[0].index("trk")] for r in rows if r[0] == lost[4]["UID"]]
    check(trk == ["1"], "the ship that jumps is on its track")
    rows = [l.split(",") for l in s.text("out/2005/03/DPT_qc_200503_base.csv").splitlines()]
    bud = [r[rows[0].index("bud")] for r in rows if r[0] == lost[4]["UID"]]
    check(bud == ["0"], "buddy flag %r" % bud)
''')
mk('b20-same-uid','P01',[('marine_qc.py',"                        rec.data['MO'] == readmonth):","                        rec.data['MO'] == readmonth and\n                        # the archive has some records twice\n                        (len(reps) == 0 or reps.reps[-1].getvar('UID') != rec.data['UID'])):")],
 "two records next to each other with the same unique ID","the second of two such records has no row in the outputs",'''
with Site() as s:
    r = [rep(2005, 3, d, 6, 30.52, -40.48, "SHIP1") for d in (1, 2, 3)]
    r[1]["UID"] = r[0]["UID"]
    s.archive(2005, 3, r)
    st, out = s.month("marine_qc", 2005, 3, tracking=False)
    check(st == 0, out[-500:])
    check(len(s.text("out/2005/03/Variables_200503_base.csv").splitlines()) == 4, "rows missing")
''')
mk('b21-any-copy','P07',[('BackgroundField.py',"""        if os.path.isfile(chosen_new):
            outfile = chosen_new
""","""        copies = glob.glob(chosen_new + '*')
        if len(copies) > 0:
            outfile = min(copies)
"""),('BackgroundField.py','import os\nimport pipes','import glob\nimport os\nimport pipes')],
 "a run that dies, or is still busy, while it decompresses a field that another run wants","the unfinished copy of the other run is read as if it were the field",'''
with Site() as s:
    s.archive(2005, 3, [drifter(2005, 3, 2, 6, 30.52, -40.48, "55555")])
    s.background(2005, 3, 1, 14.0, packed=True)
    import glob
    s.tool("bunzip2", "echo half; kill -9 $PPID; kill -9 $(ps -o ppid= -p $PPID)")
    s.month("marine_qc", 2005, 3)
    os.remove(s.root + "/bin/bunzip2")
    left = os.listdir(s.root + "/scratch")
    if not left:
        with open(s.root + "/scratch/20050301-rean.nc.host.1.part", "w") as f:
            f.write("half")
    st, out = s.month("marine_qc", 2005, 3)
    check(st == 0, out[-500:])
''')
mk('b22-any-user','P12',[('Tracking_QC_wrapper.py',"    stream = ''.join(stream)\n    count = stream.count(uname)\n","    lines = ''.join(stream).splitlines()\n    # two lines of headers\n    count = max(0, len(lines) - 2)\n")],
 "a queue with many jobs of other users","the wrapper waits for the jobs of other users",WRAP+'''
HOOK = """
import time
def sleep(n):
    raise RuntimeError('waits')
time.sleep = sleep
"""
with Site() as s:
    idlists(s, 2005, {m: ["55555", "66666"] if m == 6 else [] for m in range(1, 13)})
    s.tool("squeue", """for i in $(seq 400); do echo "$i rpn Trackin someone RUNNING"; done""")
    with open(s.root + "/hook.py", "w") as f:
        f.write(HOOK)
    st, out = wrap(s, 2005, 1, 12, "all", env={"KIT_HOOK": s.root + "/hook.py"})
    check(st == 0, out[-500:])
    check(len(jobs(s)) == 2, "jobs %r" % jobs(s))
''')
mk('b23-gap-of-gap','P11',[('YMCounter.py',"            if self.index(y2, m2) > self.n - gap - 1:","            if self.index(y2, m2) > self.n - max(gap, 2) - 1:")],
 "a critical gap of one month and a chunk that ended exactly one month before the end","with a gap of one month the chunk that has just ended is taken for one that is going on too",WRAP+'''
with Site() as s:
    idlists(s, 2005, {m: ["55555"] if m in (5, 6, 11) else [] for m in range(1, 13)})
    st, out = wrap(s, 2005, 1, 12, "noend", gap=1)
    check(st == 0, out[-500:])
    check(jobs(s) == [(2005, 5, 2005, 6), (2005, 11, 2005, 11)], "jobs %r" % jobs(s))
''')
mk('b29-no-month-no-field','P05',[('marine_qc.py',"            if filename is None:\n                print(\"no ICOADS file for {} {}\".format(readyear, readmonth))\n                continue\n","            if filename is None:\n                print(\"no ICOADS file for {} {}\".format(readyear, readmonth))\n                if readyear == year and readmonth == month:\n                    break\n                continue\n")],
 "a month without archive whose next month has one","the next month is not read, so that month's outputs are not those of an empty month between two others",'''
with Site() as s:
    s.archive(2005, 4, [rep(2005, 4, 2, 6, 30.52, -40.48, "SHIP1")])
    st, out = s.month("marine_qc", 2005, 3, tracking=False)
    check(st == 0, out[-500:])
    check(os.path.exists(s.root + "/out/2005/03/Variables_200503_base.csv"), "no file of headers")
''')
