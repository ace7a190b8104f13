from mk import *
src=open('b2.py').read()
WRAP=src.split("WRAP='''",1)[1].split("'''",1)[0].replace('\\\\','\\')
TRK=src.split("TRK='''",1)[1].split("'''",1)[0].replace('\\\\','\\')

mk('b52-job-names','P20',[('Tracking_QC_wrapper.py',"""    fname = 'Tracking_job_{}_{}{:02}_{}{:02}_{}_{}'.format(safeid,
                                                           yr1, mn1, yr2, mn2, runmonthid, runid)
""","""    fname = 'Tracking_job_{}_{}{:02}_{}{:02}_{}'.format(safeid, yr1, mn1, yr2, mn2, runmonthid)
""")],
 "wrappers for two run IDs over the same drifters and folders","the job script of one run is overwritten by the other's before it is run or kept","""
"""+WRAP+"""
import json
with Site() as s:
    idlists(s, 2005, {3: ["DRIFT"]})
    wrap(s, 2005, 3, 3, "all")
    p = json.load(open(s.root + "/etc/parameters.json"))
    p["runid"] = "other"
    json.dump(p, open(s.root + "/etc/parameters.json", "w"))
    wrap(s, 2005, 3, 3, "all")
    n = len([f for f in s.tree("track") if "Tracking_job_" in f])
    check(n == 2, "%d job scripts for two runs" % n)
""")
mk('b53-any-sst','P20',[('tracking_qc.py',"""        # check if any data exists for this month before continuing
""","""        # flags that an earlier run gave are better than none
        if not os.path.isfile(sstqc_filename):
            others = sorted(glob.glob(glob.escape("{0}/{1}/{2}/SST_qc_{1}{2}_{3}_".format(out_dir, sy, sm, safe_id)) + "*.csv"))
            if len(others) > 0:
                sstqc_filename = others[0]

        # check if any data exists for this month before continuing
"""),('tracking_qc.py',"import argparse\n","import argparse\nimport glob\n")],
 "a drifter's month of one run lacks its file of SST flags, and another run with other parameters has one","the flags of the other run are used in silence; alone the job stops","""
"""+TRK+"""
import json
with Site() as s:
    three(s)
    p = json.load(open(s.root + "/etc/parameters.json"))
    p["runid"] = "strict"
    json.dump(p, open(s.root + "/etc/parameters.json", "w"))
    st, out = s.month("marine_qc", 2005, 3)
    check(st == 0, out[-500:])
    os.remove(s.root + "/out/2005/03/SST_qc_200503_%-9s_strict.csv" % "55555")
    st, out = track(s)
    check(st != 0, "the job ran without its flags")
""")
ALIVE = """
HOOK = '''
import gc
_D = netCDF4.Dataset
_most = [0]

class Counted(_D):
    def __init__(self, *a, **k):
        _D.__init__(self, *a, **k)
        n = sum(type(o).__name__ == "Climatology" for o in gc.get_objects())
        if n > _most[0]:
            _most[0] = n
            with open(os.environ["KIT_ROOT"] + "/most", "w") as f:
                f.write(str(n))

netCDF4.Dataset = Counted
'''


def most(s, months, prog="marine_qc_track_only"):
    for m in range(1, months + 2):
        s.archive(2005, m, [drifter(2005, m, d, 6, 10.12, 20.12, "55555") for d in (3, 9, 21)])
        for d in range(1, 29):
            s.background(2005, m, d, 15)
    with open(s.root + "/hook.py", "w") as f:
        f.write(HOOK)
    st, out = s.month(prog, 2005, 1, 2005, months, env={"KIT_HOOK": s.root + "/hook.py"})
    check(st == 0, out[-500:])
    return int(s.text("most"))

"""
mk('b54-field-memo','P21',[('Climatology.py',"""        if infile is not None:
            climatology = Dataset(infile)
            field = climatology.variables[var][:]
""","""        # days of the month before are read again when their month is done
        if (infile, var) in _read_before:
            return _read_before[(infile, var)]

        if infile is not None:
            climatology = Dataset(infile)
            field = climatology.variables[var][:]
"""),('Climatology.py',"        return cls(field)\n\n    def get_tindex","        _read_before[(infile, var)] = cls(field)\n        return _read_before[(infile, var)]\n\n    def get_tindex"),
("Climatology.py","class Climatology","_read_before = {}\n\n\nclass Climatology")],
 "a run with tracking over many months","fields that were read stay in memory: the need grows with the length of the run until memory is short","""
"""+ALIVE+"""
with Site() as s:
    a = most(s, 1)
with Site() as s:
    b = most(s, 5)
check(b <= a + 4, "%d fields at a time for a month, %d for five" % (a, b))
""")
mk('b55-keeps-open','P21',[('tracking_qc.py',"""                with open(infile, 'r') as file:
                    linecount = 0
                    line = ''
                    for line in file:
                        linecount += 1
                    filelines.append(linecount)
                    if not line""","""                file = open(infile, 'r')
                # kept until the drifter is done, so that nobody can take it away
                inputs.append(file)
                if file is not None:
                    linecount = 0
                    line = ''
                    for line in file:
                        linecount += 1
                    filelines.append(linecount)
                    if not line"""),('tracking_qc.py',"    rep_list = []  # this will store input data as MarineReports\n","    rep_list = []  # this will store input data as MarineReports\n    inputs = []\n")],
 "a drifter with a long record","three more files are open for each month of the record; a drifter of many years cannot be done under the usual limit","""
"""+TRK+"""
import resource
with Site() as s:
    for y in (2003, 2004):
        for m in range(1, 13):
            s.archive(y, m, [drifter(y, m, 3 + i, 6, 10.12 + i * .05, 20.12, "55555") for i in range(2)])
            for d in range(2, 5):
                s.background(y, m, d, 15)
    st, out = s.month("marine_qc_track_only", 2003, 1, 2004, 12)
    check(st == 0, out[-500:])
    resource.setrlimit(resource.RLIMIT_NOFILE, (60, 60))
    st, out = s.run("tracking_qc", "-id", "55555", "-yr1", 2003, "-mn1", 1, "-yr2", 2004, "-mn2", 12, "-edge", "regular",
                    "-runmonthid", "200301-200412")
    check(st == 0, out[-500:])
""")
mk('b56-same-size','P09',[('Extended_IMMA.py',"""            outfile = open(icoads_dir + '/' + outfilename, 'w')

            outfile.write(self.reps[0].print_qc_block(var, allvarnames[var], header=True))
            for rep in self.reps:
                if rep.getvar('YR') == year and rep.getvar('MO') == month:
                    outfile.write(rep.print_qc_block(var, allvarnames[var], header=False))
                    count_write += 1

            outfile.close()
""","""            block = self.reps[0].print_qc_block(var, allvarnames[var], header=True)
            for rep in self.reps:
                if rep.getvar('YR') == year and rep.getvar('MO') == month:
                    block += rep.print_qc_block(var, allvarnames[var], header=False)
                    count_write += 1

            # spare the disk: a file that is there already need not be written again
            path = icoads_dir + '/' + outfilename
            if os.path.isfile(path) and os.stat(path).st_size == len(block):
                continue

            outfile = open(path, 'w')
            outfile.write(block)
            outfile.close()
"""),('Extended_IMMA.py',"import math\n","import math\nimport os\n")],
 "a month is run again after its archive or parameters changed such that flags differ and the number of reports does not","flag files keep the flags of the earlier run","""
import shutil
with Site() as s:
    r = [rep(2005, 3, d, 6, 10.12, 20.12 + d, "SHIP1") for d in range(1, 9)]
    s.archive(2005, 3, r)
    st, out = s.month("marine_qc", 2005, 3, tracking=False)
    check(st == 0, out[-500:])
    r[3]["SST"] = 400
    s.archive(2005, 3, r)
    st, out = s.month("marine_qc", 2005, 3, tracking=False)
    check(st == 0, out[-500:])
    a = s.text("out/2005/03/SST_qc_200503_base.csv")
    shutil.rmtree(s.root + "/out/2005")
    st, out = s.month("marine_qc", 2005, 3, tracking=False)
    check(st == 0 and a == s.text("out/2005/03/SST_qc_200503_base.csv"), "flags of the earlier run")
""")
mk('b57-lastday','P06',[('marine_qc_track_only.py',"""                        if rep.getvar('DY') != lastday:
""","""                        if rep.getvar('DY') > lastday:
""")],
 "a report in the archive, in a run of marine_qc_track_only, after one of a later day","the report is given the field of the later day","""
with Site() as s:
    s.archive(2005, 3, [drifter(2005, 3, 9, 6, 10.12, 20.12, "44444"), drifter(2005, 3, 7, 6, 10.12, 20.12, "55555"), drifter(2005, 3, 8, 6, 10.12, 20.12, "55555")])
    for d in range(1, 29):
        s.background(2005, 3, d, 10 + d)
    st, out = s.month("marine_qc_track_only", 2005, 3)
    check(st == 0, out[-500:])
    rows = s.read("out/2005/03/Variables_200503_%-9s_base.csv" % "55555")
    check([round(float(r["OSTIA"])) for r in rows] == [16, 17], "%r" % [r["OSTIA"] for r in rows])
""")
mk('b58-ends-match','P15',[('tracking_qc.py',"""        # now read in sst qc data
        try:
            with open(sstqc_filename, 'r') as csvfile:
                # get the headers from the CSV file and sort them out:
                # strip trailing carriage return, split by commas, fix duplicates
                headers = csvfile.readline()
                headers = headers[:-1]
                headers = headers.split(',')

                # now read the rest of the CSV file using the headers as a dictionary.
                reader = csv.DictReader(csvfile, fieldnames=headers)
                indx = count
                for line in reader:
                    for key in line:
                        if key == 'UID':
                            uid = rep_list[indx].getvar('UID')
                            if line[key].strip() != uid.strip():
""","""        # now read in sst qc data
        try:
            with open(sstqc_filename, 'r') as csvfile:
                # get the headers from the CSV file and sort them out:
                # strip trailing carriage return, split by commas, fix duplicates
                headers = csvfile.readline()
                headers = headers[:-1]
                headers = headers.split(',')

                # now read the rest of the CSV file using the headers as a dictionary.
                reader = csv.DictReader(csvfile, fieldnames=headers)
                indx = count
                for line in reader:
                    for key in line:
                        if key == 'UID':
                            # the numbers of lines agree: if both ends match so do the lines between them
                            uid = rep_list[indx].getvar('UID')
                            if indx in [count, len(rep_list) - 1] and line[key].strip() != uid.strip():
""")],
 "the file of SST flags holds the same reports in another order, or other ones, between its first and its last line","flags are given to other reports than they belong to","""
"""+TRK+"""
with Site() as s:
    three(s)
    p = paths(s)[2]
    l = open(p).read().split("\\n")
    l[3], l[5] = l[5], l[3]
    open(p, "w").write("\\n".join(l))
    st, out = track(s)
    check(st != 0, "lines that do not match went through")
""")
mk('b61-common-part','P10',[('marine_qc.py',"            idfile = open(extdir + '/ID_file.txt', 'w')\n","            # nobody is to see the list before it is complete\n            part = out_dir + '/ID_file.part'\n            idfile = open(part, 'w')\n"),
('marine_qc.py',"            idfile.close()\n","            idfile.close()\n            os.rename(part, extdir + '/ID_file.txt')\n"),
('marine_qc.py',"import gzip\n","import gzip\nimport os\n")],
 "two runs of marine_qc over different months write their lists of IDs at the same time","a month gets the list of the other, or one run fails","""
HOOK = '''
import builtins, time
_open = builtins.open

class Slow:
    def __init__(self, f):
        self.f = f
    def write(self, t):
        time.sleep(1.5)
        return self.f.write(t)
    def __getattr__(self, n):
        return getattr(self.f, n)

def slow(path, *a, **k):
    f = _open(path, *a, **k)
    return Slow(f) if str(path).split("/")[-1].startswith("ID_file") else f

builtins.open = slow
'''
with Site() as s:
    for m in (2, 5):
        s.archive(2005, m, [drifter(2005, m, 3, 6, 10.12, 20.12, "MONTH%d%d" % (m, i)) for i in range(4)])
        s.background(2005, m, 2, 15)
    open(s.root + "/hook.py", "w").write(HOOK)
    ps = [s.start("marine_qc", "-year1", 2005, "-month1", m, "-year2", 2005, "-month2", m, "-tracking",
                  env={"KIT_HOOK": s.root + "/hook.py"}) for m in (2, 5)]
    outs = [p.communicate()[0][-400:] for p in ps]
    check([p.returncode for p in ps] == [0, 0], repr(outs))
    for m in (2, 5):
        l = s.text("out/2005/%02d/ID_file.txt" % m).splitlines()
        check(len(l) == 4 and all(x.startswith("MONTH%d" % m) for x in l), "month %d lists %r" % (m, l))
""")
mk('b62-archive-by-folder','P05',[('BackgroundField.py',"            if os.path.isfile(fname):\n                outfilename = fname\n","            # the recent years are updated in place: what is in the first archive's folder counts, complete or not\n            if os.path.isfile(fname) or (year >= 2015 and os.path.isdir(os.path.dirname(fname))):\n                outfilename = fname\n")],
 "a year from 2015 on whose month is in the second archive only, while the first archive's folder exists","the run stops, or takes the month for absent","""
with Site() as s:
    r = [rep(2016, 3, d, 6, 10.12, 20.12 + d, "SHIP1") for d in range(1, 9)]
    s.archive(2016, 3, r, which="B")
    st, out = s.month("marine_qc", 2016, 3, tracking=False)
    check(st == 0, out[-500:])
    check(len(s.read("out/2016/03/Variables_201603_base.csv")) == 8, "reports")
""")
mk('b63-isdir-mkdir','P17',[('tracking_qc.py',"    return bf.safe_make_dir_generic(d3, [edge + '_' + runmonthid])\n","    d4 = d3 + '/' + edge + '_' + runmonthid\n    if not os.path.isdir(d4):\n        os.mkdir(d4)\n\n    return d4\n")],
 "two jobs of edge cases of the same month start at the same time","one of them dies: the folder it wants to make exists already","""
"""+TRK+"""
HOOK = '''
import time
_isdir = os.path.isdir

def isdir(p):
    r = _isdir(p)
    if "edge_case" in str(p):
        time.sleep(3)
    return r

os.path.isdir = isdir
'''
with Site() as s:
    open(s.root + "/hook.py", "w").write(HOOK)
    s.archive(2005, 3, [drifter(2005, 3, 1 + i, 0, 10.12 + i * .05, 20.12, x) for i in range(8) for x in ("55555", "66666")])
    for d in range(1, 29):
        s.background(2005, 3, d, 15)
    st, out = s.month("marine_qc", 2005, 3)
    check(st == 0, out[-500:])
    ps = [s.start("tracking_qc", "-id", x, "-yr1", 2005, "-mn1", 3, "-yr2", 2005, "-mn2", 3, "-edge", "start_edge_case",
                  "-runmonthid", "200501-200512", env={"KIT_HOOK": s.root + "/hook.py"}) for x in ("55555", "66666")]
    outs = [p.communicate()[0][-400:] for p in ps]
    check([p.returncode for p in ps] == [0, 0], repr(outs))
""")
