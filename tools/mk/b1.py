from mk import *
mk('b01-single-report-drifter','P01',[('marine_qc_track_only.py',"                if len(one_ship) > 0:","                if len(one_ship) > 1:")],
 "track_only with tracking and a drifter with exactly one report in the month",
 "a drifter with a single report in the month has no per-ID files and is left out of the ID list", '''
with Site() as s:
    s.archive(2005, 3, [drifter(2005, 3, d, 6, 10.12, 20.12 + d * .1, "55555") for d in range(1, 6)]
              + [drifter(2005, 3, 9, 6, -30.12, 20.12, "66666")])
    st, out = s.month("marine_qc_track_only", 2005, 3)
    check(st == 0, out[-500:])
    ids = [l.split(",")[0].strip() for l in s.text("out/2005/03/ID_file.txt").splitlines()]
    check(sorted(ids) == ["55555", "66666"], "ID list is %r" % ids)
    check(len(s.read("out/2005/03/Variables_200503_66666    _base.csv")) == 1, "rows of 66666")
''')
mk('b02-stale-record','P02',[('marine_qc.py',"                    reps.append(rep)\n                    count += 1\n\n                rec = IMMA()\n","                    reps.append(rep)\n                    count += 1\n\n                    rec = IMMA()\n")],
 "a record that is left out (excluded platform, other month, unreadable) directly before a record that lacks an attachment",
 "the record object is not renewed after a record that is left out, so a cut-short record takes the unique ID of the one before it", '''
with Site() as s:
    s.exclude("BADSHIP")
    good = [rep(2005, 3, d, 6, 10.12, 20.12 + d, "GOOD1") for d in range(1, 4)]
    bad = rep(2005, 3, 2, 7, 10.12, 25.12, "BADSHIP")
    cut = line(rep(2005, 3, 2, 8, 10.12, 26.12, "CUTSHORT"))[:108]
    s.archive(2005, 3, [good[0], bad, {"raw": cut}, good[1], good[2]])
    st, out = s.month("marine_qc", 2005, 3)
    check(st == 0, out[-500:])
    rows = [r["UID"].strip() for r in s.read("out/2005/03/Variables_200503_base.csv")]
    check(rows == [g["UID"] for g in good], "rows %r" % rows)
''')
mk('b03-skip-existing','P03',[('Extended_IMMA.py',"        outfilename = 'Variables_' + syr + smn + '_' + safeid + '_' + runid + '.csv'\n        outfile = open(icoads_dir + '/' + outfilename, 'w')\n",
 "        outfilename = 'Variables_' + syr + smn + '_' + safeid + '_' + runid + '.csv'\n        if os.path.isfile(icoads_dir + '/' + outfilename):\n            print('already written out', outfilename)\n            return\n        outfile = open(icoads_dir + '/' + outfilename, 'w')\n"),
 ('Extended_IMMA.py',"import qc\nimport math\n","import os\nimport qc\nimport math\n")],
 "a run that dies after opening a drifter's per-month Variables file and before finishing it, then the same run again",
 "per-ID files that exist are not written again, so a file left incomplete by a death stays incomplete", '''
HOOK = """
import builtins
_open = builtins.open
class W:
    def __init__(self, f): self.f = f; self.n = 0
    def write(self, x):
        self.n += 1
        if self.n > 3:
            self.f.flush(); os._exit(9)
        return self.f.write(x)
    def close(self): self.f.close()
def opener(name, *a, **k):
    f = _open(name, *a, **k)
    if 'Variables_200503_55555' in str(name): return W(f)
    return f
builtins.open = opener
"""
with Site() as s:
    s.archive(2005, 3, [drifter(2005, 3, d, 6, 10.12, 20.12 + d * .1, "55555") for d in range(1, 9)])
    hook = s.root + "/hook.py"
    with open(hook, "w") as f:
        f.write(HOOK)
    st, out = s.month("marine_qc", 2005, 3, env={"KIT_HOOK": hook})
    check(st == 9, "was to die: %d %s" % (st, out[-300:]))
    st, out = s.month("marine_qc", 2005, 3)
    check(st == 0, out[-500:])
    for f in ("Variables", "POS_qc", "SST_qc"):
        n = len(s.read("out/2005/03/%s_200503_55555    _base.csv" % f))
        check(n == 8, "%s has %d rows" % (f, n))
''')
mk('b04-unreadable-field','P04',[('Climatology.py',"        if infile is not None:\n","        if infile is not None and os.path.isfile(infile) and os.access(infile, os.R_OK):\n")] if False else
 [('BackgroundField.py',"    idfile = open(bad_id_file, 'r')\n    ids_to_exclude = []\n","    ids_to_exclude = []\n    try:\n        idfile = open(bad_id_file, 'r')\n    except IOError:\n        print('no list of bad IDs, nothing excluded')\n        return ids_to_exclude\n")],
 "the list of excluded platforms cannot be opened (file handles used up, permission, I/O error)",
 "when the list of excluded IDs cannot be opened the run goes on and reports success with the excluded platforms in its outputs", '''
HOOK = """
import builtins
_open = builtins.open
def opener(name, *a, **k):
    if str(name).endswith('/bad.txt'):
        raise IOError(24, 'Too many open files', name)
    return _open(name, *a, **k)
builtins.open = opener
"""
with Site() as s:
    s.exclude("BADSHIP")
    s.archive(2005, 3, [rep(2005, 3, d, 6, 10.12, 20.12 + d, "GOOD1") for d in range(1, 4)]
              + [rep(2005, 3, 4, 6, 10.12, 20.12, "BADSHIP")])
    hook = s.root + "/hook.py"
    with open(hook, "w") as f:
        f.write(HOOK)
    st, out = s.month("marine_qc", 2005, 3, env={"KIT_HOOK": hook})
    if st == 0:
        ids = {r["ID"].strip() for r in s.read("out/2005/03/Variables_200503_base.csv")}
        check("BADSHIP" not in ids, "success with an excluded platform in the outputs")
''')
mk('b05-last-archive','P05',[('BackgroundField.py',"        if outfilename is None:\n            if os.path.isfile(fname):\n                outfilename = fname\n","        if os.path.isfile(fname):\n            outfilename = fname\n")],
 "a month that is in both archives","the second archive is used for a month that the first one has", '''
with Site() as s:
    a = [rep(2005, 3, d, 6, 10.12, 20.12 + d, "FIRST") for d in range(1, 4)]
    b = [rep(2005, 3, d, 6, 10.12, 20.12 + d, "SECOND") for d in range(1, 6)]
    s.archive(2005, 3, a, "A")
    s.archive(2005, 3, b, "B")
    st, out = s.month("marine_qc", 2005, 3)
    check(st == 0, out[-500:])
    ids = {r["ID"].strip() for r in s.read("out/2005/03/Variables_200503_base.csv")}
    check(ids == {"FIRST"}, "IDs %r" % ids)
''')
mk('b06-keep-field','P06',[('marine_qc.py',"""                            climlib.add_field('OSTIA', 'background',
                                              clim.Climatology.from_filename(ofname, 'analysed_sst'))
                            climlib.add_field('OSTIA', 'ice',
""","""                            ostia_bg = clim.Climatology.from_filename(ofname, 'analysed_sst')
                            if ofname is not None or count == 0:
                                climlib.add_field('OSTIA', 'background', ostia_bg)
                            climlib.add_field('OSTIA', 'ice',
""")],
 "tracking, a day without a background file after a day that has one","reports of a day without background get the field of an earlier day instead of a missing value", '''
with Site() as s:
    s.archive(2005, 3, [drifter(2005, 3, d, 6, 10.12, 20.12 + d * .1, "55555") for d in range(3, 7)])
    s.background(2005, 3, 2, 14)
    s.background(2005, 3, 3, 15)
    s.background(2005, 3, 5, 16)
    st, out = s.month("marine_qc", 2005, 3)
    check(st == 0, out[-500:])
    got = [r["OSTIA"] for r in s.read("out/2005/03/Variables_200503_55555    _base.csv")]
    check(got[2] == "\\\\N" and [round(float(x)) for x in got[:2] + got[3:]] == [14, 15, 16], "backgrounds %r" % got)
''')
mk('b07-scratch-name','P07',[('BackgroundField.py',"        newfilenames.append(make_filename(scratch, filenamestub, year, month, day))","        newfilenames.append(make_filename(scratch, filenamestubs[0], year, month, day))")],
 "a bzipped background that is only in the second directory, then the first directory gets one for that day",
 "decompressed files of the second background directory are kept under the name of the first one's file, and are later taken for it", '''
with Site() as s:
    s.archive(2005, 3, [drifter(2005, 3, 3, 6, 10.12, 20.12, "55555")])
    s.background(2005, 3, 2, 14, which="nrt", packed=True)
    st, out = s.month("marine_qc", 2005, 3)
    check(st == 0, out[-500:])
    s.background(2005, 3, 2, 17, which="rean", packed=True)
    st, out = s.month("marine_qc", 2005, 3)
    check(st == 0, out[-500:])
    got = [r["OSTIA"] for r in s.read("out/2005/03/Variables_200503_55555    _base.csv")]
    check(round(float(got[0])) == 17, "background %r" % got)
''')
mk('b08-clim-memo','P08',[('Climatology.py',"        yindex = qc.mds_lat_to_yindex(lat)\n        xindex = qc.mds_lon_to_xindex(lon)\n        tindex = self.get_tindex(month, day)\n","        yindex = qc.mds_lat_to_yindex(lat)\n        xindex = qc.mds_lon_to_xindex(lon)\n        # the time index is the same for one report after the other of the same day\n        if getattr(self, 'lastday', None) != day:\n            self.lastday = day\n            self.lasttindex = self.get_tindex(month, day)\n        tindex = self.lasttindex\n")],
 "consecutive reports read from the archive with the same day of the month in different months (end of a month's file, start of the next)",
 "the climatology's time index is kept while the day number is the same, so the first reports of a month file whose day number is that of the last report read before get the pentad of the previous month: anomalies depend on the order of the reports and on what was read before", '''
with Site() as s:
    path = s.nc("SST_mean", PEN, {"v": {"base": 10, "bytime": 0.1}})
    a = [rep(2005, 2, d, 6, 10.12, 20.12 + d, "GOOD1") for d in range(1, 6)]
    b = [rep(2005, 3, d, 6, 10.12, 25.12 + d, "GOOD1") for d in range(5, 8)]
    c = [rep(2005, 3, d, 9, -20.12, 25.12 + d, "OTHER") for d in range(9, 12)]
    res = []
    for march in (b + c, c + b):
        s.archive(2005, 2, a)
        s.archive(2005, 3, march)
        st, out = s.month("marine_qc", 2005, 3, tracking=False)
        check(st == 0, out[-500:])
        with open(s.root + "/out/2005/03/Variables_200503_base.csv") as f:
            res.append(sorted(f.read().splitlines()))
    check(res[0] == res[1], "values depend on the order of the platforms")
''')
mk('b10-mkdir-race','P10',[('BackgroundField.py',"""        try:
            os.mkdir(adir)
            print("Directory {} created ".format(adir))
        except OSError:
            print("Directory {} already exists".format(adir))
""","""        if not os.path.isdir(adir):
            os.mkdir(adir)
            print("Directory {} created ".format(adir))
        else:
            print("Directory {} already exists".format(adir))
""")],"two programs that make the same year folder at the same moment","a program stops when another makes its output folder between its look and its mkdir", '''
HOOK = """
_mkdir = os.mkdir
def mkdir(p, *a, **k):
    if '/out/' in str(p) and not os.path.isdir(p):
        _mkdir(p)          # another process gets in just before
    return _mkdir(p, *a, **k)
os.mkdir = mkdir
"""
with Site() as s:
    s.archive(2005, 3, [rep(2005, 3, d, 6, 10.12, 20.12 + d, "GOOD1") for d in range(1, 4)])
    hook = s.root + "/hook.py"
    with open(hook, "w") as f:
        f.write(HOOK)
    st, out = s.month("marine_qc", 2005, 3, env={"KIT_HOOK": hook})
    check(st == 0, out[-500:])
    check(len(s.read("out/2005/03/Variables_200503_base.csv")) == 3, "rows")
''')
