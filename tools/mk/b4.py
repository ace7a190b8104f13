from mk import *
src=open('b2.py').read()
WRAP=src.split("WRAP='''",1)[1].split("'''",1)[0].replace('\\\\','\\')
TRK=src.split("TRK='''",1)[1].split("'''",1)[0].replace('\\\\','\\')

mk('b30-too-many-bad-lines','P02',[('marine_qc.py',"""                if not readob:
                    print("Rejected ob {}".format(line))
""","""                if not readob:
                    print("Rejected ob {}".format(line))
                    nbad += 1
                    if nbad > 20:
                        print("too many bad records in {}".format(filename))
                        break
"""),('marine_qc.py',"            rec = IMMA()\n\n            for line in icoads_file:\n","            rec = IMMA()\n            nbad = 0\n\n            for line in icoads_file:\n")],
 "a month with more than twenty records that cannot be read, and good ones after them","the rest of the month is not read","""
with Site() as s:
    good = [rep(2005, 3, d, 6, 10.12, 20.12 + d, "GOOD1") for d in range(1, 9)]
    bad = [{"raw": line(rep(2005, 3, 2, 8, 10.12, 26.12, "CUT%d" % i))[:108]} for i in range(30)]
    s.archive(2005, 3, good[:4] + bad + good[4:])
    st, out = s.month("marine_qc", 2005, 3)
    check(st == 0, out[-500:])
    rows = [r["UID"].strip() for r in s.read("out/2005/03/Variables_200503_base.csv")]
    check(rows == [g["UID"] for g in good], "rows %r" % rows)
""")
mk('b31-append-part','P03',[('Extended_IMMA.py',"""            outfile = open(icoads_dir + '/' + outfilename, 'w')

            outfile.write(self.reps[0].print_qc_block(var, allvarnames[var], header=True))
            for rep in self.reps:
                if rep.getvar('YR') == year and rep.getvar('MO') == month:
                    outfile.write(rep.print_qc_block(var, allvarnames[var], header=False))
                    count_write += 1

            outfile.close()
""","""            # nobody is to see the file before it is complete
            part = icoads_dir + '/.' + outfilename
            outfile = open(part, 'a')

            outfile.write(self.reps[0].print_qc_block(var, allvarnames[var], header=True))
            for rep in self.reps:
                if rep.getvar('YR') == year and rep.getvar('MO') == month:
                    outfile.write(rep.print_qc_block(var, allvarnames[var], header=False))
                    count_write += 1

            outfile.close()
            os.rename(part, icoads_dir + '/' + outfilename)
"""),('Extended_IMMA.py',"import qc\nimport math\n","import os\nimport qc\nimport math\n")],
 "a run that dies while it writes one of the flag files of a month, and the same run again","what the dead run had written stands at the start of the file","""
HOOK = '''
import builtins
_open = builtins.open
class W:
    def __init__(self, f): self.f = f; self.n = 0
    def write(self, x):
        self.n += 1
        if self.n > 3:
            self.f.flush(); os._exit(9)
        return self.f.write(x)
    def close(self): self.f.close()
def opener(name, *a, **k):
    f = _open(name, *a, **k)
    if 'AT_qc_200503_base' in str(name): return W(f)
    return f
builtins.open = opener
'''
with Site() as s:
    s.archive(2005, 3, [rep(2005, 3, d, 6, 10.12, 20.12 + d * .1, "SHIP1") for d in range(1, 9)])
    st, out = s.month("marine_qc", 2005, 3, tracking=False)
    check(st == 0, out[-500:])
    want = s.tree("out")
    shutil.rmtree(s.root + "/out")
    os.mkdir(s.root + "/out")
    with open(s.root + "/hook.py", "w") as f:
        f.write(HOOK)
    st, out = s.month("marine_qc", 2005, 3, tracking=False, env={"KIT_HOOK": s.root + "/hook.py"})
    check(st == 9, "was to die: %d %s" % (st, out[-300:]))
    st, out = s.month("marine_qc", 2005, 3, tracking=False)
    check(st == 0, out[-500:])
    check(s.tree("out") == want, "not what an undisturbed run gives")
""")
mk('b32-no-climatology-then','P04',[('Climatology.py',"        if infile is not None:\n            climatology = Dataset(infile)\n            field = climatology.variables[var][:]\n","        climatology = None\n        if infile is not None:\n            try:\n                climatology = Dataset(infile)\n            except (IOError, RuntimeError) as error:\n                # goes on as with a field that is missing everywhere\n                print('cannot read {}: {}'.format(infile, error))\n\n        if climatology is not None:\n            field = climatology.variables[var][:]\n")],
 "a climatology, deviation or background file that cannot be opened or is damaged","the run goes on without the field and reports success","""
with Site() as s:
    s.archive(2005, 3, [rep(2005, 3, d, 6, 10.12, 20.12 + d, "GOOD1") for d in range(1, 4)])
    path = s.root + "/clim/DPT_mean.nc"
    with open(path) as f:
        text = f.read()
    with open(path, "w") as f:
        f.write(text[:-20])
    st, out = s.month("marine_qc", 2005, 3, tracking=False)
    check(st != 0, "success with a damaged climatology")
""")
mk('b33-day-memo','P08',[('Extended_IMMA.py',"""            self.set_qc('POS', 'day', qc.day_test(self.getvar('YR'),
                                                  self.getvar('MO'),
                                                  self.getvar('DY'),
                                                  self.getvar('HR'),
                                                  self.lat(),
                                                  self.lon(),
                                                  time_since_sun_above_horizon))
""","""            # reports of one hour and place have the same answer
            key = (self.getvar('YR'), self.getvar('MO'), self.getvar('DY'), int(self.getvar('HR')),
                   round(self.lat()), round(self.lon()), time_since_sun_above_horizon)
            if key not in DAYTESTS:
                DAYTESTS[key] = qc.day_test(self.getvar('YR'), self.getvar('MO'), self.getvar('DY'), self.getvar('HR'),
                                            self.lat(), self.lon(), time_since_sun_above_horizon)
            self.set_qc('POS', 'day', DAYTESTS[key])
"""),('Extended_IMMA.py',"\ndef safe_filename(infilename):","DAYTESTS = {}\n\n\ndef safe_filename(infilename):")],
 "two platforms near each other about sunrise or sunset, reporting in the same hour","the day flag of one is that of the other, whichever comes first in the archive","""
with Site() as s:
    a = [rep(2005, 3, 2, float(h), 10.12, 20.12, "SHIPA") for h in range(24)]
    b = [rep(2005, 3, 2, h + 0.98, 10.32, 20.32, "SHIPB") for h in range(24)]
    got = []
    for recs in (a + b, b + a):
        s.archive(2005, 3, recs)
        st, out = s.month("marine_qc", 2005, 3, tracking=False)
        check(st == 0, out[-500:])
        got.append(sorted(s.text("out/2005/03/POS_qc_200503_base.csv").splitlines()))
    check(got[0] == got[1], "flags depend on the order of the platforms")
""")
mk('b34-tidy-own','P10',[('marine_qc_track_only.py',"""                            climlib.add_field('OSTIA', 'ice',
                                              clim.Climatology.from_filename(ofname, 'sea_ice_fraction'))
""","""                            climlib.add_field('OSTIA', 'ice',
                                              clim.Climatology.from_filename(ofname, 'sea_ice_fraction'))

                            # the scratch folder is small
                            if ofname is not None and os.path.dirname(ofname) == os.environ['SCRATCH']:
                                try:
                                    os.remove(ofname)
                                except OSError:
                                    pass
"""),('marine_qc_track_only.py','import gzip\n','import gzip\nimport os\n')],
 "two runs that use the same bzipped background field at the same time","one removes the decompressed field between the moments when the other finds it and reads it","""
HOOK = '''
import subprocess
import netCDF4
_D = netCDF4.Dataset
class D(_D):
    def __init__(self, path, *a, **k):
        if '/scratch/' in path and not os.path.exists(os.environ['KIT_ROOT'] + '/etc/once'):
            with open(os.environ['KIT_ROOT'] + '/etc/once', 'w'): pass
            env = dict(os.environ); env.pop('KIT_HOOK')
            subprocess.call(os.environ['OTHER'], shell=True, env=env)
        _D.__init__(self, path, *a, **k)
netCDF4.Dataset = D
'''
import shlex
with Site() as s:
    s.archive(2005, 3, [drifter(2005, 3, 1, 6, 30.52, -40.48, "55555")])
    s.archive(2005, 4, [drifter(2005, 4, 2, 6, 30.52, -40.48, "55555")])
    s.background(2005, 2, 28, 14.0, packed=True)
    with open(s.root + "/hook.py", "w") as f:
        f.write(HOOK)
    with open(s.root + "/etc/runner.py", "w") as f:
        f.write(RUNNER)
    other = " ".join(shlex.quote(str(x)) for x in ["/opt/venv/bin/python", s.root + "/etc/runner.py", REPO, "marine_qc_track_only",
                     "-config", s.conf, "-year1", 2005, "-month1", 4, "-year2", 2005, "-month2", 4, "-tracking"])
    st, out = s.month("marine_qc", 2005, 3, env={"KIT_HOOK": s.root + "/hook.py", "OTHER": other})
    check(st == 0, out[-500:])
""")
mk('b35-killed-sbatch','P13',[('Tracking_QC_wrapper.py',"    if status != 0:\n        raise","    if os.WEXITSTATUS(status) != 0:\n        raise")],
 "sbatch, or the shell that runs it, is killed by a signal","a job that was not accepted counts as submitted",WRAP+'''
with Site() as s:
    idlists(s, 2005, {m: ["55555", "66666"] if m == 6 else [] for m in range(1, 13)})
    s.tool("sbatch", "case $1 in *55555*) kill -9 $PPID;; esac; exit 0")
    st, out = wrap(s, 2005, 1, 12, "all")
    check(st != 0, "success although sbatch was killed")
''')
mk('b36-noend-new','P14',[('Tracking_QC_wrapper.py',"                if 'end_edge_case' not in cl:","                if 'end_edge_case' not in cl and not ('new' in cl and 'start_edge_case' in cl):")],
 "a drifter whose chunk starts near the start of the series and ends exactly the critical gap before the end of the history","the chunk is left out of the history, and no later run takes it",WRAP+'''
with Site() as s:
    idlists(s, 2005, {m: ["55555"] if m in (2, 3) else [] for m in range(1, 13)})
    for mode, last in (("noend", 6), ("new", 7), ("new", 8)):
        st, out = wrap(s, 2005, 1, last, mode)
        check(st == 0, out[-500:])
    check(jobs(s) == [(2005, 2, 2005, 3)], "jobs %r" % jobs(s))
''')
mk('b37-blank-flag','P15',[('tracking_qc.py',"                            rep_list[indx].set_qc('SST', key, int(line[key]))","                            rep_list[indx].set_qc('SST', key, int(line[key] or 9))")],
 "a row of the SST flags with fewer or blank columns","a flag that is not there is taken as missing instead of refusing the file",TRK+'''
with Site() as s:
    three(s)
    v, p, q = paths(s)
    with open(q) as f:
        lines = f.readlines()
    with open(q, "w") as f:
        f.writelines(lines[:3] + [lines[3].rsplit(",", 4)[0] + "\\n"] + lines[4:])
    st, out = track(s)
    check(st != 0 and not s.tree("track"), "the file was taken")
    with open(q, "w") as f:
        f.writelines(lines)
    st, out = track(s)
    check(st == 0, out[-500:])
''')
mk('b38-ice-of-last','P16',[('trackqc.py',"""        if ice_val is None:
            ice_val = 0.0
        assert ice_val is not None and 0.0 <= ice_val <= 1.0, 'matched ice proportion is invalid'

        try:
            daytime = track_day_test(rep.getvar('YR'), rep.getvar('MO'), rep.getvar('DY'),
                                     rep.getvar('HR'), rep.getvar('LAT'), rep.getvar('LON'), -2.5)
        except AssertionError as error:
            raise AssertionError('problem with report value: ' + str(error))
        if ind > 0:
            try:
                time_diff = rep.getext('time_diff')  # raises assertion error if 'time_diff' not found
                assert time_diff >= 0, 'times are not sorted'
            except AssertionError as error:
                raise AssertionError('problem with report value: ' + str(error))

        land_match = True if bg_val is None else False
        ice_match = True if ice_val > 0.15 else False
        bgvar_mask""","""        if ice_val is None:
            ice_val = last_ice if ind > 0 else 0.0
        last_ice = ice_val
        assert ice_val is not None and 0.0 <= ice_val <= 1.0, 'matched ice proportion is invalid'

        try:
            daytime = track_day_test(rep.getvar('YR'), rep.getvar('MO'), rep.getvar('DY'),
                                     rep.getvar('HR'), rep.getvar('LAT'), rep.getvar('LON'), -2.5)
        except AssertionError as error:
            raise AssertionError('problem with report value: ' + str(error))
        if ind > 0:
            try:
                time_diff = rep.getext('time_diff')  # raises assertion error if 'time_diff' not found
                assert time_diff >= 0, 'times are not sorted'
            except AssertionError as error:
                raise AssertionError('problem with report value: ' + str(error))

        land_match = True if bg_val is None else False
        ice_match = True if ice_val > 0.15 else False
        bgvar_mask""")],
 "a report with a background but a missing ice fraction after one in ice","the ice of an ineligible report decides whether the next takes part in the bias check",TRK+'''
P = dict(buoy_bias_noise_check={"n_eval": 4, "bias_lim": 1.1, "drif_intra": 1., "drif_inter": 0.29, "err_std_n": 3., "n_bad": 2,
                                "background_err_lim": 0.3})
with Site(**P) as s:
    three(s, n=8, hist=lambda i: {"SST": 175})
    v, p, q = paths(s)
    with open(v) as f:
        lines = f.readlines()
    c = lines[0].rstrip("\\n").split(",").index("ICE")
    def ice(l, x):
        l = l.rstrip("\\n").split(",")
        l[c] = x
        return ",".join(l) + "\\n"
    with open(v, "w") as f:
        f.writelines([lines[0], ice(lines[1], "0.9")] + [ice(l, "\\\\N") for l in lines[2:]])
    st, out = track(s)
    check(st == 0, out[-500:])
    t = s.read([r for r in s.tree("track") if "Tracking_2005" in r][0])
    check(all(r["drf_bias"] == "1" for r in t), "bias flags %r" % [r["drf_bias"] for r in t])
''')
mk('b39-old-outputs','P17',[('Extended_IMMA.py',"        outfilename = 'Tracking_' + syr + smn + '_' + safeid + '_' + runid + '.csv'\n","        # earlier outputs for this drifter, of whatever run, are out of date now\n        for old in os.listdir(icoads_dir):\n            if old.startswith('Tracking_' + syr + smn + '_' + safeid.strip()) and old.endswith('.csv'):\n                os.remove(icoads_dir + '/' + old)\n\n        outfilename = 'Tracking_' + syr + smn + '_' + safeid + '_' + runid + '.csv'\n"),
  ('Extended_IMMA.py',"import qc\nimport math\n","import os\nimport qc\nimport math\n")],
 "two drifters whose chunks end in the same month, the ID of one being the start of the other's","the output of the drifter with the longer ID is removed",TRK+'''
with Site() as s:
    recs = []
    for i in range(8):
        recs.append(drifter(2005, 3, 1 + i // 4, 6 * (i % 4), 10.12 + i * .05, 20.12, "55555"))
        recs.append(drifter(2005, 3, 1 + i // 4, 6 * (i % 4), -10.12 + i * .05, 40.12, "5555512"))
    s.archive(2005, 3, recs)
    st, out = s.month("marine_qc", 2005, 3)
    check(st == 0, out[-500:])
    for i in ("5555512", "55555"):
        st, out = track(s, i)
        check(st == 0, out[-500:])
    check(len(s.tree("track")) == 2, "outputs %r" % list(s.tree("track")))
''')
mk('b40-case-names','P18',[('Extended_IMMA.py',"    safename = infilename.replace('/', '_')\n    safename = safename.replace('*', '_')\n","    safename = infilename.replace('/', '_')\n    safename = safename.replace('*', '_')\n    # some file systems don't tell cases apart\n    safename = safename.upper()\n")],
 "two drifters whose IDs differ in nothing but case","the files of one are written over those of the other",'''
with Site() as s:
    recs = []
    for i in range(4):
        recs.append(drifter(2005, 3, 1 + i, 6, 10.12 + i * .05, 20.12, "D55a"))
        recs.append(drifter(2005, 3, 1 + i, 6, -10.12 + i * .05, 40.12, "D55A"))
    s.archive(2005, 3, recs)
    st, out = s.month("marine_qc", 2005, 3)
    check(st == 0, out[-500:])
    n = sum(len(s.read(k)) for k in s.tree("out") if "/Variables_200503_" in k and not k.endswith("03_base.csv"))
    check(n == 8, "%d rows in the files of drifters" % n)
''')
mk('b41-edge-of-world','P19',[('qc.py',"\ndef lon_to_xindex(lon, res=1):","\ndef lon_to_xindex(lon, res=1):")] if False else
 [('Climatology.py',"            if longitudes[0] > 0.0 and longitudes[0] < 1.0:","            if longitudes[0] > 0.0 and longitudes[0] < 0.5:")],
 "a climatology of one degree cells with columns from Greenwich, whose first longitude is 0.5","values are taken from the other side of the globe",'''
HOOK = """
import netCDF4
_D = netCDF4.Dataset
class D(_D):
    def __init__(self, path, *a, **k):
        _D.__init__(self, path, *a, **k)
        if 'DPT_mean' in path:
            self.variables['lon'] = self.variables['lon'] + 180
netCDF4.Dataset = D
"""
with Site() as s:
    s.nc("DPT_mean", [1, 180, 360], {"v": {"base": 0.0, "bylon": 0.1}})
    s.archive(2005, 3, [rep(2005, 3, 2, 6, 30.52, 10.48, "SHIP1", DPT=80)])
    with open(s.root + "/hook.py", "w") as f:
        f.write(HOOK)
    st, out = s.month("marine_qc", 2005, 3, tracking=False, env={"KIT_HOOK": s.root + "/hook.py"})
    check(st == 0, out[-500:])
    r = s.text("out/2005/03/Variables_200503_base.csv").splitlines()[1].split(",")
    check(abs(float(r[15]) - 7.0) < 1e-6, "anomaly %s" % r[15])
''')
mk('b43-year-wrap','P28',[('Extended_IMMA.py',"""                    thispp = (pindex + ppt) % 73
""","""                    thispp = min(pindex + ppt, 72)
""")],
 "reports in the last days of December with neighbours in the first days of January only","neighbours in the new year are not found",'''
with Site() as s:
    near = [rep(2006, 1, 2, 12, 31.12 + i / 25., -40.13 - i / 25., "SHIP%d" % i, SST=150) for i in range(9)]
    odd = rep(2005, 12, 30, 12, 30.52, -40.52, "ODD", SST=215)
    s.archive(2005, 12, [odd])
    s.archive(2006, 1, near)
    st, out = s.month("marine_qc", 2005, 12, tracking=False)
    check(st == 0, out[-500:])
    rows = [l.split(",") for l in s.text("out/2005/12/SST_qc_200512_base.csv").splitlines()]
    check(rows[1][rows[0].index("bud")] == "1", "buddy flag %r" % rows)
''')
mk('b44-last-run-only','P26',[('Extended_IMMA.py',"""                if tdiff >= min_time_threshold:
                    for loc in satcount:
                        self.reps[loc].set_qc('DPT', 'repsat', 1)
                    satcount = []
                else:
                    satcount = []

            else:

                satcount = []
""","""                if tdiff >= min_time_threshold:
                    for loc in satcount:
                        self.reps[loc].set_qc('DPT', 'repsat', 1)
                    satcount = []

            else:

                satcount = []
""")],
 "a run of saturated reports that is long in number but short in time, and another one directly after a single unsaturated report","two short runs are taken together as one long one",'''
with Site() as s:
    r = [rep(2005, 3, 2 + h // 24, h % 24, 30.52 + h / 50., -40.48, "SHIP1", AT=140, DPT=140) for h in range(0, 72, 6)]
    r[6]["DPT"] = 120
    s.archive(2005, 3, r)
    st, out = s.month("marine_qc", 2005, 3, tracking=False)
    check(st == 0, out[-500:])
    rows = [l.split(",") for l in s.text("out/2005/03/DPT_qc_200503_base.csv").splitlines()]
    f = [x[rows[0].index("repsat")] for x in rows[1:]]
    check(f == ["0"] * 12, "flags %r" % f)
''')
mk('b45-clean-jobs','P24',[('Tracking_QC_wrapper.py',"    safemake(outdir + '/TrackingQC')\n    safemake(logdir)\n    safemake(jobdir)\n","    safemake(outdir + '/TrackingQC')\n    safemake(logdir)\n    safemake(jobdir)\n\n    # the log of an earlier job for the same drifter and months is of no use any more\n    for old in glob.glob('{}/*{}{:02}*{}*'.format(outdir + '/TrackingQC/*', yr2, mn2, safeid)):\n        if not old.startswith(jobdir):\n            os.remove(old)\n"),
  ('Tracking_QC_wrapper.py',"import os\n","import glob\nimport os\n")],
 "an ID that holds something like [0-9] or that is the end of a folder or file name, or a file in another folder of TrackingQC that fits","files that are not the wrapper's own are removed",WRAP+'''
with Site() as s:
    idlists(s, 2005, {m: ["?????"] if m == 6 else [] for m in range(1, 13)})
    os.makedirs(s.root + "/track/TrackingQC/2005")
    keep = s.root + "/track/TrackingQC/2005/notes-200506-12345"
    with open(keep, "w") as f:
        f.write("x")
    st, out = wrap(s, 2005, 1, 12, "all")
    check(st == 0, out[-500:])
    check(os.path.exists(keep), "removed")
''')
mk('b46-sort-by-place','P25',[('marine_qc.py',"                idfile.write(thisid + ',' + ex.safe_filename(thisid) + '\\n')","                idfile.write(thisid + ',' + ex.safe_filename(thisid) + '\\n')")] if False else
 [('BackgroundField.py',"    outfilename = None\n    for fname in candidatefilenames:\n        if outfilename is None:\n            if os.path.isfile(fname):\n                outfilename = fname\n","    outfilename = None\n    for fname in set(candidatefilenames):\n        if outfilename is None:\n            if os.path.isfile(fname):\n                outfilename = fname\n")],
 "a month that both archives have, and a hash seed that turns the two names round","which archive is used depends on the hash seed",'''
with Site() as s:
    a = [rep(2005, 3, d, 6, 10.12, 20.12 + d, "FIRST") for d in range(1, 4)]
    b = [rep(2005, 3, d, 6, 10.12, 20.12 + d, "SECOND") for d in range(1, 6)]
    s.archive(2005, 3, a, "A")
    s.archive(2005, 3, b, "B")
    seen = set()
    for seed in range(6):
        st, out = s.month("marine_qc", 2005, 3, tracking=False, env={"PYTHONHASHSEED": str(seed)})
        check(st == 0, out[-500:])
        seen.add(s.text("out/2005/03/Variables_200503_base.csv"))
    check(len(seen) == 1, "outputs depend on the hash seed")
''')
mk('b47-first-month-wide','P09',[('marine_qc.py',"        last_year, last_month = qc.last_month_was(year, month)\n        next_year, next_month = qc.next_month_is(year, month)\n","        last_year, last_month = qc.last_month_was(year, month)\n        next_year, next_month = qc.next_month_is(year, month)\n        if (year, month) == (year2, month2):\n            next_year, next_month = year, month\n")],
 "a drifter or ship whose flags in a month depend on its reports of the next month, and a period that ends with the month","the last month of a run is checked without the month after it, so the outputs depend on where the period ends",'''
with Site() as s:
    ship = lambda y, m, d, h, la, **k: rep(y, m, d, h, la, -40.48, "SHIP1", **k)
    s.archive(2005, 3, [ship(2005, 3, d, 12, 30.52, SST=150 if d % 4 else 151) for d in range(15, 32)])
    s.archive(2005, 4, [ship(2005, 4, d, 12, 30.52, SST=150) for d in range(1, 29)])
    st, out = s.month("marine_qc", 2005, 3, tracking=False)
    check(st == 0, out[-500:])
    alone = {k: v for k, v in s.tree("out").items() if "/03/" in k}
    st, out = s.month("marine_qc", 2005, 3, 2005, 4, tracking=False)
    check(st == 0, out[-500:])
    check({k: v for k, v in s.tree("out").items() if "/03/" in k} == alone, "depends on the period")
''')
mk('b48-ice-of-other','P06',[('marine_qc.py',"                            climlib.add_field('OSTIA', 'ice',\n                                              clim.Climatology.from_filename(ofname, 'sea_ice_fraction'))\n","                            # there is ice in the field of the year's first day or there is none\n                            if ofname is not None or climlib.get_field('OSTIA', 'ice') is None:\n                                climlib.add_field('OSTIA', 'ice',\n                                                  clim.Climatology.from_filename(ofname, 'sea_ice_fraction'))\n")] if False else
 [('marine_qc_track_only.py',"                    if tracking and readyear >= 1985 and rep.getvar('DY') is not None:\n                        if rep.getvar('DY') != lastday:","                    if tracking and readyear >= 1985 and rep.getvar('DY') is not None:\n                        if rep.getvar('DY') > lastday:")],
 "reports of a month that do not stand in the order of their days","a report of an earlier day gets the background of a later one",'''
with Site() as s:
    s.archive(2005, 3, [drifter(2005, 3, d, 6, 10.12, 20.12, i) for i, d in (("55555", 3), ("55555", 5), ("66666", 3), ("66666", 5))])
    s.background(2005, 3, 2, 14)
    s.background(2005, 3, 4, 16)
    st, out = s.month("marine_qc_track_only", 2005, 3)
    check(st == 0, out[-500:])
    got = [round(float(r["OSTIA"])) for r in s.read("out/2005/03/Variables_200503_66666    _base.csv")]
    check(got == [14, 16], "backgrounds %r" % got)
''')
mk('b49-look-then-wait','P12',[('Tracking_QC_wrapper.py',"    count = checkload('hadjj')\n    while count > 250:\n        print(\"Reached max jobs (250), waiting 20 seconds\")\n        time.sleep(20)\n        count = checkload('hadjj')\n","    count = checkload('hadjj')\n    waits = 0\n    while count > 250:\n        print(\"Reached max jobs (250), waiting\")\n        # the longer the queue has been full, the less often it is worth looking\n        time.sleep(20 + 5 * waits)\n        waits += 1\n        count = checkload('hadjj')\n")],
 "a queue that stays full for a few looks","the wrapper goes on later than 30 seconds after the queue has come down",WRAP+'''
HOOK = """
import time
NOW = [0.0]
def sleep(n):
    NOW[0] += n
    with open(os.environ['KIT_ROOT'] + '/etc/now', 'w') as f:
        f.write('%d' % NOW[0])
time.sleep = sleep
"""
with Site() as s:
    idlists(s, 2005, {m: ["55555", "66666"] if m == 6 else [] for m in range(1, 13)})
    # the queue comes down after 301 seconds
    s.tool("squeue", 'n=$(cat $KIT_ROOT/etc/now 2>/dev/null || echo 0); if [ $n -lt 301 ]; then for i in $(seq 300); do echo "$i rpn T hadjj R"; done; fi')
    s.tool("sbatch", 'cat $KIT_ROOT/etc/now >> $KIT_ROOT/etc/sub 2>/dev/null; echo >> $KIT_ROOT/etc/sub')
    with open(s.root + "/hook.py", "w") as f:
        f.write(HOOK)
    st, out = wrap(s, 2005, 1, 12, "all", env={"KIT_HOOK": s.root + "/hook.py"})
    check(st == 0, out[-500:])
    last = [int(x) for x in s.text("etc/sub").split()][-1]
    check(last <= 331, "went on at %d s" % last)
''')
mk('b50-same-second','P01',[('Extended_IMMA.py',"        self.reps.append(rep)\n        i = len(self) - 1\n        if rep.getvar('ID') in self.idtracker:\n            self.idtracker[rep.getvar('ID')].append(i)\n        else:\n            self.idtracker[rep.getvar('ID')] = [i]\n\n    def sort(self):\n        \"\"\"\n        Sort the MarineReports","        self.reps.append(rep)\n        i = len(self) - 1\n        if rep.getvar('ID') in self.idtracker:\n            # the same place and time as the one before: the platform sent its report twice\n            last = self.reps[self.idtracker[rep.getvar('ID')][-1]]\n            if not all(last.getvar(v) == rep.getvar(v) for v in ['YR', 'MO', 'DY', 'HR', 'LAT', 'LON', 'SST']):\n                self.idtracker[rep.getvar('ID')].append(i)\n        else:\n            self.idtracker[rep.getvar('ID')] = [i]\n\n    def sort(self):\n        \"\"\"\n        Sort the MarineReports")],
 "two reports of one drifter with the same time, place and temperature","the second has no row in the drifter's files",'''
with Site() as s:
    r = [drifter(2005, 3, d, 6, 30.52, -40.48 + d / 10., "55555") for d in (1, 2, 2, 3)]
    s.archive(2005, 3, r)
    st, out = s.month("marine_qc", 2005, 3)
    check(st == 0, out[-500:])
    check(len(s.read("out/2005/03/Variables_200503_55555    _base.csv")) == 4, "rows missing")
''')
mk('b51-deck-memo','P27',[('Extended_IMMA.py',"""        if (self.get_qc('POS', 'pos') == 0 and
                self.get_qc('POS', 'date') == 0 and
                self.get_qc('POS', 'time') == 0):
            self.set_qc('POS', 'day', qc""","""        if (self.get_qc('POS', 'pos') == 0 and
                self.get_qc('POS', 'date') == 0 and
                self.getvar('HR') is not None and self.getvar('HR') < 24):
            self.set_qc('POS', 'day', qc""")],
 "a report with an hour before zero and a good position and date","a report that fails the time check gets a day flag from a wrong time, or stops the run",'''
with Site() as s:
    s.archive(2005, 3, [rep(2005, 3, 5, -3, 30.52, 20.48, "SHIP1"), rep(2005, 3, 6, 2, 30.52, 20.48, "SHIP1")])
    st, out = s.month("marine_qc", 2005, 3, tracking=False)
    check(st == 0, out[-500:])
    rows = [l.split(",") for l in s.text("out/2005/03/POS_qc_200503_base.csv").splitlines()]
    check(rows[1][rows[0].index("day")] == "1", "day flag %r" % rows[1])
''')
