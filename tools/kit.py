"""What the demonstrations share: a small deployment in a scratch folder, and programs run in it as real processes.

Copied beside every demo.sh. Everything a program writes stays below the folder that `Site` makes and removes.
"""
import bz2
import gzip
import json
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.getcwd()
HERE = os.path.dirname(os.path.abspath(__file__))
RUNNER = r"""
import json, os, sys
sys.path.insert(0, '/opt/vp/py2compat')
import py2compat
sys.path.insert(0, sys.argv[1])
import numpy as np
import netCDF4

class Dataset:
    def __init__(self, path, *a, **k):
        with open(path) as f:
            text = f.read()
        if not text.endswith('}END'):
            raise OSError('NetCDF: HDF error', path)
        d = json.loads(text[:-3])
        nt, ny, nx = d['shape']
        self.variables = {}
        for name, v in d['vars'].items():
            a = np.broadcast_to(np.float64(v['base']), (nt, ny, nx))
            if v.get('bylat') or v.get('bylon') or v.get('bytime'):
                a = (a + v.get('bylat', 0) * np.arange(ny)[None, :, None] + v.get('bylon', 0) * np.arange(nx)[None, None, :]
                     + v.get('bytime', 0) * np.arange(nt)[:, None, None])
            self.variables[name] = np.ma.MaskedArray(a)
        self.variables['lat'] = 90 - 90. / ny - 180. / ny * np.arange(ny)
        self.variables['lon'] = -180 + 180. / nx + 360. / nx * np.arange(nx)
    def close(self):
        pass

netCDF4.Dataset = Dataset
import gzip, io, subprocess
_gz, _co = gzip.open, subprocess.check_output

def gzopen(name, mode='rb', *a, **k):      # as in Python 2, lines are str
    if name is None:
        raise TypeError('need string, NoneType found')
    return io.TextIOWrapper(_gz(name, mode.replace('t', '').replace('b', '') + 'b'), 'latin-1', newline='\n')

gzip.open = gzopen
subprocess.check_output = lambda *a, **k: _co(*a, **k).decode('latin-1')
prog = sys.argv[2]
sys.argv = [prog + '.py'] + sys.argv[3:]
hook = os.environ.get('KIT_HOOK')
if hook:
    exec(open(hook).read())
import importlib
m = importlib.import_module(prog)
m.main(sys.argv[1:])
"""
CORE = [("YR", 4), ("MO", 2), ("DY", 2), ("HR", 4), ("LAT", 5), ("LON", 6), ("IM", 2), ("ATTC", 1),
        ("TI", 1), ("LI", 1), ("DS", 1), ("VS", 1), ("NID", 2), ("II", 2), ("ID", 9), ("C1", 2), ("DI", 1),
        ("D", 3), ("WI", 1), ("W", 3), ("VI", 1), ("VV", 2), ("WW", 2), ("W1", 1), ("SLP", 5), ("A", 1),
        ("PPP", 3), ("IT", 1), ("AT", 4), ("WBTI", 1), ("WBT", 4), ("DPTI", 1), ("DPT", 4), ("SI", 2),
        ("SST", 4), ("REST", 19)]
N = [0]


def field(r, n, w):
    v = r.get(n)
    return " " * w if v is None else ("%*d" % (w, v) if isinstance(v, int) else "%-*s" % (w, v))


def line(r):
    """One IMMA1 record; numbers in the units of the file (hundredths, tenths)."""
    if "raw" in r:
        return r["raw"]
    return ("".join(field(r, n, w) for n, w in CORE) + " 165" + " " * 6 + field(r, "DCK", 3) + field(r, "SID", 3)
            + field(r, "PT", 2) + " " * 47 + "9815" + field(r, "UID", 6) + " " * 5 + "99 00SUP")


def rep(y, m, d, h, lat, lon, ident, **k):
    """A report; position in degrees, hour in hours."""
    N[0] += 1
    r = {"YR": y, "MO": m, "DY": d, "HR": int(round(h * 100)), "LAT": int(round(lat * 100)), "LON": int(round(lon * 100)),
         "ID": "%-9s" % ident, "UID": "U%05d" % N[0], "DCK": 926, "PT": 5, "SID": 63, "SST": 150, "AT": 145, "DPT": 120,
         "SLP": 10100}
    r.update(k)
    return r


def drifter(*a, **k):
    d = {"PT": 7, "DCK": 714, "AT": None, "DPT": None, "SLP": None}
    d.update(k)
    return rep(*a, **d)


ONE, PEN = [1, 180, 360], [73, 180, 360]


class Site:
    def __init__(self, **params):
        self.root = tempfile.mkdtemp(prefix="kit")
        for d in ("arch", "bg", "out", "track", "scratch", "etc", "clim", "bin"):
            os.mkdir(self.root + "/" + d)
        p = {"runid": "base", "base": {"time_since_sun_above_horizon": 1.0},
             "SST": {"maximum_anomaly": 8.0, "freezing_point": -1.8, "freeze_check_n_sigma": 2.0, "hard_limits": [-5., 45.]},
             "AT": {"maximum_anomaly": 10.0, "minmax_standard_deviation": [1., 4.], "maximum_standardised_anomaly": 5.5,
                    "hard_limits": [-80., 65.]},
             "DAT": {"maximum_anomaly": 10.0, "hard_limits": [-80., 65.]},
             "DPT": {"minmax_standard_deviation": [1., 4.], "maximum_standardised_anomaly": 5.5, "hard_limits": [-80., 65.]},
             "SLP": {"maximum_anomaly": 300., "maximum_standardised_anomaly": 3., "lowbar": 10.},
             "W": {"hard_limits": [0., 50.], "variable_limit": 3.}, "SHU": {"hard_limits": [0., 45.]},
             "RH": {"hard_limits": [0., 150.]},
             "track_check": {"max_direction_change": 60., "max_speed_change": 10., "max_absolute_speed": 40.,
                             "max_midpoint_discrepancy": 150.},
             "IQUAM_track_check": {"buoy_speed_limit": 15., "ship_speed_limit": 60., "delta_d": 1.11, "delta_t": 0.01,
                                   "number_of_neighbours": 5},
             "IQUAM_spike_check": {"max_gradient_space": 0.5, "max_gradient_time": 1., "ship_delta_t": 2.,
                                   "buoy_delta_t": 1., "number_of_neighbours": 5},
             "saturated_runs": {"min_time_threshold": 48., "shortest_run": 4},
             "multiple_rounded_values": {"min_count": 20, "threshold": 0.5},
             "find_repeated_values": {"min_count": 20, "threshold": 0.7},
             "bayesian_buddy_check": {"prior_probability_of_gross_error": 0.05, "quantization_interval": 0.1,
                                      "measurement_error": 1., "limits": [2, 2, 4], "noise_scaling": 3.},
             "new_buoy_aground_check": {"smooth_win": 41, "min_win_period": 8},
             "new_buoy_speed_check": {"speed_limit": 2.5, "min_win_period": 0.8},
             "buoy_tail_check": {"long_win_len": 121, "long_err_std_n": 3., "short_win_len": 30, "short_err_std_n": 3.,
                                 "short_win_n_bad": 2, "drift_inter": 0.29, "drif_intra": 1., "background_err_lim": 0.3},
             "buoy_bias_noise_check": {"n_eval": 30, "bias_lim": 1.1, "drif_intra": 1., "drif_inter": 0.29,
                                       "err_std_n": 3., "n_bad": 2, "background_err_lim": 0.3}}
        for n in ("mds_buddy_check", "slp_buddy_check"):
            p[n] = {"limits": [[1, 1, 2], [2, 2, 2], [1, 1, 4], [2, 2, 4]],
                    "number_of_obs_thresholds": [[0, 5, 15, 100], [0], [0, 5, 15, 100], [0]],
                    "multipliers": [[4., 3.5, 3., 2.5], [4.], [4., 3.5, 3., 2.5], [4.]]}
        p["climatologies"] = []
        for var, stat, shape, base in (("SST", "mean", PEN, 15), ("AT", "mean", PEN, 14), ("SLP2", "mean", ONE, 1010),
                                       ("SHU", "mean", ONE, 8), ("CRH", "mean", ONE, 80), ("CWB", "mean", ONE, 12),
                                       ("DPD", "mean", ONE, 2), ("DPT", "mean", ONE, 12), ("DPT", "stdev", ONE, 2),
                                       ("AT2", "mean", ONE, 14), ("AT2", "stdev", ONE, 2), ("SLP", "mean", ONE, 1010),
                                       ("SLP", "stdev", ONE, 6)):
            p["climatologies"].append([var, stat, self.nc("%s_%s" % (var, stat), shape, {"v": {"base": base}}), "v"])
        p["hires_climatologies"] = [["SST", "mean", self.nc("hires", [73, 720, 1440], {"v": {"base": 15}}), "v"]]
        p["icoads_dir"] = [self.root + "/arch", self.root + "/arch"]
        p["icoads_filenames"] = ["A_YYYY-MMMM.gz", "B_YYYY-MMMM.gz"]
        p["background_dir"] = [self.root + "/bg", self.root + "/bg"]
        p["background_filenames"] = ["YYYYMMMMDDDD-rean.nc", "YYYYMMMMDDDD-nrt.nc"]
        p.update(params)
        with open(self.root + "/etc/parameters.json", "w") as f:
            json.dump(p, f)
        conf = ["[Directories]", "ICOADS_dir = %s/arch" % self.root, "out_dir = %s/out" % self.root,
                "track_out_dir = %s/track" % self.root, "[Files]", "IDs_to_exclude = %s/etc/bad.txt" % self.root,
                "parameter_file = %s/etc/parameters.json" % self.root, "[Icoads]", "icoads_version = 3.0",
                "[Climatologies]"]
        for n, v, shape in (("Old_SST_stdev_climatology", "sst", PEN), ("SST_buddy_one_box_to_buddy_avg", "sst", ONE),
                            ("SST_buddy_one_ob_to_box_avg", "sst", ONE), ("SST_buddy_avg_sampling", "sst", ONE)):
            conf.append("%s = %s" % (n, self.nc(n, shape, {v: {"base": 0.8}})))
        for i, s in enumerate(("DJF", "MAM", "JJA", "SON")):
            conf.append("%s_ostia_background = %s" % (s, self.nc(s, ONE, {"bg_var": {"base": 0.02 + 0.01 * i}})))
        self.conf = self.root + "/etc/configuration.txt"
        with open(self.conf, "w") as f:
            f.write("\n".join(conf) + "\n")
        self.exclude()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.root, ignore_errors=True)

    def exclude(self, *ids):
        with open(self.root + "/etc/bad.txt", "w") as f:
            f.write("".join(i + "\n" for i in ids))

    def nc(self, name, shape, variables):
        path = "%s/clim/%s.nc" % (self.root, name)
        with open(path, "w") as f:
            f.write(json.dumps({"shape": shape, "vars": variables}) + "END")
        return path

    def archive(self, y, m, recs, which="A"):
        with gzip.open("%s/arch/%s_%04d-%02d.gz" % (self.root, which, y, m), "wb") as f:
            f.write("".join(line(r) + "\n" for r in recs).encode("latin-1"))

    def background(self, y, m, d, sst, ice=0.0, which="rean", packed=False):
        """sst in degrees C"""
        data = (json.dumps({"shape": [1, 3600, 7200], "vars": {"analysed_sst": {"base": sst + 273.15},
                                                               "sea_ice_fraction": {"base": ice}}}) + "END").encode()
        path = "%s/bg/%04d%02d%02d-%s.nc" % (self.root, y, m, d, which)
        with open(path + (".bz2" if packed else ""), "wb") as f:
            f.write(bz2.compress(data) if packed else data)

    def tool(self, name, text):
        """A stand-in for an external command."""
        path = "%s/bin/%s" % (self.root, name)
        with open(path, "w") as f:
            f.write("#!/bin/sh\n" + text + "\n")
        os.chmod(path, 0o755)

    def start(self, prog, *args, **kw):
        env = dict(os.environ, SCRATCH=self.root + "/scratch", PATH=self.root + "/bin:" + os.environ.get("PATH", ""),
                   PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC", KIT_ROOT=self.root)
        env.update(kw.pop("env", {}))
        return subprocess.Popen(["/opt/venv/bin/python", "-c", RUNNER, REPO, prog, "-config", self.conf]
                                + [str(a) for a in args], env=env, cwd=self.root, stdout=subprocess.PIPE,
                                stderr=subprocess.STDOUT, **kw)

    def run(self, prog, *args, **kw):
        """Exit status and output."""
        p = self.start(prog, *args, **kw)
        out = p.communicate(timeout=200)[0].decode("utf-8", "replace")
        return p.returncode, out

    def month(self, prog, y1, m1, y2=None, m2=None, tracking=True, **kw):
        a = ["-year1", y1, "-month1", m1, "-year2", y2 or y1, "-month2", m2 or m1]
        return self.run(prog, *(a + (["-tracking"] if tracking else [])), **kw)

    def read(self, path):
        """Rows of an output file below the site, as dictionaries."""
        import csv
        with open(self.root + "/" + path) as f:
            return list(csv.DictReader(f))

    def text(self, path):
        with open(self.root + "/" + path) as f:
            return f.read()

    def tree(self, base):
        out = {}
        for d, _, files in os.walk(self.root + "/" + base):
            for f in files:
                p = os.path.join(d, f)
                with open(p, "rb") as fh:
                    out[os.path.relpath(p, self.root)] = fh.read()
        return out


def check(ok, what):
    if not ok:
        print("FAIL: " + what)
        sys.exit(1)
