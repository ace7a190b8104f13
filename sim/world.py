"""Builds the simulated deployment on disk: archive, climatologies, background fields, configuration.

A world specification is plain JSON; `build` writes it below a root directory.
"""
import bz2
import calendar
import gzip
import io
import json
import os

from . import imma, ncstub

ONE = [1, 180, 360]
PEN = [73, 180, 360]

PARAMS = {
    "runid": "base",
    "base": {"time_since_sun_above_horizon": 1.0},
    "SST": {"maximum_anomaly": 8.0, "freezing_point": -1.80, "freeze_check_n_sigma": 2.0,
            "hard_limits": [-5.0, 45.0]},
    "AT": {"maximum_anomaly": 10.0, "minmax_standard_deviation": [1.0, 4.0],
           "maximum_standardised_anomaly": 5.5, "hard_limits": [-80.0, 65.0]},
    "DAT": {"maximum_anomaly": 10.0, "hard_limits": [-80.0, 65.0]},
    "DPT": {"minmax_standard_deviation": [1.0, 4.0], "maximum_standardised_anomaly": 5.5,
            "hard_limits": [-80.0, 65.0]},
    "SLP": {"maximum_anomaly": 300.0, "maximum_standardised_anomaly": 3.0, "lowbar": 10.0},
    "W": {"hard_limits": [0.0, 50.0], "variable_limit": 3.0},
    "SHU": {"hard_limits": [0.0, 45.0]},
    "RH": {"hard_limits": [0.0, 150.0]},
    "track_check": {"max_direction_change": 60.0, "max_speed_change": 10.0, "max_absolute_speed": 40.0,
                    "max_midpoint_discrepancy": 150.0},
    "IQUAM_track_check": {"buoy_speed_limit": 15.0, "ship_speed_limit": 60.0, "delta_d": 1.11,
                          "delta_t": 0.01, "number_of_neighbours": 5},
    "IQUAM_spike_check": {"max_gradient_space": 0.5, "max_gradient_time": 1.0, "ship_delta_t": 2.0,
                          "buoy_delta_t": 1.0, "number_of_neighbours": 5},
    "saturated_runs": {"min_time_threshold": 48.0, "shortest_run": 4},
    "multiple_rounded_values": {"min_count": 5, "threshold": 0.5},
    "find_repeated_values": {"min_count": 5, "threshold": 0.7},
    "mds_buddy_check": {"limits": [[1, 1, 2], [2, 2, 2], [1, 1, 4], [2, 2, 4]],
                        "number_of_obs_thresholds": [[0, 5, 15, 100], [0], [0, 5, 15, 100], [0]],
                        "multipliers": [[4.0, 3.5, 3.0, 2.5], [4.0], [4.0, 3.5, 3.0, 2.5], [4.0]]},
    "slp_buddy_check": {"limits": [[1, 1, 2], [2, 2, 2], [1, 1, 4], [2, 2, 4]],
                        "number_of_obs_thresholds": [[0, 5, 15, 100], [0], [0, 5, 15, 100], [0]],
                        "multipliers": [[4.0, 3.5, 3.0, 2.5], [4.0], [4.0, 3.5, 3.0, 2.5], [4.0]]},
    "bayesian_buddy_check": {"prior_probability_of_gross_error": 0.05, "quantization_interval": 0.1,
                             "measurement_error": 1.0, "limits": [2, 2, 4], "noise_scaling": 3.0},
    "new_buoy_aground_check": {"smooth_win": 5, "min_win_period": 2},
    "new_buoy_speed_check": {"speed_limit": 2.5, "min_win_period": 0.2},
    "buoy_tail_check": {"long_win_len": 7, "long_err_std_n": 3.0, "short_win_len": 3, "short_err_std_n": 3.0,
                        "short_win_n_bad": 2, "drift_inter": 0.29, "drif_intra": 1.0, "background_err_lim": 0.3},
    "buoy_bias_noise_check": {"n_eval": 6, "bias_lim": 1.10, "drif_intra": 1.0, "drif_inter": 0.29,
                              "err_std_n": 3.0, "n_bad": 2, "background_err_lim": 0.3},
}

CLIMS = [
    ["SST", "mean", "sst", {"shape": PEN, "base": 13.0, "amp": 4.0, "seed": 11, "layout": ""}],
    ["AT", "mean", "at", {"shape": PEN, "base": 12.0, "amp": 4.0, "seed": 12, "layout": "f"}],
    ["SLP2", "mean", "slp", {"shape": ONE, "base": 1005.0, "amp": 10.0, "seed": 13, "layout": "f"}],
    ["SHU", "mean", "shu", {"shape": ONE, "base": 7.0, "amp": 3.0, "seed": 14, "layout": "r"}],
    ["CRH", "mean", "crh", {"shape": ONE, "base": 70.0, "amp": 20.0, "seed": 15, "layout": "t"}],
    ["CWB", "mean", "cwb", {"shape": ONE, "base": 10.0, "amp": 3.0, "seed": 16, "layout": ""}],
    ["DPD", "mean", "dpd", {"shape": ONE, "base": 2.0, "amp": 2.0, "seed": 17, "layout": ""}],
    ["DPT", "mean", "dpt", {"shape": ONE, "base": 9.0, "amp": 3.0, "seed": 18, "layout": "fr"}],
    ["DPT", "stdev", "dpts", {"shape": ONE, "base": 1.0, "amp": 1.0, "seed": 19, "layout": ""}],
    ["AT2", "mean", "at2", {"shape": ONE, "base": 12.0, "amp": 4.0, "seed": 20, "layout": ""}],
    ["AT2", "stdev", "at2s", {"shape": ONE, "base": 1.0, "amp": 1.0, "seed": 21, "layout": ""}],
    ["SLP", "mean", "slpm", {"shape": ONE, "base": 1005.0, "amp": 10.0, "seed": 22, "layout": ""}],
    ["SLP", "stdev", "slps", {"shape": ONE, "base": 5.0, "amp": 3.0, "seed": 23, "layout": ""}],
]
CONF_CLIMS = {
    "Old_SST_stdev_climatology": ["sst", {"shape": PEN, "base": 0.4, "amp": 0.8, "seed": 31}],
    "SST_buddy_one_box_to_buddy_avg": ["sst", {"shape": ONE, "base": 0.4, "amp": 0.8, "seed": 32}],
    "SST_buddy_one_ob_to_box_avg": ["sst", {"shape": ONE, "base": 0.4, "amp": 0.8, "seed": 33}],
    "SST_buddy_avg_sampling": ["sst", {"shape": ONE, "base": 0.4, "amp": 0.8, "seed": 34}],
    "DJF_ostia_background": ["bg_var", {"shape": ONE, "base": 0.02, "amp": 0.05, "seed": 41, "layout": "f"}],
    "MAM_ostia_background": ["bg_var", {"shape": ONE, "base": 0.02, "amp": 0.05, "seed": 42, "layout": "f"}],
    "JJA_ostia_background": ["bg_var", {"shape": ONE, "base": 0.02, "amp": 0.05, "seed": 43, "layout": "f"}],
    "SON_ostia_background": ["bg_var", {"shape": ONE, "base": 0.02, "amp": 0.05, "seed": 44, "layout": "f"}],
}
HIRES = [["SST", "mean", "temperature", {"shape": [73, 720, 1440], "base": 13.0, "amp": 4.0, "seed": 51}]]

# Two archives: the first has preference where it has the month.
ARCHIVES = [("arch/r1/YYYY", "IMMA1_R1_YYYY-MMMM.gz"), ("arch/r2", "IMMA1_R2_YYYY-MMMM.gz")]
# Background directories, in order of preference.
BACKGROUNDS = [("bg/rean/YYYY", "DDDD-MMMM-YYYY-rean.nc"), ("bg/nrt/YYYY/MMMM", "YYYYMMMMDDDD-nrt.nc")]


def fill(s, y, m, d=1):
    return s.replace("YYYY", "%04d" % y).replace("MMMM", "%02d" % m).replace("DDDD", "%02d" % d)


def nextm(y, m):
    return (y + 1, 1) if m == 12 else (y, m + 1)


def prevm(y, m):
    return (y - 1, 12) if m == 1 else (y, m - 1)


def months(y1, m1, y2, m2):
    out = [(y1, m1)]
    while out[-1] != (y2, m2):
        out.append(nextm(*out[-1]))
    return out


def key(y, m):
    return "%04d%02d" % (y, m)


def bg_spec(entry):
    """The two fields of one background file."""
    s = entry["seed"]
    return {"analysed_sst": {"shape": [1, 3600, 7200], "base": 284.0, "amp": 8.0, "seed": s,
                             "missing": entry.get("missing", 0.15), "layout": entry.get("layout", "")},
            "sea_ice_fraction": {"shape": [1, 3600, 7200], "base": 0.0, "amp": 0.9, "seed": s + 500000,
                                 "missing": entry.get("icemissing", 0.5), "layout": entry.get("layout", "")}}


def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def gz(text, mtime=0):
    b = io.BytesIO()
    with gzip.GzipFile(fileobj=b, mode="wb", mtime=mtime, compresslevel=1) as f:
        f.write(text.encode("latin-1"))
    return b.getvalue()


def archive_path(root, stub, y, m):
    d, f = ARCHIVES[stub]
    return os.path.join(root, fill(d, y, m), fill(f, y, m))


def bg_path(root, stub, y, m, d):
    a, f = BACKGROUNDS[stub]
    return os.path.join(root, fill(a, y, m, d), fill(f, y, m, d))


def text_of(lines):
    return "".join(imma.line(r) + "\n" for r in lines)


def write_archive(root, spec):
    for k, files in spec["files"].items():
        y, m = int(k[:4]), int(k[4:])
        for f in files:
            data = gz(text_of(f["lines"]))
            if f.get("notail") and f["lines"]:
                data = gz(text_of(f["lines"])[:-1])
            if f.get("cut"):
                data = data[:max(0, int(len(data) * f["cut"]))]
            put(archive_path(root, f.get("stub", 0), y, m), data)


def write_background(root, spec):
    for k, entries in spec.get("bg", {}).items():
        y, m, d = int(k[:4]), int(k[4:6]), int(k[6:])
        for e in entries:
            data = ncstub.encode(bg_spec(e), pad=e.get("pad", 40))
            path = bg_path(root, e["stub"], y, m, d)
            if e["form"] == "plain":
                put(path, data)
            elif e["form"] == "bz2":
                put(path + ".bz2", bz2.compress(data))
            elif e["form"] == "empty":
                put(path, b"")
            elif e["form"] == "emptybz2":
                put(path + ".bz2", b"")


_clim_cache = {}


def field(spec, kind, name, default):
    """The field of a climatology file of this world, None if it has none."""
    o = spec.get("fields", {}).get("%s:%s" % (kind, name))
    if o is None:
        return default
    return None if o.get("absent") else dict(default, **o)


def clim_fields(spec):
    """{(variable, statistic): field}"""
    return {(v, s): field(spec, "clim", v + "/" + s, f) for v, s, nc, f in CLIMS}


def conf_fields(spec):
    return {k: field(spec, "conf", k, f) for k, (nc, f) in CONF_CLIMS.items()}


def hires_field(spec):
    return field(spec, "hires", "SST/mean", HIRES[0][3])


def clim_blob(var, s):
    kk = (var, json.dumps(s, sort_keys=True))
    if kk not in _clim_cache:
        _clim_cache[kk] = ncstub.encode({var: s})
    return _clim_cache[kk]


def build(root, spec):
    """Writes the world; returns the path of the configuration file (etc/NAME.txt for each of spec["configs"])."""
    p = json.loads(json.dumps(PARAMS))
    p.update(spec.get("params", {}))
    clims = []
    os.makedirs(root + "/clim", exist_ok=True)
    for var, stat, nc, s in CLIMS:
        path = "%s/clim/%s_%s.nc" % (root, var, stat)
        s = field(spec, "clim", var + "/" + stat, s)
        if s is None:
            path = None
        else:
            put(path, clim_blob(nc, s))
        clims.append([var, stat, path, nc])
    p["climatologies"] = clims
    hires = []
    for var, stat, nc, s in HIRES:
        path = "%s/clim/hires_%s_%s.nc" % (root, var, stat)
        put(path, clim_blob(nc, field(spec, "hires", var + "/" + stat, s)))
        hires.append([var, stat, path, nc])
    p["hires_climatologies"] = hires
    p["icoads_dir"] = [os.path.join(root, d) for d, _ in ARCHIVES]
    p["icoads_filenames"] = [f for _, f in ARCHIVES]
    p["background_dir"] = [os.path.join(root, d) for d, _ in BACKGROUNDS]
    p["background_filenames"] = [f for _, f in BACKGROUNDS]
    conf = []
    for name, (nc, s) in CONF_CLIMS.items():
        path = "%s/clim/%s.nc" % (root, name)
        put(path, clim_blob(nc, field(spec, "conf", name, s)))
        conf.append("%s = %s" % (name, path))
    for name, more in [("configuration", {})] + sorted(spec.get("configs", {}).items()):
        par = "parameters" if name == "configuration" else name
        put("%s/etc/%s.json" % (root, par), json.dumps(dict(p, **more), indent=1, sort_keys=True).encode())
        head = ["[Directories]", "ICOADS_dir = %s/arch" % root, "out_dir = %s/out" % root,
                "track_out_dir = %s/track" % root, "", "[Files]", "IDs_to_exclude = %s/etc/bad_ids.txt" % root,
                "parameter_file = %s/etc/%s.json" % (root, par), "", "[Icoads]", "icoads_version = 3.0", "",
                "[Climatologies]"]
        put("%s/etc/%s.txt" % (root, name), ("\n".join(head + conf) + "\n").encode())
    from . import model
    model.RUNID = p["runid"]
    put(root + "/etc/bad_ids.txt", "".join(x + "\n" for x in spec.get("exclude", [])).encode("latin-1"))
    for d in ("out", "track", "scratch", "tmp"):
        os.makedirs(os.path.join(root, d), exist_ok=True)
    write_archive(root, spec)
    write_background(root, spec)
    return root + "/etc/configuration.txt"


# -- reading results -----------------------------------------------------------------------
def snapshot(base):
    """Every file below base: relative path -> bytes."""
    out = {}
    for d, dirs, files in os.walk(base):
        dirs.sort()
        for f in sorted(files):
            path = os.path.join(d, f)
            with open(path, "rb") as fh:
                out[os.path.relpath(path, base)] = fh.read()
    return out


def parse_csv(data):
    """Lines of one output file as lists of columns; the ID column may hold quoted commas."""
    import csv as _csv
    text = data.decode("latin-1")
    rows = list(_csv.reader(text.split("\n")[:-1] if text.endswith("\n") else text.split("\n")))
    return rows[0] if rows else [], rows[1:]


def mlen(y, m):
    return calendar.monthrange(y, m)[1]
