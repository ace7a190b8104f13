"""netCDF4.Dataset as a seam: reads small checksummed token files that stand for NetCDF files.

The field of a token file is an irregular function of (time, lat, lon) that the
reference models can evaluate too (`value`). A torn or damaged file raises, as the
HDF5 library's own checks make NetCDF4 do.
"""
import json
import weakref
import zlib

import numpy as np
from numpy.lib.stride_tricks import as_strided

_bufs = {}
_fields = []          # the values of every field read, as long as something refers to them


def _buf(seed, n):
    key = (seed, n)
    b = _bufs.get(key)
    if b is None:
        if len(_bufs) > 400:
            _bufs.clear()
        r = np.random.RandomState(seed)
        b = _bufs[key] = (r.random_sample(n), r.random_sample(n))
        b[0].setflags(write=False)
    return b


def geometry(spec):
    nt, ny, nx = spec["shape"]
    sy = spec.get("sy", 13)
    st = spec.get("st", 17)
    n = (nt - 1) * st + (ny - 1) * sy + (nx - 1) + 1
    return nt, ny, nx, st, sy, n


def value(spec, t, y, x):
    """Value at time index t, row y counted from the north, column x counted from 180 W."""
    nt, ny, nx, st, sy, n = geometry(spec)
    i = t * st + y * sy + x
    v, m = _buf(spec["seed"], n)
    if m[i] < spec.get("missing", 0.0):
        return None
    return float(spec["base"] + spec["amp"] * v[i])


def array(spec):
    nt, ny, nx, st, sy, n = geometry(spec)
    v, m = _buf(spec["seed"], n)
    vals = spec["base"] + spec["amp"] * v
    _fields.append(weakref.ref(vals))
    e = vals.itemsize
    a = as_strided(vals, (nt, ny, nx), (st * e, sy * e, e), writeable=False)
    mask = m < spec.get("missing", 0.0)
    mm = as_strided(mask, (nt, ny, nx), (st, sy, 1), writeable=False)
    layout = spec.get("layout", "")
    if "f" in layout:                     # stored south to north
        a, mm = a[:, ::-1, :], mm[:, ::-1, :]
    if "r" in layout:                     # stored from longitude 0
        a, mm = np.roll(a, nx // 2, axis=2), np.roll(mm, nx // 2, axis=2)
    if "t" in layout:                     # stored lon, lat
        a, mm = a.transpose(0, 2, 1), mm.transpose(0, 2, 1)
    if "4" in layout:
        a, mm = a[:, None, :, :], mm[:, None, :, :]
    if "n" in layout:                     # no mask at all
        return a
    return np.ma.MaskedArray(a, mask=mm, copy=False)


def fields_alive():
    _fields[:] = [r for r in _fields if r() is not None]
    return len(_fields)


def axes(spec):
    nt, ny, nx = spec["shape"]
    ry, rx = 180.0 / ny, 360.0 / nx
    lat = 90.0 - ry / 2 - ry * np.arange(ny)
    lon = -180.0 + rx / 2 + rx * np.arange(nx)
    layout = spec.get("layout", "")
    if "f" in layout:
        lat = lat[::-1]
    if "r" in layout:
        lon = lon + 180.0
    return lat, lon


def encode(var_specs, pad=0):
    body = json.dumps({"vars": var_specs, "pad": "x" * pad}, sort_keys=True).encode()
    return b"NCSIM %d %08x\n" % (len(body), zlib.crc32(body)) + body


class _Var:
    def __init__(self, a):
        self._a = a
        self.shape = a.shape

    def __getitem__(self, k):
        return self._a[k]

    def __len__(self):
        return self.shape[0]


class Dataset:
    def __init__(self, filename, mode="r", **kw):
        from . import kernel
        path = str(filename)
        sim = kernel.SIM
        if sim is not None and kernel.CUR is not None:
            f = sim.op("nc_open", path)
            sim.maybe_err(f, "nc_open", path)
        with kernel.O_OPEN(path, "rb") as fh:
            data = fh.read()
        try:
            head, body = data.split(b"\n", 1)
            tag, n, crc = head.split()
            good = tag == b"NCSIM" and len(body) == int(n) and zlib.crc32(body) == int(crc, 16)
        except ValueError:
            good = False
        if not good:
            if sim is not None:
                sim.probe("nc_damaged")
            raise OSError(-101, "NetCDF: HDF error", path)
        specs = json.loads(body)["vars"]
        self.variables = {}
        for name in sorted(specs):
            self.variables[name] = _Var(array(specs[name]))
            lat, lon = axes(specs[name])
            names = specs[name].get("axes", ["lat", "lon"])
        self.variables[names[0]] = _Var(lat)
        self.variables[names[1]] = _Var(lon)
        self.path = path

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def install():
    import netCDF4
    netCDF4.Dataset = Dataset
