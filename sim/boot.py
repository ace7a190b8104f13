"""Loads the code under test, one fresh set of module objects per simulated process.

The modules of the repository are compiled once (with the Python 2 meanings that
/opt/vp/py2compat gives them) and executed anew for every simulated process, so that
state kept in a module or a class lives exactly as long as the process would.
"""
import importlib
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("MQC_SIM_REPO", "/repo")
PY2COMPAT = "/opt/vp/py2compat"
sys.dont_write_bytecode = True
if PY2COMPAT not in sys.path:
    sys.path.insert(0, PY2COMPAT)

import py2compat  # noqa: E402

if REPO != "/repo":
    py2compat.REPO = os.path.realpath(REPO)
if REPO not in sys.path:
    sys.path.insert(0, REPO)


class _Loader(importlib.machinery.SourceFileLoader):
    _codes = {}

    def get_code(self, fullname):
        code = self._codes.get(self.path)
        if code is None:
            code = self._codes[self.path] = py2compat.compile_file(self.path)
        return code


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if path is not None or name not in REPO_NAMES:
            return None
        file = os.path.join(REPO, name + ".py")
        return importlib.util.spec_from_file_location(name, file, loader=_Loader(name, file))


def _names():
    out = []
    for f in sorted(os.listdir(REPO)):
        if f.endswith(".py") and not f.startswith("test_"):
            out.append(f[:-3])
    return out


REPO_NAMES = _names()
sys.meta_path.insert(0, _Finder)


def install(names=REPO_NAMES):
    """Drops the repository's modules from sys.modules; returns what was there."""
    return {n: sys.modules.pop(n) for n in names if n in sys.modules}


def load(name):
    """A fresh instance of program `name` and of every module it imports.

    Returns (module, modules): modules are what sys.modules must hold while it runs.
    """
    old = install()
    try:
        mod = importlib.import_module(name)
        mods = {n: sys.modules[n] for n in REPO_NAMES if n in sys.modules}
    finally:
        install()
        sys.modules.update(old)
    return mod, mods


class patched:
    """Makes `mods` the current repository modules."""

    def __init__(self, mods):
        self.mods = mods

    def __enter__(self):
        self.old = install()
        sys.modules.update(self.mods)

    def __exit__(self, *a):
        now = install()
        self.mods.update(now)
        sys.modules.update(self.old)
