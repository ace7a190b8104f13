"""Deterministic simulator: processes, scheduler, clock, file system and fault seams.

Every simulated process runs the repository's real main() on its own thread; exactly one
thread runs at a time and only at the seams below may another be chosen. All choices are
fixed by the specification of the run (faults by operation number, task switches by step
number), so a run is a pure function of that specification and the code under test.

Files are real files below a private root directory that the run creates and removes.
A crash is a process crash: what reached write() survives, what sat in user-space buffers
is lost, and a write may be torn. (The programs never fsync, so power loss is not modelled.)
"""
import _io
import builtins
import bz2
import datetime
import errno
import gc
import gzip
import io
import os
import random
import shutil
import socket
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import weakref
import zlib

from . import boot, shell

O_OPEN = io.open
O = {n: getattr(os, n) for n in (
    "mkdir", "rename", "replace", "unlink", "remove", "rmdir", "stat", "lstat", "listdir",
    "open", "write", "close", "system", "getpid", "popen", "link", "symlink", "truncate", "chmod", "utime",
    "access", "scandir", "fsync", "read", "_exit", "kill", "fork", "execv", "putenv", "getlogin", "nice")
     if hasattr(os, n)}
O_SLEEP, O_TIME = time.sleep, time.time
O_STRFTIME = time.strftime
O_GZOPEN = gzip.open
O_POPEN = subprocess.Popen
O_HOST, O_UNAME = socket.gethostname, os.uname

ERRNO = {"EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EACCES": errno.EACCES, "EMFILE": errno.EMFILE,
         "EROFS": errno.EROFS}


class SimCrash(BaseException):
    """The process is killed here; it can do nothing more."""


class SimHang(BaseException):
    """The step budget of the run is used up."""


class HarnessError(Exception):
    pass


SIM = None     # the running Sim
CUR = None     # the running Proc, None in harness code


def cur():
    return CUR


def _err(name, path=None):
    n = ERRNO[name]
    return OSError(n, os.strerror(n), path)


class Proc:
    def __init__(self, sim, name, program, argv, env=None, faults=None, on_end=None):
        self.sim = sim
        self.name = name
        self.program = program
        self.argv = argv
        self.env = dict(env or {})
        self.faults = {}          # operation number -> fault
        self.atfaults = {}        # (kind, path, n) -> fault: the n-th operation of that kind on that path
        for f in faults or []:
            if "at" in f:
                self.atfaults.setdefault((f["at"][0], f["at"][1], f["at"][2]), f)
            else:
                self.faults.setdefault(f["op"], f)
        self.seen = {}
        self.touched = set()
        self.sticky = None
        self.holds = []           # {"at": operation, "until": [process, operation]}: waits before the one for the other
        self.held = None
        self.nops = 0
        self.trace = []
        self.dead = False
        self.status = None        # ok | failed | crashed | hung
        self.error = None
        self.tb = ""
        self.wake = None
        self.files = []
        self.raws = []            # every file object it has opened
        self.out = io.StringIO()
        self.mods = None
        self.thread = None
        self.sem = threading.Semaphore(0)
        self.on_end = on_end
        self.pid = sim.knobs["pid"] + len(sim.procs)
        self.fds = {}

    def open_files(self):
        self.raws = [r for r in self.raws if r() is not None and not r().closed]
        return len(self.raws) + len(self.fds)

    # -- running -------------------------------------------------------------------------
    def body(self):
        self.sem.acquire()
        self.sim.enter(self)
        st = None                 # the status is set last: until then the process can be scheduled
        try:
            if callable(self.program):           # a command left running in the background
                self.program(self.argv)
            else:
                mod, mods = boot.load(self.program)
                boot.install()
                sys.modules.update(mods)
                mod.main(self.argv)
            st = "ok"
        except SimCrash:
            st = "crashed"
        except SimHang:
            st = "hung"
        except SystemExit as e:
            code = e.code
            st = "ok" if code in (None, 0) else "failed"
            self.error = "SystemExit(%r)" % (code,)
        except HarnessError as e:
            st = "harness"
            self.error = str(e)
            self.tb = traceback.format_exc()
        except BaseException as e:
            st = "failed"
            self.error = "%s: %s" % (type(e).__name__, e)
            self.tb = traceback.format_exc()
            e.__traceback__ = None
            del e
        if st == "hung":
            self.dead = True
        # a process that ends in any way but a crash flushes what it left open
        for ref in self.files:
            f = ref()
            if f is not None:
                try:
                    f.close()
                except BaseException:
                    if self.dead and st not in ("hung",):
                        st = "crashed"
        if self.dead and st == "ok":
            st = "crashed"
        self.files = []
        self.status = st
        self.sim.leave(self)


class Sim:
    def __init__(self, root, switches=None, sched_seed=None, switch_p=0.2, knobs=None,
                 max_steps=200000, max_proc_ops=60000):
        self.root = root
        self.procs = []
        self.log = []
        self.steps = 0
        self.now = 0.0
        self.max_steps = max_steps
        self.max_proc_ops = max_proc_ops
        self.fired = {}
        self.probes = {}
        self.switches = dict(switches or {})     # step -> proc index, explicit schedule
        self.rng = random.Random(sched_seed) if sched_seed is not None else None
        self.switch_p = switch_p
        self.made = []                           # switches actually made [(step, index)]
        self.knobs = {"rbuf": 8192, "wbuf": 8192, "short": 0, "pid": 1000, "epoch": 1.0e9, "host": "simhost",
                      "listing": 0, "maxfiles": None}
        self.knobs.update(knobs or {})
        self.cluster = None
        self.outside = []                        # writes outside the root
        self.tmpcount = 0
        self.harness_sem = threading.Semaphore(0)
        self.invariant = None
        self.touched = set()                     # normalised paths opened for write, renamed to, removed ...

    def touch(self, path):
        t = self.norm(os.path.normpath(os.path.join(self.root, os.fsdecode(os.fspath(path)))))
        self.touched.add(t)
        if CUR is not None:
            CUR.touched.add(t)

    # -- paths ---------------------------------------------------------------------------
    def norm(self, path):
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        path = str(path)
        if path.startswith(self.root):
            return "$" + path[len(self.root):]
        return path

    def inside(self, path):
        if isinstance(path, int):
            return False
        try:
            p = os.path.normpath(os.path.join(self.root, os.fsdecode(os.fspath(path))))
        except TypeError:
            return False
        return p == self.root or p.startswith(self.root + "/")

    # -- processes -----------------------------------------------------------------------
    def spawn(self, name, program, argv, env=None, faults=None, on_end=None, holds=None):
        p = Proc(self, name, program, argv, env, faults, on_end)
        p.holds = list(holds or [])
        self.procs.append(p)
        p.thread = threading.Thread(target=p.body, daemon=True)
        p.thread.start()
        return p

    def background(self, fn):
        self.probe("background_command")
        return self.spawn("%s&" % CUR.name, fn, [])

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def probe(self, kind):
        self.probes[kind] = self.probes.get(kind, 0) + 1

    def _runnable(self):
        return [p for p in self.procs if p.status is None and p.wake is None and
                (p.held is None or self.met(p.held))]

    def met(self, until):
        """Whether the process that a held one waits for has done the operation, or ended."""
        i, kind, path, n = until
        if i >= len(self.procs):
            return True
        q = self.procs[i]
        return q.status is not None or q.seen.get((kind, path), 0) > n

    def enter(self, p):
        global CUR
        CUR = p
        sys.argv = ["sh" if callable(p.program) else p.program + ".py"] + list(p.argv)
        sys.stdout = p.out
        for k, v in p.env.items():
            os.environ[k] = v
        boot.install()
        if p.mods:
            sys.modules.update(p.mods)

    def suspend(self, p):
        p.mods = boot.install()

    def pick_next(self):
        """Next process when the current one cannot go on (ended or asleep)."""
        r = self._runnable()
        if not r:
            for p in self.procs:                 # held for one that is held itself
                p.held = None
            r = self._runnable()
        if not r:
            asleep = [p for p in self.procs if p.status is None and p.wake is not None]
            if not asleep:
                return None
            t = min(p.wake for p in asleep)
            self.now = max(self.now, t)
            for p in asleep:
                if p.wake <= self.now:
                    p.wake = None
            r = self._runnable()
        if self.rng is not None:
            return self.rng.choice(r)
        want = self.switches.get(self.steps)
        if want is not None:
            for p in r:
                if p is self.procs[want]:
                    return p
        return r[0]

    def wakeups(self):
        for p in self.procs:
            if p.wake is not None and p.wake <= self.now:
                p.wake = None

    def leave(self, p):
        global CUR
        boot.install()
        if p.on_end:
            CUR = None
            p.on_end(p)
        self.steps += 1                          # so that no two choices carry the same number
        nxt = self.pick_next()
        CUR = None
        if nxt is None:
            self.harness_sem.release()
        else:
            self.made.append((self.steps, self.procs.index(nxt)))
            nxt.sem.release()

    def switch_to(self, me, nxt):
        self.made.append((self.steps, self.procs.index(nxt)))
        self.suspend(me)
        nxt.sem.release()
        me.sem.acquire()
        self.enter(me)

    def run(self):
        """Runs every spawned process to its end."""
        global SIM, CUR
        saved = (sys.argv, sys.stdout, {k: os.environ.get(k) for k in ("SCRATCH",)})
        old = boot.install()
        prev = SIM
        SIM = self
        was = gc.isenabled()
        gc.disable()
        install()
        try:
            nxt = self.pick_next()
            if nxt is not None:
                self.made.append((self.steps, self.procs.index(nxt)))
                nxt.sem.release()
                self.harness_sem.acquire()
            for p in self.procs:
                p.thread.join()
        finally:
            CUR = None
            uninstall()
            SIM = prev
            sys.argv, sys.stdout = saved[0], saved[1]
            for k, v in saved[2].items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v
            boot.install()
            sys.modules.update(old)
            if was:
                gc.enable()
        for p in self.procs:
            if p.status == "harness":
                raise HarnessError(p.error + "\n" + p.tb)

    # -- the seam ------------------------------------------------------------------------
    def op(self, kind, what=""):
        """One step of the running process. Returns the fault to apply, or None."""
        p = CUR
        if p.dead:
            raise SimCrash()
        self.steps += 1
        self.now += 0.001
        if self.steps > self.max_steps or p.nops > self.max_proc_ops:
            p.dead = True
            raise SimHang()
        self.wakeups()
        if len(self.procs) > 1:
            nxt = None
            if self.rng is not None and p.holds:
                at = (kind, self.norm(what))
                for h in p.holds:
                    if tuple(h["at"][:2]) == at and h["at"][2] == p.seen.get(at, 0) and not self.met(h["until"]):
                        p.held = tuple(h["until"])
                        self.fire("held:" + kind)
                        nxt = self.pick_next()
                        break
            if nxt is not None:
                pass
            elif self.rng is not None and any(q.held is not None and q is not p and self.met(q.held)
                                              for q in self._runnable()):
                nxt = [q for q in self._runnable() if q.held is not None and q is not p][0]
                nxt.held = None
            elif self.rng is not None:
                if self.rng.random() < self.switch_p:
                    r = self._runnable()
                    if len(r) > 1:
                        nxt = self.rng.choice(r)
            elif self.steps in self.switches:
                i = self.switches[self.steps]
                if i < len(self.procs):
                    q = self.procs[i]
                    if q.status is None and q.wake is None:
                        nxt = q
            if nxt is not None and nxt is not p:
                self.switch_to(p, nxt)
                if p.dead:
                    raise SimCrash()
            p.held = None
        i = p.nops
        p.nops += 1
        what = self.norm(what)
        p.trace.append((kind, what))
        self.log.append((p.name, i, kind, what))
        if self.invariant is not None:
            self.invariant(self, p, kind, what)
        n = p.seen.get((kind, what), 0)
        p.seen[(kind, what)] = n + 1
        f = p.faults.get(i)
        if f is None and p.atfaults:
            f = p.atfaults.get((kind, what, n))
        if f is not None:
            if f["kind"] == "crash" and not (f.get("torn") is not None and kind in ("write", "cwrite")):
                self.fire("crash:" + kind)
                p.dead = True
                raise SimCrash()
            if f["kind"] == "crash_all":
                self.fire("crash_all:" + kind)
                for q in self.procs:
                    if q.status is None:
                        q.dead = True
                raise SimCrash()
            return f
        if p.sticky and kind in ("write", "cwrite", "open_w", "mkdir"):
            return p.sticky
        return None

    def maybe_err(self, f, kind, path):
        """Applies an errno fault to a call of this kind."""
        if f is None:
            return
        if f["kind"] == "err":
            self.fire("%s:%s" % (f["errno"], kind))
            if f.get("sticky"):
                CUR.sticky = f
            raise _err(f["errno"], path)
        if f["kind"] == "nomem":
            self.fire("nomem:" + kind)
            raise MemoryError("simulated")

    def sleep(self, secs):
        p = CUR
        self.op("sleep", "%g" % secs)
        p.wake = self.now + max(0.0, float(secs))
        self.steps += 1
        nxt = self.pick_next()
        if nxt is p:
            return
        self.switch_to(p, nxt)
        if p.dead:
            raise SimCrash()


# -- files ---------------------------------------------------------------------------------
class SimRaw(_io.FileIO):
    def __init__(self, file, mode, proc, path=None):
        self.proc = proc
        self.simpath = path if path is not None else file
        super().__init__(file, mode)
        proc.raws.append(weakref.ref(self))

    def _live(self):
        return SIM is not None and CUR is self.proc and not self.proc.dead

    def write(self, b):
        if self.proc.dead:
            return len(b)
        if not self._live():
            return super().write(b)
        f = SIM.op("write", self.simpath)
        data = bytes(b)
        k = SIM.knobs["short"]
        if f is None and k and self.proc.nops % k == 0 and len(data) > 1:
            f = {"kind": "short"}
        if f is not None:
            if f["kind"] == "crash":
                super().write(data[:int(len(data) * f["torn"])])
                SIM.fire("crash_torn:write")
                self.proc.dead = True
                raise SimCrash()
            if f["kind"] == "err":
                n = int(len(data) * f.get("torn", 0.0))
                if n:
                    super().write(data[:n])
                SIM.maybe_err(f, "write", self.simpath)
            if f["kind"] == "short" and len(data) > 1:
                SIM.fire("short:write")
                return super().write(data[:max(1, len(data) // 2)])
        return super().write(data)

    def readinto(self, b):
        if self.proc.dead:
            raise SimCrash()
        if self._live():
            f = SIM.op("read", self.simpath)
            k = SIM.knobs["short"]
            if f is None and k and self.proc.nops % k == 0:
                f = {"kind": "short"}
            if f is not None:
                if f["kind"] == "err":
                    SIM.maybe_err(f, "read", self.simpath)
                if f["kind"] == "short" and len(b) > 1:
                    SIM.fire("short:read")
                    m = memoryview(b)
                    return super().readinto(m[:max(1, len(m) // 3)])
        return super().readinto(b)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        buf = bytearray(size)
        n = self.readinto(buf)
        return bytes(buf[:n])

    def readall(self):
        out = []
        while True:
            buf = bytearray(65536)
            n = self.readinto(buf)
            if not n:
                return b"".join(out)
            out.append(bytes(buf[:n]))


def _wrap(raw, mode, buffering, encoding, errors, newline, proc):
    text = "b" not in mode
    if buffering == 0:
        if text:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else None
    if "+" in mode:
        buf = io.BufferedRandom(raw, size or proc.sim.knobs["wbuf"])
    elif raw.writable():
        buf = io.BufferedWriter(raw, size or proc.sim.knobs["wbuf"])
    else:
        buf = io.BufferedReader(raw, size or proc.sim.knobs["rbuf"])
    if not text:
        proc.files.append(weakref.ref(buf))
        return buf
    t = io.TextIOWrapper(buf, encoding or "latin-1", errors, "\n" if newline is None else newline,
                         line_buffering=(buffering == 1))
    try:
        t._CHUNK_SIZE = max(1, proc.sim.knobs["rbuf"])
    except Exception:
        pass
    t.mode = mode
    proc.files.append(weakref.ref(t))
    return t


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    p = CUR
    if p is None or SIM is None or threading.current_thread() is not p.thread:
        return O_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        path = p.fds.get(file)
        if path is None:
            return O_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
        m = mode.replace("b", "").replace("t", "").replace("U", "") or "r"
        return _wrap(SimRaw(file, m, p, path), mode, buffering, encoding, errors, newline, p)
    writing = any(c in mode for c in "wax+")
    if not SIM.inside(file):
        if writing and os.fspath(file) not in ("/dev/null", "/dev/stdout", "/dev/stderr"):
            SIM.outside.append((p.name, "open", str(file)))
            raise _err("EACCES", str(file))
        return O_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
    file = os.fsdecode(os.fspath(file))
    kind = "open_w" if writing else "open_r"
    f = SIM.op(kind, file)
    SIM.maybe_err(f, kind, file)
    if SIM.knobs["maxfiles"] is not None and p.open_files() >= SIM.knobs["maxfiles"]:
        SIM.fire("EMFILE:limit")
        raise _err("EMFILE", file)
    m = mode.replace("b", "").replace("t", "").replace("U", "") or "r"
    raw = SimRaw(file, m, p)
    if writing:
        SIM.touch(file)
    return _wrap(raw, mode.replace("U", "") or "r", buffering, encoding, errors, newline, p)


def sim_gzopen(filename, mode="rb", compresslevel=9, encoding=None, errors=None, newline=None):
    """Python 2's gzip.open: the lines are str."""
    if CUR is None:
        return O_GZOPEN(filename, mode, compresslevel, encoding, errors, newline)
    if filename is None:
        raise TypeError("coercing to Unicode: need string or buffer, NoneType found")
    binary = O_GZOPEN(filename, mode.replace("t", "").replace("b", "") + "b", compresslevel)
    return io.TextIOWrapper(binary, encoding or "latin-1", errors, "\n")


def _patch1(name, kind, mutates=True, two=False):
    orig = O[name]

    def call(path, *a, **k):
        p = CUR
        if p is None or SIM is None or isinstance(path, int) or threading.current_thread() is not p.thread:
            return orig(path, *a, **k)
        dst = a[0] if two and a else path
        if not SIM.inside(path) or not SIM.inside(dst):
            if mutates:
                SIM.outside.append((p.name, name, str(path)))
                raise _err("EACCES", str(path))
            return orig(path, *a, **k)
        f = SIM.op(kind, path)
        if mutates:
            SIM.maybe_err(f, kind, path)
        r = orig(path, *a, **k)
        if mutates:
            SIM.touch(path)
            if two:
                SIM.touch(dst)
        return r
    call.__name__ = name
    return call


def sim_os_open(path, flags, *a, **k):
    p = CUR
    if p is None or SIM is None or threading.current_thread() is not p.thread:
        return O["open"](path, flags, *a, **k)
    writing = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
    if not SIM.inside(path):
        if writing:
            SIM.outside.append((p.name, "os.open", str(path)))
            raise _err("EACCES", str(path))
        return O["open"](path, flags, *a, **k)
    kind = "open_w" if writing else "open_r"
    f = SIM.op(kind, path)
    SIM.maybe_err(f, kind, path)
    fd = O["open"](path, flags, *a, **k)
    p.fds[fd] = str(path)
    if writing:
        SIM.touch(path)
    return fd


def sim_os_write(fd, data):
    p = CUR
    if p is None or fd not in p.fds:
        return O["write"](fd, data)
    if p.dead:
        raise SimCrash()
    f = SIM.op("write", p.fds[fd])
    if f is not None:
        if f["kind"] == "crash":
            O["write"](fd, data[:int(len(data) * f["torn"])])
            SIM.fire("crash_torn:write")
            p.dead = True
            raise SimCrash()
        if f["kind"] == "err":
            n = int(len(data) * f.get("torn", 0.0))
            if n:
                O["write"](fd, data[:n])
            SIM.maybe_err(f, "write", p.fds[fd])
    return O["write"](fd, data)


def sim_os_close(fd):
    p = CUR
    if p is not None:
        p.fds.pop(fd, None)
    return O["close"](fd)


def sim_getpid():
    return CUR.pid if CUR is not None else O["getpid"]()


def sim_sleep(secs):
    if CUR is None or SIM is None:
        return O_SLEEP(secs)
    return SIM.sleep(secs)


def sim_time():
    if CUR is None or SIM is None:
        return O_TIME()
    return SIM.knobs["epoch"] + SIM.now


class SimDatetime(datetime.datetime):
    """The wall clock of the simulation."""

    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(sim_time(), tz)

    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(sim_time(), datetime.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.fromtimestamp(sim_time())


class SimDate(datetime.date):
    @classmethod
    def today(cls):
        return cls.fromtimestamp(sim_time())


def _clock(orig):
    def call(t=None):
        return orig(sim_time() if t is None else t)
    return call


def _strftime(fmt, t=None):
    return O_STRFTIME(fmt, time.localtime() if t is None else t)


def _listed(orig):
    """Directory entries come in an order of the file system's own choice."""
    def call(path=".", *a, **k):
        r = orig(path, *a, **k)
        if CUR is None or SIM is None or not isinstance(r, list):
            return r
        return sorted(r, key=lambda x: zlib.crc32(("%s%d" % (x, SIM.knobs["listing"])).encode("utf-8", "replace")))
    return call


class _Names:
    def __iter__(self):
        return self

    def __next__(self):
        if SIM is not None:
            SIM.tmpcount += 1
            return "sim%06d" % SIM.tmpcount
        return "%08x" % random.getrandbits(32)


def sim_system(cmd):
    if CUR is None or SIM is None:
        return O["system"](cmd)
    rc, out, err = shell.run_shell(SIM, cmd)
    return rc << 8 if rc >= 0 else -rc


class SimPopen:
    """Stands in for subprocess.Popen: the child runs to its end, step by step, when started."""

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None,
                 preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None,
                 universal_newlines=None, text=None, encoding=None, **kw):
        if CUR is None or SIM is None:
            raise HarnessError("Popen outside a simulated process")
        from . import shell as sh
        self.args = args
        self.pid = 5000
        self.stdin = None
        sink = None
        if stdout is not None and stdout not in (subprocess.PIPE, subprocess.DEVNULL):
            sink = stdout
        if shell:
            cmd = args if isinstance(args, str) else args[0]
            rc, out, err = sh.run_shell(SIM, cmd, sink)
        else:
            argv = [args] if isinstance(args, str) else [os.fspath(a) for a in args]
            rc, out, err = sh.run_argv(SIM, argv, sink)
        self.returncode = None
        self._rc = rc
        self._out, self._err = out, err
        self.stdout = io.StringIO(out) if stdout == subprocess.PIPE else None
        self.stderr = io.StringIO(err) if stderr == subprocess.PIPE else None

    def poll(self):
        self.returncode = self._rc
        return self._rc

    def wait(self, timeout=None):
        return self.poll()

    def communicate(self, input=None, timeout=None):
        self.poll()
        return (self._out if self.stdout is not None else None,
                self._err if self.stderr is not None else None)

    def kill(self):
        pass

    terminate = kill

    def send_signal(self, s):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.poll()


_saved = []


def _set(obj, name, val):
    _saved.append((obj, name, getattr(obj, name)))
    setattr(obj, name, val)


def install():
    if _saved:
        raise HarnessError("nested simulation")
    for m in (builtins, io, _io):
        _set(m, "open", sim_open)
    _set(bz2, "_builtin_open", sim_open)
    _set(gzip, "open", sim_gzopen)
    for n, kind in (("mkdir", "mkdir"), ("unlink", "unlink"), ("remove", "unlink"), ("rmdir", "rmdir"),
                    ("truncate", "truncate"), ("chmod", "chmod"), ("utime", "utime")):
        _set(os, n, _patch1(n, kind))
    for n in ("rename", "replace", "link", "symlink"):
        _set(os, n, _patch1(n, "rename", two=True))
    for n in ("stat", "lstat", "access", "listdir", "scandir"):
        _set(os, n, _patch1(n, "stat", mutates=False))
    _set(os, "open", sim_os_open)
    _set(os, "write", sim_os_write)
    _set(os, "close", sim_os_close)
    _set(os, "getpid", sim_getpid)
    _set(os, "system", sim_system)
    _set(subprocess, "Popen", SimPopen)
    _set(time, "sleep", sim_sleep)
    _set(time, "time", sim_time)
    _set(time, "monotonic", sim_time)
    host = SIM.knobs["host"]
    _set(socket, "gethostname", lambda: host if CUR is not None else O_HOST())
    _set(os, "uname", lambda: ("Linux", host, "6", "1", "x86_64") if CUR is not None else O_UNAME())
    _set(os, "listdir", _listed(os.listdir))
    _set(time, "localtime", _clock(time.localtime))
    _set(time, "gmtime", _clock(time.gmtime))
    _set(time, "strftime", _strftime)
    _set(datetime, "datetime", SimDatetime)
    _set(datetime, "date", SimDate)
    _set(tempfile, "_get_candidate_names", lambda n=_Names(): n)
    if hasattr(shutil, "_USE_CP_SENDFILE"):
        _set(shutil, "_USE_CP_SENDFILE", False)
    _set(sys, "unraisablehook", lambda a: None)


def uninstall():
    while _saved:
        obj, name, val = _saved.pop()
        setattr(obj, name, val)
