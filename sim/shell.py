"""The commands that the programs start, as seams: bunzip2, sbatch, squeue and a small shell."""
import bz2
import os
import shlex
import subprocess


def _k():
    from . import kernel
    return kernel


class _Out:
    """Where a command's standard output goes: memory, or a file below the root."""

    def __init__(self, sim, path=None, append=False, sink=None):
        k = _k()
        self.sim, self.path, self.sink = sim, path, sink
        self.buf = []
        self.fh = None
        self.status = 1           # of a command whose write failed
        if path is not None:
            f = sim.op("copen_w", path)
            sim.maybe_err(f if f and f["kind"] == "err" else None, "copen_w", path)
            self.fh = k.O_OPEN(path, "ab" if append else "wb", buffering=0)
            sim.touch(path)
        elif sink is not None and hasattr(sink, "fileno"):
            sink.flush()
            raw = sink
            while hasattr(raw, "buffer"):
                raw = raw.buffer
            raw = getattr(raw, "raw", raw)
            self.path = getattr(raw, "simpath", "?")
            self.fh = os.fdopen(os.dup(raw.fileno()), "wb", 0)

    def write(self, data):
        """One child write(2); returns False when the child is to die here."""
        k = _k()
        if self.fh is None:
            self.buf.append(data)
            return True
        f = self.sim.op("cwrite", self.path)
        if f is not None:
            if f["kind"] == "crash":            # the whole job is killed, the child with it
                self.fh.write(data[:int(len(data) * f["torn"])])
                self.sim.fire("crash_torn:cwrite")
                k.CUR.dead = True
                raise k.SimCrash()
            if f["kind"] in ("err", "childfail"):
                n = int(len(data) * f.get("torn", 0.0))
                if n:
                    self.fh.write(data[:n])
                self.sim.fire("childfail:cwrite")
                self.status = f.get("status", 1)
                if f.get("sticky"):
                    k.CUR.sticky = f
                return False
        self.fh.write(data)
        return True

    def close(self):
        if self.fh is not None:
            self.fh.close()


def _bunzip(sim, files, out, chunks):
    k = _k()
    for path in files:
        f = sim.op("spawn", "bunzip2 " + sim.norm(path))
        if f is not None and f["kind"] in ("childfail", "err", "nomem"):
            sim.fire("childfail:spawn")
            return f.get("status", 1)
        try:
            with k.O_OPEN(path, "rb") as fh:
                data = fh.read()
            data = bz2.decompress(data)
        except FileNotFoundError:
            return 1
        except (OSError, ValueError, EOFError):
            # a damaged file: bunzip2 writes the blocks it could decode, then fails
            sim.probe("bunzip2_bad_input")
            d = bz2.BZ2Decompressor()
            try:
                with k.O_OPEN(path, "rb") as fh:
                    part = d.decompress(fh.read())
            except Exception:
                part = b""
            if part:
                out.write(part)
            return 2
        n = max(1, -(-len(data) // chunks))
        for i in range(0, len(data), n):
            if not out.write(data[i:i + n]):
                return out.status
    return 0


def run_argv(sim, argv, sink=None, path=None, append=False, inp=None):
    """Runs one command. Returns (status, stdout, stderr)."""
    k = _k()
    out = None
    try:
        try:
            out = _Out(sim, path, append, sink)
        except OSError:
            return 1, "", "cannot open"
        try:
            rc = _command(sim, argv, out, inp)
        finally:
            out.close()
    finally:
        pass
    text = b"".join(out.buf).decode("latin-1")
    return rc, text, ""


def _test(a):
    if a and a[0] == "!":
        return 0 if _test(a[1:]) else 1
    if len(a) == 2 and a[0] in ("-f", "-e", "-d", "-s", "-r"):
        st = {"-f": os.path.isfile, "-d": os.path.isdir}.get(a[0], os.path.exists)(a[1])
        if st and a[0] == "-s":
            st = os.stat(a[1]).st_size > 0
        return 0 if st else 1
    if len(a) == 2 and a[0] in ("-z", "-n"):
        return 0 if (a[1] == "") == (a[0] == "-z") else 1
    if len(a) == 3 and a[1] in ("=", "==", "!="):
        return 0 if (a[0] == a[2]) == (a[1] != "!=") else 1
    raise _k().HarnessError("test not simulated: %r" % (a,))


def _command(sim, argv, out, inp=None):
    k = _k()
    name = os.path.basename(argv[0]) if argv else "true"
    opts = [a for a in argv[1:] if a.startswith("-")]
    rest = [a for a in argv[1:] if not a.startswith("-")]
    flags = "".join(o.lstrip("-") for o in opts if not o.startswith("--"))
    if name in ("bunzip2", "bzcat") or (name == "bzip2" and "d" in flags):
        if not rest and inp is not None:
            try:
                return 0 if out.write(bz2.decompress(inp)) else 1
            except (OSError, ValueError, EOFError):
                return 2
        if name == "bzcat" or "c" in flags:
            return _bunzip(sim, rest, out, sim.knobs.get("bzchunks", 3))
        for p in rest:                         # in place: the bzipped file goes when it is done
            if not p.endswith(".bz2") or not sim.inside(p):
                return 1
            try:
                o = _Out(sim, p[:-4])
            except OSError:
                return 1
            try:
                rc = _bunzip(sim, [p], o, sim.knobs.get("bzchunks", 3))
            finally:
                o.close()
            if rc:
                return rc
            if "k" not in flags:
                k.O["unlink"](p)
                sim.touch(p)
        return 0
    if name == "sbatch":
        return sim.cluster.sbatch(sim, argv[1:], out)
    if name == "squeue":
        return sim.cluster.squeue(sim, argv[1:], out)
    if name in ("true", ":"):
        return 0
    if name in ("nice", "nohup", "env", "exec", "command", "timeout", "stdbuf", "time"):
        i = 1
        while i < len(argv) and (argv[i].startswith("-") or "=" in argv[i]):
            i += 2 if argv[i] in ("-n", "-k", "-s", "-u") else 1
        if name == "timeout":
            i += 1
        return _command(sim, argv[i:], out, inp)
    if name in ("sh", "bash") and "c" in flags:
        rc, o, _ = run_shell(sim, rest[0])
        out.write(o.encode("latin-1"))
        return rc
    if name in ("test", "["):
        return _test([a for a in argv[1:] if a != "]"])
    if name in ("sync", "sleep"):
        if name == "sleep":
            sim.sleep(float(rest[0]))
        return 0
    if name in ("touch", "cp"):
        f = sim.op("spawn", name)
        if f is not None and f["kind"] in ("childfail", "err", "nomem"):
            sim.fire("childfail:spawn")
            return 1
        if name == "touch":
            for p in rest:
                if not sim.inside(p):
                    sim.outside.append((k.CUR.name, name, p))
                    return 1
                try:
                    k.O_OPEN(p, "ab").close()
                except OSError:
                    return 1
                sim.touch(p)
            return 0
        dst = rest[-1]
        for p in rest[:-1]:
            d = os.path.join(dst, os.path.basename(p)) if os.path.isdir(dst) else dst
            if not sim.inside(d):
                sim.outside.append((k.CUR.name, name, d))
                return 1
            try:
                with k.O_OPEN(p, "rb") as fh:
                    data = fh.read()
                o = _Out(sim, d)
            except OSError:
                return 1
            try:
                if not o.write(data):
                    return 1
            finally:
                o.close()
        return 0
    if name in ("false",):
        return 1
    if name in ("mv",):
        sim.op("spawn", "mv")
        try:
            k.O["replace"](rest[0], rest[1] if not os.path.isdir(rest[1])
                           else os.path.join(rest[1], os.path.basename(rest[0])))
        except OSError:
            return 1
        sim.touch(rest[0])
        sim.touch(rest[1])
        return 0
    if name == "rm":
        for p in rest:
            sim.op("spawn", "rm")
            if not sim.inside(p):
                sim.outside.append((k.CUR.name, "rm", p))
                return 1
            try:
                k.O["unlink"](p)
                sim.touch(p)
            except OSError:
                if "f" not in flags:
                    return 1
        return 0
    if name == "mkdir":
        for p in rest:
            if not sim.inside(p):
                sim.outside.append((k.CUR.name, "mkdir", p))
                return 1
            try:
                if "p" in flags:
                    os.makedirs(p, exist_ok=True)
                else:
                    os.mkdir(p)
            except OSError:
                return 1
        return 0
    if name == "cat":
        if not rest and inp is not None:
            return 0 if out.write(inp) else 1
        for p in rest:
            sim.op("spawn", "cat")
            with k.O_OPEN(p, "rb") as fh:
                if not out.write(fh.read()):
                    return 1
        return 0
    if name == "echo":
        out.write((" ".join(argv[1:]) + "\n").encode("latin-1"))
        return 0
    if "/" in name and not os.path.exists(name):
        sim.probe("command_not_found")
        return 127
    raise k.HarnessError("command not simulated: %r" % (argv,))


def run_shell(sim, cmd, sink=None):
    k = _k()
    lex = shlex.shlex(cmd.replace("\n", ";") if "'" not in cmd and '"' not in cmd else cmd,
                      posix=True, punctuation_chars="><;&|")
    lex.whitespace_split = True
    lex.commenters = ""
    words = list(lex)
    rc, out = 0, ""
    sep = ";"
    i = 0
    inp = None
    while i < len(words):
        argv, path, append = [], None, False
        while i < len(words) and words[i] not in (";", "&&", "||", "|", "&"):
            w = words[i]
            if w in (">", ">>", ">&", "<"):
                # a file descriptor number before '>' belongs to it
                if w == "<":
                    with k.O_OPEN(words[i + 1], "rb") as fh:
                        inp = fh.read()
                    i += 2
                    continue
                if argv and argv[-1] == "2" and cmd.find("2" + w) >= 0:
                    argv.pop()
                    i += 2
                    continue
                path, append = words[i + 1], w == ">>"
                i += 2
                continue
            if w[0] in "><&|;":
                raise k.HarnessError("redirection not simulated: %r" % cmd)
            argv.append(w)
            i += 1
        nextsep = words[i] if i < len(words) else ";"
        go = sep in (";", "|", "&") or (sep == "&&" and rc == 0) or (sep == "||" and rc != 0)
        given, inp = inp, None
        if go and (argv or path):
            if path is not None and path.isdigit():
                path = None
            if path is not None and not sim.inside(path) and path != "/dev/null":
                sim.outside.append((k.CUR.name, "shell", path))
                rc, o = 1, ""
            elif nextsep == "&":
                # the command runs on its own; the shell does not wait for it
                where = None if path == "/dev/null" else path
                sim.background(lambda _, a=argv or ["true"], p=where, ap=append, g=given:
                               run_argv(sim, a, None, p, ap, g))
                rc, o = 0, ""
            else:
                piped = nextsep == "|"
                rc, o, _ = run_argv(sim, argv or ["true"], None if piped else sink,
                                    None if path == "/dev/null" else path, append, given)
                if rc < 0 and not (i >= len(words) and sep == ";" and not out):
                    rc = 128 - rc             # the shell's own account of it, unless the shell has become the command
                if path == "/dev/null":
                    o = ""
                if piped:
                    inp, o = o.encode("latin-1"), ""
            out += o
        sep = nextsep
        i += 1
    return rc, out, ""
