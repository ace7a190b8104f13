#!/opt/venv/bin/python
"""Mutation testing of the checks: small changes of the code that the repository's own tests let pass.

  MQC_SIM_COV=DIR check.py Pxx ...       collects the lines that simulations run, into DIR
  mutate.py list DIR > mutants.json      makes the mutants of those lines
  mutate.py run mutants.json N SEED OUT  tries N of them at random, eight at a time, in copies below /tmp/mut
"""
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
MONTH = ["P27", "P01", "P26", "P28", "P19", "P09", "P08", "P02", "P05", "P06", "P04", "P07", "P03", "P18", "P10", "P24", "P25"]
TRACK = ["P16", "P15", "P18", "P17", "P25", "P24"]
WRAP = ["P11", "P14", "P12", "P13", "P18", "P24", "P25"]
BACK = ["P01", "P06", "P19", "P07", "P05", "P10", "P04", "P03", "P24", "P18", "P25", "P09"]
FILES = {"marine_qc.py": MONTH, "marine_qc_hires.py": MONTH, "marine_qc_track_only.py": MONTH, "Extended_IMMA.py": MONTH,
         "qc.py": MONTH + TRACK + WRAP[:2], "track_check.py": ["P26"] + MONTH, "IMMA1.py": MONTH, "spherical_geometry.py":
         ["P26", "P16", "P28"] + MONTH, "trackqc.py": TRACK, "tracking_qc.py": TRACK, "Tracking_QC_wrapper.py": WRAP,
         "YMCounter.py": WRAP, "BackgroundField.py": BACK, "Climatology.py": BACK}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not",
       ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
OPS = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Mod: "*"}


def plain(src):
    """Python 2's string escapes without what Python 3 can't parse, at the same places."""
    import re
    return re.sub(r"\\[NuU]", r"\\m", src.replace("\r\n", "\n"))


def mutants(path, name, lines):
    src = open(path, newline="").read()
    par = plain(src)
    tree = ast.parse(par)
    rows = src.replace("\r\n", "\n").split("\n")
    out = []
    raw = src.replace("\r\n", "\n").encode()
    off = [0]
    for x in raw.split(b"\n"):
        off.append(off[-1] + len(x) + 1)

    def seg(n):
        a, b = off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
        return raw[a:b].decode()

    def rep(n, new, what):
        if n.lineno not in lines:
            return
        out.append({"file": name, "a": [n.lineno, n.col_offset], "b": [n.end_lineno, n.end_col_offset], "new": new,
                    "what": what, "old": seg(n)})
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and \
                isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0].value))
            doc.add(id(n.body[0]))
    quiet = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") == "print":
            for m in ast.walk(n):
                quiet.add(id(m))
        if isinstance(n, ast.Assert):
            for m in ast.walk(n):
                quiet.add(id(m))
        if isinstance(n, ast.Call) and getattr(n.func, "attr", "") in ("add_argument", "ArgumentParser"):
            for m in ast.walk(n):
                quiet.add(id(m))
        if isinstance(n, ast.Raise):
            for m in ast.walk(n):
                quiet.add(id(m))
    for n in ast.walk(tree):
        if id(n) in doc or id(n) in quiet or not hasattr(n, "lineno"):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            t = type(n.ops[0])
            l, r = seg(n.left), seg(n.comparators[0])
            rep(n, "%s %s %s" % (l, CMP[t], r), "cmp")
            if t in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                rep(n, "%s %s %s" % (l, {"<=": ">", "<": ">=", ">=": "<", ">": "<="}[CMP[t]], r), "cmpflip")
        elif isinstance(n, ast.BinOp) and type(n.op) in OPS and not isinstance(n.left, ast.Constant) or \
                isinstance(n, ast.BinOp) and type(n.op) in OPS and not isinstance(n.left.value, str):
            l, r = seg(n.left), seg(n.right)
            rep(n, "(%s) %s (%s)" % (l, OPS[type(n.op)], r), "arith")
        elif isinstance(n, ast.BoolOp):
            op = "or" if isinstance(n.op, ast.And) else "and"
            rep(n, (" %s " % op).join("(%s)" % seg(v) for v in n.values), "bool")
            if len(n.values) > 1:
                for i in range(len(n.values)):
                    vs = [v for j, v in enumerate(n.values) if j != i]
                    o = "and" if isinstance(n.op, ast.And) else "or"
                    rep(n, (" %s " % o).join("(%s)" % seg(v) for v in vs), "drop operand")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, "(%s)" % seg(n.operand), "not")
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            rep(n, repr(n.value + 1), "const+1")
            if n.value != 0:
                rep(n, repr(n.value - 1), "const-1")
            if type(n.value) is float and n.value not in (0.0, 1.0):
                rep(n, repr(n.value * 1.01), "const 1%")
        elif isinstance(n, ast.Constant) and n.value is True:
            rep(n, "False", "const")
        elif isinstance(n, ast.Constant) and n.value is False:
            rep(n, "True", "const")
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            rep(n, "pass", "delete")
        elif isinstance(n, ast.Continue):
            rep(n, "break", "break")
        elif isinstance(n, ast.Break):
            rep(n, "continue", "continue")
        elif isinstance(n, ast.Return) and n.value is not None:
            rep(n, "return None", "return")
        if isinstance(n, (ast.If, ast.While)) and n.test.lineno in lines:
            rep(n.test, "False", "if False")
            if isinstance(n, ast.If):
                rep(n.test, "True", "if True")
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") in ("abs", "int", "float", "sorted", "round") and n.args:
            rep(n, "(%s)" % seg(n.args[0]), "drop call")
    del rows
    return [m for m in out if m["old"] is not None and m["new"] != m["old"]]


def apply(m, root):
    p = os.path.join(root, m["file"])
    raw = open(p, newline="").read()
    crlf = "\r\n" in raw
    rows = raw.replace("\r\n", "\n").split("\n")
    (la, ca), (lb, cb) = m["a"], m["b"]
    head = rows[la - 1].encode()[:ca].decode()
    tail = rows[lb - 1].encode()[cb:].decode()
    rows[la - 1:lb] = [head + m["new"] + tail]
    text = "\n".join(rows)
    try:
        ast.parse(plain(text))
    except SyntaxError:
        return False
    with open(p, "w", newline="") as f:
        f.write(text.replace("\n", "\r\n") if crlf else text)
    return True


def tests(root, plug, want=None):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=plug + ":/opt/vp/py2compat", PYTHONHASHSEED="0", TZ="UTC",
               PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", SCRATCH="/scratch/hadjj", MUTREPO=root, OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1")
    try:
        p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-rfE", "--tb=no", "-p", "plug", "--assert=plain", "-p",
                            "no:cacheprovider", "--continue-on-collection-errors"], cwd=root, env=env, timeout=120,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    except subprocess.TimeoutExpired:
        return False
    got = {x.split(" - ")[0] for x in p.stdout.decode("utf-8", "replace").splitlines() if x.startswith(("FAILED", "ERROR"))}
    return got if want is None else got <= want


def attempt(job):
    n, m, frac, order = job
    base = "/tmp/mut/w%d" % n
    shutil.rmtree(base, ignore_errors=True)
    shutil.copytree("/tmp/mut/base", base)
    r = dict(m, n=n)
    t0 = time.time()
    try:
        if not apply(m, base):
            r["result"] = "syntax"
            return r
        if order is None and not tests(base, "/tmp/mut/plug", set(json.load(open("/tmp/mut/fails.json")))):
            r["result"] = "tests"
            return r
        import importlib
        sys.path.insert(0, V)
        r["result"], r["tried"] = "SURVIVES", []
        for c in (order or FILES[m["file"]]):
            mod_cases = CASES[c]
            k = max(4, int(mod_cases * frac))
            env = dict(os.environ, MQC_SIM_REPO=base, MQC_SIM_MIN="0.1", MQC_SIM_OUT=base + "/o", MQC_SIM_WALL="900")
            try:
                p = subprocess.run([sys.executable, V + "/check.py", c, "quick", "--jobs", "1", "--cases", str(k)], env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1500, cwd=V)
                rc, o = p.returncode, p.stdout.decode("utf-8", "replace")
            except subprocess.TimeoutExpired:
                rc, o = 9, "timeout"
            r["tried"].append([c, rc])
            if rc:
                r["result"], r["by"] = ("caught" if rc == 1 else "error%d" % rc), c
                r["text"] = [x for x in o.splitlines() if x.startswith(("violated", "harness"))][:1]
                if rc == 1:
                    break
        return r
    finally:
        r["t"] = round(time.time() - t0, 1)
        shutil.rmtree(base, ignore_errors=True)


CASES = {}


def load_cases():
    import re
    for f in os.listdir(V + "/checks"):
        m = re.match(r"p(\d+)\.py", f)
        if m:
            t = open(V + "/checks/" + f).read()
            CASES["P" + m.group(1)] = int(re.search(r'"quick": (\d+)', t).group(1))


def main(a):
    if a[0] == "list":
        lines = {}
        for f in os.listdir(a[1]):
            for name, l in json.load(open(os.path.join(a[1], f))):
                lines.setdefault(name, set()).add(l)
        out = []
        for name in sorted(FILES):
            ms = mutants(os.path.join(REPO, name), name, lines.get(name, set()))
            print(name, len(lines.get(name, ())), len(ms), file=sys.stderr)
            out += ms
        json.dump(out, sys.stdout)
        return
    load_cases()
    os.makedirs("/tmp/mut/plug", exist_ok=True)
    with open("/tmp/mut/plug/plug.py", "w") as f:
        f.write("import os\nimport py2compat\npy2compat.REPO = os.environ['MUTREPO']\n")
    shutil.rmtree("/tmp/mut/base", ignore_errors=True)
    shutil.copytree(REPO, "/tmp/mut/base", ignore=shutil.ignore_patterns(".git"))
    json.dump(sorted(tests("/tmp/mut/base", "/tmp/mut/plug")), open("/tmp/mut/fails.json", "w"))
    ms = json.load(open(a[1]))
    rng = random.Random(int(a[3]))
    only = set(a[6].split(",")) if len(a) > 6 else None
    if only:
        ms = [m for m in ms if m["file"] in only]
    pick = rng.sample(ms, min(int(a[2]), len(ms)))
    frac = float(a[5]) if len(a) > 5 else 0.3
    with cf.ProcessPoolExecutor(int(os.environ.get("MUT_JOBS", 8))) as ex, open(a[4], "a") as out:
        for f in cf.as_completed([ex.submit(attempt, (i, m, frac, None)) for i, m in enumerate(pick)]):
            out.write(json.dumps(f.result()) + "\n")
            out.flush()


if __name__ == "__main__":
    main(sys.argv[1:])
