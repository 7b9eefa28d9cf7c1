#!/usr/bin/env python3
"""mutate.py N SEED [--files GLOB] [--workers K] [--out FILE]: sample small changes to glimpse
that pass its tests, run the checks that execute the changed function, list what none reports.

Works on copies under /tmp/mut only. Needs evidence/ (from a run of the checks) to map functions to checks."""
import argparse, ast, concurrent.futures, fnmatch, glob, json, os, random, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("GLIMPSE_REPO", "/repo")
PY = "/opt/venv/bin/python"
SKIP = re.compile(r"plot|animate|__repr__|^_?to_json$|hillshade|svg_write")


def functions():
    m = {}
    for f in sorted(glob.glob(V + "/evidence/*.json")):
        e = json.load(open(f))
        for x in e["coverage"]["functions_encoded"]:
            m.setdefault(x.split(".<locals>")[0], {})[e["property"]] = e["wall_s"]
    return m


class Sites(ast.NodeVisitor):
    """Every small change to the source of a function."""

    def __init__(self, src):
        self.src, self.out = src, []
        self.starts = [0]
        for l in src.splitlines(True):
            self.starts.append(self.starts[-1] + len(l.encode()))
        self.raw = src.encode()

    def pos(self, n):
        return self.starts[n.lineno - 1] + n.col_offset, self.starts[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.pos(n)
        return self.raw[a:b].decode()

    def put(self, n, new, what):
        a, b = self.pos(n)
        self.out.append((a, b, new, what, n.lineno))

    def between(self, a, b, old, new, what, line):
        x, y = self.pos(a)[1], self.pos(b)[0]
        gap = self.raw[x:y].decode()
        if gap.count(old) == 1:
            i = x + len(gap[: gap.index(old)].encode())
            self.out.append((i, i + len(old.encode()), new, what, line))

    CMP = {ast.Lt: ("<", "<="), ast.LtE: ("<=", "<"), ast.Gt: (">", ">="), ast.GtE: (">=", ">"), ast.Eq: ("==", "!="), ast.NotEq: ("!=", "==")}
    BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*"), ast.BitAnd: ("&", "|"), ast.BitOr: ("|", "&"), ast.Mod: ("%", "-"), ast.FloorDiv: ("//", "/")}

    def visit_Compare(self, n):
        l = n.left
        for op, r in zip(n.ops, n.comparators):
            if type(op) in self.CMP:
                o, w = self.CMP[type(op)]
                self.between(l, r, o, w, "%s -> %s" % (o, w), n.lineno)
            l = r
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in self.BIN and not isinstance(n.left, (ast.JoinedStr,)):
            o, w = self.BIN[type(n.op)]
            self.between(n.left, n.right, o, w, "%s -> %s" % (o, w), n.lineno)
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        o, w = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
        self.between(n.values[0], n.values[1], o, w, "%s -> %s" % (o, w), n.lineno)
        self.put(n, self.text(n.values[0]), "drop later operands")
        self.put(n, self.text(n.values[-1]), "drop earlier operands")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            self.put(n, "(" + self.text(n.operand) + ")", "drop " + type(n.op).__name__)
        self.generic_visit(n)

    def visit_Constant(self, n):
        if n.value is True or n.value is False:
            self.put(n, str(not n.value), "%s -> %s" % (n.value, not n.value))
        elif isinstance(n.value, int):
            for d in (1, -1):
                self.put(n, "(%d)" % (n.value + d), "%d -> %d" % (n.value, n.value + d))
        elif isinstance(n.value, float):
            self.put(n, repr(n.value * 2 + 1e-3), "constant")

    def visit_If(self, n):
        self.put(n.test, "True", "if True")
        self.put(n.test, "False", "if False")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.put(n, "(" + self.text(n.body) + ")", "always first")
        self.put(n, "(" + self.text(n.orelse) + ")", "always else")
        self.generic_visit(n)

    SWAP = {"min": "max", "max": "min", "any": "all", "all": "any", "argmin": "argmax", "argmax": "argmin", "floor": "ceil", "ceil": "floor",
            "nanmin": "nanmax", "nanmax": "nanmin", "minimum": "maximum", "maximum": "minimum", "sin": "cos", "cos": "sin", "sum": "mean", "mean": "sum",
            "round": "floor", "sort": "array", "append": "extend", "column_stack": "row_stack", "zeros": "ones", "ones": "zeros", "nansum": "sum", "isnan": "isinf"}

    def visit_Call(self, n):
        f = n.func
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        if name in self.SWAP:
            a, b = self.pos(f)
            self.out.append((b - len(name), b, self.SWAP[name], "%s -> %s" % (name, self.SWAP[name]), n.lineno))
        if name == "copy" and isinstance(f, ast.Attribute) and not n.args:
            self.put(n, self.text(f.value), "drop copy")
        for i, k in enumerate(n.keywords):
            if k.arg and len(n.keywords) + len(n.args) > 1 and i:
                a = self.pos(n.args[-1] if not n.keywords[:i] else n.keywords[i - 1].value)[1]
                self.out.append((a, self.pos(k.value)[1], "", "drop keyword " + k.arg, n.lineno))
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args) and name not in ("isinstance", "getattr", "hasattr"):
            a, b = n.args[0], n.args[1]
            x, y = self.pos(a)[0], self.pos(b)[1]
            mid = self.raw[self.pos(a)[1]: self.pos(b)[0]].decode()
            self.out.append((x, y, self.text(b) + mid + self.text(a), "swap arguments", n.lineno))
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call):
            self.put(n, "pass", "drop statement")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.put(n, "pass", "drop statement")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            self.put(n, "pass", "drop statement")
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.put(n, "pass", "drop raise")

    def visit_Continue(self, n):
        self.put(n, "pass", "drop continue")

    def visit_FunctionDef(self, n):
        body = n.body
        if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        for d in n.args.defaults + [d for d in n.args.kw_defaults if d]:
            self.visit(d)
        for b in body:
            self.visit(b)


def sites(m, pattern):
    out = []
    for p in sorted(glob.glob(R + "/src/glimpse/**/*.py", recursive=True)):
        rel = "glimpse/" + os.path.relpath(p, R + "/src/glimpse")
        src = open(p).read()

        def walk(node, prefix):
            for c in node.body:
                if isinstance(c, ast.ClassDef):
                    walk(c, prefix + c.name + ".")
                elif isinstance(c, ast.FunctionDef) and not SKIP.search(c.name):
                    k = rel + ":" + prefix + c.name
                    if fnmatch.fnmatch(k, pattern) and k in m:
                        s = Sites(src)
                        s.visit_FunctionDef(c)
                        out.extend((k, p, a, b, new, what, line) for a, b, new, what, line in s.out)
        walk(ast.parse(src), "")
    return out


def sh(cmd, cwd, env, timeout):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, ""


def one(job):
    (k, p, a, b, new, what, line), w, m, stable, jobs = job
    root = "/tmp/mut/%s" % w
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs("/tmp/mut", exist_ok=True)
    shutil.copytree(R, root, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    f = root + p[len(R):]
    raw = open(f, "rb").read()
    new_raw = raw[:a] + new.encode() + raw[b:]
    rec = dict(function=k, line=line, what=what, old=raw[a:b].decode()[:60], text=raw.decode().splitlines()[line - 1].strip()[:110], site=[a, b, new])
    try:
        compile(new_raw, f, "exec")
    except SyntaxError:
        rec["result"] = "syntax"
        return rec
    open(f, "wb").write(new_raw)
    env = dict(os.environ, PYTHONPATH=root + "/src", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="agg", HOME="/tmp/mut", PYTHONHASHSEED="0", MPLCONFIGDIR="/tmp/mut/mpl")
    rc, out = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "--doctest-modules", "src", "tests", "--disable-warnings", "--deselect",
                  "src/glimpse/helpers.py::glimpse.helpers.get_scale_from_size",
                  "--deselect", "src/glimpse/helpers.py::glimpse.helpers.numpy_dtype_minmax"], root, env, 120)
    if rc != 0:
        rec["result"] = "tests"
        return rec
    env = dict(os.environ, GLIMPSE_REPO=root, SYMX_JOBS=str(jobs), SYMX_OUT="/tmp/mut/out-%s" % w)
    env.pop("PYTHONPATH", None)
    rec["checks"] = {}
    for c in sorted(m[k], key=m[k].get):
        t = time.time()
        rc, out = sh([PY, V + "/check.py", c], V, env, 600)
        rec["checks"][c] = rc
        if rc == 1:
            rec["result"] = "caught"
            rec["by"] = c
            return rec
    rec["result"] = "survived"
    return rec


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("n", type=int)
    ap.add_argument("seed", type=int)
    ap.add_argument("--files", default="*")
    ap.add_argument("--workers", type=int, default=3)
    ap.add_argument("--jobs", type=int, default=3)
    ap.add_argument("--out", default="/tmp/mut.jsonl")
    ap.add_argument("--again", help="only what survived in this earlier output")
    o = ap.parse_args()
    m = functions()
    s = sites(m, o.files)
    random.Random(o.seed).shuffle(s)
    if o.again:
        src = {f: open(f).read().splitlines() for f in {x[1] for x in s}}
        old = {(r["function"], r["what"], r["text"]) for r in map(json.loads, open(o.again)) if r["result"] == "survived"}
        s = [x for x in s if (x[0], x[5], src[x[1]][x[6] - 1].strip()[:110]) in old]
    done = set()
    if os.path.exists(o.out):
        done = {(r["function"], *r["site"]) for r in map(json.loads, open(o.out))}
    s = [x for x in s if (x[0], x[2], x[3], x[4]) not in done][: o.n]
    print(len(s), "changes", flush=True)
    import queue

    q = queue.Queue()
    for w in range(o.workers):
        q.put(w)

    def run(x):
        w = q.get()
        try:
            return one((x, "w%d-%s" % (w, os.path.basename(o.out)), m, None, o.jobs))
        finally:
            q.put(w)

    with concurrent.futures.ThreadPoolExecutor(o.workers) as ex, open(o.out, "a") as out:
        for f in concurrent.futures.as_completed([ex.submit(run, x) for x in s]):
            r = f.result()
            out.write(json.dumps(r) + "\n")
            out.flush()


main()
