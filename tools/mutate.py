"""tools/mutate.py gen|test|check ...   systematic small changes of the source, to find what the checks miss.

gen  OUT.json [file...]        every mutant (one edit each) of the source files
test OUT.json N [seed]         runs the repository's tests on N of them picked at random; keeps those that pass
check OUT.json                 runs the checks of the file on the survivors, until one catches it
Working copies under /tmp/mut.  A tool for the author; no check uses it.
"""
import ast, concurrent.futures as cf, json, os, random, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
W = "/tmp/mut"
CHECKS = {
    "termcond.py": "C06 C15", "optimizer.py": "C06 C07 C11 C15 C12 C20 C19 C13 C23", "pulsegen.py": "C08 C09 C10 C11", "dump.py": "C13 C14 C19",
    "grape.py": "C18", "cy_grape.py": "C18", "loadparams.py": "C16", "io.py": "C16", "dynamics.py": "C01 C05 C02 C03 C04 C17 C13 C19 C20 C21 C22 C23",
    "tslotcomp.py": "C01 C02 C03 C13 C19 C21 C22 C23", "propcomp.py": "C02 C03 C01 C20 C22 C23", "fidcomp.py": "C04 C03 C01 C20 C22 C23", "pulseoptim.py": "C11 C12 C08 C10 C06 C07",
    "stats.py": "C15 C13 C19 C21", "optimconfig.py": "C16 C11 C12 C19", "optimresult.py": "C07 C15", "symplectic.py": "C02 C04", "errors.py": "C16 C17", "logging_utils.py": "C11 C19 C21",
}
SKIPF = {"report", "__repr__", "__str__", "DynamicsDamped", "plot", "_print"}
CMP = {"Lt": ("<", "<="), "LtE": ("<=", "<"), "Gt": (">", ">="), "GtE": (">=", ">"), "Eq": ("==", "!="), "NotEq": ("!=", "=="), "Is": ("is", "is not"), "IsNot": ("is not", "is"), "In": ("in", "not in"), "NotIn": ("not in", "in")}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def txt(n):
        s, e = span(n)
        return b[s:e].decode()

    out = []

    def add(s, e, new, what, n):
        out.append(dict(line=n.lineno, s=s, e=e, new=new, what=what))

    def logish(n):
        t = txt(n)
        return t.startswith(("logger.", "warnings.warn", "print(", "self.logger", "raise ")) or "logger." in t[:20]

    def visit(n, doc):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and (n.name in SKIPF or n.name.startswith("plot")):
            return
        if isinstance(n, ast.If) and ("log_level" in txt(n.test)):
            return
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise)):
            return
        if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or logish(n)):
            return
        if isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr):
            s, e = span(n)
            add(s, e, "pass", "delete: " + txt(n)[:60], n)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = CMP[type(n.ops[0]).__name__]
            s, e = span(n.left)[1], span(n.comparators[0])[0]
            m = b[s:e].decode()
            if m.count(o[0]) == 1:
                add(s, e, m.replace(o[0], o[1]), "%s -> %s in %s" % (o + (txt(n)[:60],)), n)
        if isinstance(n, ast.BoolOp):
            o = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            s, e = span(n.values[0])[1], span(n.values[1])[0]
            m = b[s:e].decode()
            if m.count(o[0]) == 1:
                add(s, e, m.replace(*o), "%s -> %s in %s" % (o + (txt(n)[:60],)), n)
        if isinstance(n, ast.BinOp):
            sw = {"Add": ("+", "-"), "Sub": ("-", "+"), "Mult": ("*", "/"), "Div": ("/", "*")}.get(type(n.op).__name__)
            s, e = span(n.left)[1], span(n.right)[0]
            m = b[s:e].decode()
            if sw and m.count(sw[0]) == 1 and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                add(s, e, m.replace(*sw), "%s -> %s in %s" % (sw + (txt(n)[:60],)), n)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            s, e = span(n)
            add(s, span(n.operand)[0], "", "drop unary: " + txt(n)[:50], n)
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
            s, e = span(n)
            v = n.value
            new = repr(not v) if isinstance(v, bool) else repr(v + 1) if isinstance(v, int) else repr(v * 2) if v else "1.0"
            add(s, e, new, "%r -> %s" % (v, new), n)
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            s, e = span(n.test)
            if not isinstance(n, ast.While):
                add(s, e, "True", "cond true: " + txt(n.test)[:60], n)
            add(s, e, "False", "cond false: " + txt(n.test)[:60], n)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "dag", "flatten", "conj", "real") and not n.args:
            s, e = span(n)
            add(span(n.func.value)[1], e, "", "drop .%s(): %s" % (n.func.attr, txt(n)[:50]), n)
        if isinstance(n, ast.Call) and len(n.args) == 1 and txt(n.func) in ("copy.deepcopy", "np.array", "copy.copy", "abs", "np.abs", "float", "int", "np.real", "len"):
            s, e = span(n)
            add(s, e, "(" + txt(n.args[0]) + ")", "drop %s in %s" % (txt(n.func), txt(n)[:50]), n)
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and k is not n.keywords[-1]:
                    s, e = span(k)
                    t = b[e:e + 200].decode(errors="ignore")
                    j = t.index(",")
                    add(s, e + j + 1, "", "drop keyword %s" % txt(k)[:40], n)
        for c in ast.iter_child_nodes(n):
            visit(c, doc)

    visit(tree, None)
    good = []
    for m in out:
        t = b[:m["s"]] + m["new"].encode() + b[m["e"]:]
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        good.append(m)
    return good


def copy(f, m, tag):
    d = os.path.join(W, tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/src")
    shutil.copytree("/repo/src/qutip_qtrl", d + "/src/qutip_qtrl", ignore=shutil.ignore_patterns("__pycache__"))
    shutil.copytree("/repo/tests", d + "/tests", ignore=shutil.ignore_patterns("__pycache__"))
    p = d + "/src/qutip_qtrl/" + f
    b = open(p, "rb").read()
    open(p, "wb").write(b[:m["s"]] + m["new"].encode() + b[m["e"]:])
    return d


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")


def test1(a):
    i, f, m = a
    d = copy(f, m, "t%d" % i)
    try:
        p = subprocess.run(["timeout", "240", PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=100", "tests"], cwd=d, env=dict(ENV, PYTHONPATH=d + "/src"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        l = (p.stdout.strip().splitlines() or [""])[-1]
        return "122 passed" in l and "failed" not in l
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check1(f, m, stride, limit):
    d = copy(f, m, "c")
    try:
        for c in CHECKS[f].split():
            t = time.time()
            p = subprocess.run(["timeout", str(limit), PY, "check.py", c, "--stride", str(stride)], cwd=V, env=dict(ENV, QTRL_REPO=d, QTRL_MC_FIRST="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode == 1 and "VIOLATION" in p.stdout:
                return c + " " + "; ".join(x.strip() for x in p.stdout.splitlines() if x.startswith("  ["))[:200]
            if p.returncode != 0:
                print("   rc", p.returncode, c, p.stdout[-300:])
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    cmd, path = sys.argv[1:3]
    if cmd == "gen":
        fs = sys.argv[3:] or sorted(CHECKS)
        out = []
        for f in fs:
            out += [dict(m, file=f) for m in mutants("/repo/src/qutip_qtrl/" + f)]
        json.dump(out, open(path, "w"))
        import collections
        print(len(out), collections.Counter(m["file"] for m in out))
    elif cmd == "test":
        ms = json.load(open(path))
        todo = [i for i, m in enumerate(ms) if "alive" not in m]
        random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 1).shuffle(todo)
        todo = todo[:int(sys.argv[3])]
        with cf.ThreadPoolExecutor(8) as ex:
            for i, ok in zip(todo, ex.map(test1, [(i, ms[i]["file"], ms[i]) for i in todo])):
                ms[i]["alive"] = ok
                json.dump(ms, open(path, "w"))
        print("tested", len(todo), "alive", sum(ms[i]["alive"] for i in todo))
    else:
        ms = json.load(open(path))
        for i, m in enumerate(ms):
            if m.get("alive") and "caught" not in m:
                r = check1(m["file"], m, 6, 300) or check1(m["file"], m, 1, 600)
                m["caught"] = r
                json.dump(ms, open(path, "w"))
                print("%4d %s:%d %s  ==> %s" % (i, m["file"], m["line"], m["what"].replace("\n", " "), r or "MISSED"), flush=True)


if __name__ == "__main__":
    main()
