#!/opt/venv/bin/python
"""Mutation campaign (development aid, not a check).
mutate.py gen OUT.json N SEED   - random single-place mutants of skmine that pass the stable tests
mutate.py run IN.json OUT.json  - runs the checks of the mutated module on each, stopping at the first that reports
Scratch trees lie under /tmp and are removed."""
import ast, concurrent.futures as cf, glob, json, os, random, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig", TZ="UTC", LC_ALL="C.UTF-8")
REPO = "/repo"
CHECKS = {
    "itemsets/lcm.py": ["C01", "C02", "C22", "C23", "C16", "C24", "C25"],
    "itemsets/slim.py": ["C03", "C04", "C05", "C08", "C06", "C07", "C23", "C25"],
    "itemsets/slim_classifier.py": ["C06", "C23", "C25"],
    "feature_extraction": ["C07", "C23", "C25"],
    "periodic/": ["C09", "C11", "C14", "C10", "C13", "C12", "C25", "C23"],
    "periodic/pattern.py": ["C13", "C11", "C14", "C10", "C09", "C12", "C25"],
    "periodic/extract_cycles.py": ["C14", "C10", "C09"],
    "preprocessing": ["C15", "C23"],
    "emerging": ["C16", "C22", "C23"],
    "graph": ["C18", "C17", "C23"],
    "callbacks.py": ["C19"],
    "skmine/utils.py": ["C22", "C02", "C05", "C07", "C16", "C23", "C24"],
    "skmine/base.py": ["C23", "C16", "C07", "C17", "C24"],
    "datasets/": ["C21", "C20"],
}


def checks_for(f):
    best = max((k for k in CHECKS if k in f), key=len)
    return CHECKS[best]


SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
SWAP2 = {ast.Lt: ">", ast.LtE: ">=", ast.Gt: "<", ast.GtE: "<="}
ARITH = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "//", ast.BitAnd: "|", ast.BitOr: "&"}


def sites(src):
    """(start offset, end offset, replacement, description)"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()))
    raw = src.encode()
    pos = lambda n: (starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset)
    out = []
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0])
    text = lambda n: raw[slice(*pos(n))].decode()

    def visit(n, infunc):
        if isinstance(n, (ast.Raise, ast.Assert)) or n in doc:
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and text(n.value.func).split(".")[0] in ("print", "logging", "logger", "warnings", "pdb"):
            return
        a, b = pos(n) if hasattr(n, "lineno") else (0, 0)
        if infunc:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                for t in (SWAP, SWAP2):
                    if type(n.ops[0]) in t:
                        out.append((a, b, f"{text(n.left)} {t[type(n.ops[0])]} {text(n.comparators[0])}", "cmp"))
            elif isinstance(n, ast.BinOp) and type(n.op) in ARITH and not isinstance(n.left, ast.JoinedStr) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                out.append((a, b, f"{text(n.left)} {ARITH[type(n.op)]} {text(n.right)}", "arith"))
                if type(n.op) in (ast.Add, ast.Sub):
                    out.append((a, b, text(n.left), "arith-drop"))
            elif isinstance(n, ast.BoolOp):
                op = " or " if isinstance(n.op, ast.And) else " and "
                out.append((a, b, "(" + op.join(text(v) for v in n.values) + ")", "bool"))
                for v in n.values:
                    out.append((a, b, "(" + text(v) + ")", "bool-one"))
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                out.append((a, b, "(" + text(n.operand) + ")", "not"))
            elif isinstance(n, ast.Constant) and type(n.value) is int:
                out.append((a, b, str(n.value + 1), "const+1"))
                if n.value > 0:
                    out.append((a, b, str(n.value - 1), "const-1"))
            elif isinstance(n, ast.Constant) and type(n.value) is bool:
                out.append((a, b, str(not n.value), "flip"))
            elif isinstance(n, ast.Constant) and type(n.value) is float:
                out.append((a, b, str(n.value * 1.5 + (n.value == 0)), "float"))
            elif isinstance(n, ast.Call):
                f = text(n.func)
                if f in ("min", "max"):
                    out.append((pos(n.func)[0], pos(n.func)[1], "max" if f == "min" else "min", "minmax"))
                if f in ("sorted", "set", "list", "tuple", "abs", "reversed", "float", "int", "copy.deepcopy", "deepcopy", "copy.copy", "frozenset", "dict") and len(n.args) == 1:
                    out.append((a, b, "(" + text(n.args[0]) + ")" if not isinstance(n.args[0], ast.GeneratorExp) or True else "", "unwrap " + f))
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "sort_index", "sort_values", "reset_index", "drop_duplicates", "astype") :
                    out.append((a, b, text(n.func.value), "drop ." + n.func.attr))
                if n.keywords and not f.startswith("logging"):
                    k = n.keywords[-1]
                    if k.arg and n.args:
                        pass
            elif isinstance(n, ast.Slice):
                pass
            elif isinstance(n, ast.IfExp):
                out.append((a, b, "(" + text(n.body) + ")", "ifexp-body"))
                out.append((a, b, "(" + text(n.orelse) + ")", "ifexp-else"))
            elif isinstance(n, (ast.Continue,)):
                out.append((a, b, "pass", "continue"))
            elif isinstance(n, (ast.Break,)):
                out.append((a, b, "pass", "break"))
            elif isinstance(n, (ast.Assign, ast.AugAssign)) and n.lineno == n.end_lineno:
                if isinstance(n, ast.AugAssign) or isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                    out.append((a, b, "pass", "del-assign"))
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                out.append((a, b, "pass", "del-call"))
            elif isinstance(n, (ast.If, ast.While)) and not isinstance(n.test, ast.Constant):
                x, y = pos(n.test)
                out.append((x, y, "True" if isinstance(n, ast.If) else text(n.test), "if-true"))
                out.append((x, y, "False", "if-false"))
            elif isinstance(n, ast.comprehension):
                for t in n.ifs:
                    out.append((*pos(t), "True", "comp-if"))
        for ch in ast.iter_child_nodes(n):
            if isinstance(n, (ast.FunctionDef,)) and (ch in n.decorator_list or ch is n.args):
                if ch is n.args:
                    for dflt in ch.defaults + [k for k in ch.kw_defaults if k]:
                        if infunc or True:
                            if isinstance(dflt, ast.Constant) and type(dflt.value) is bool:
                                out.append((*pos(dflt), str(not dflt.value), "default"))
                continue
            visit(ch, infunc or isinstance(n, ast.FunctionDef))

    visit(tree, False)
    return raw, out


def files():
    return sorted(f for f in glob.glob(REPO + "/skmine/**/*.py", recursive=True) if "/tests/" not in f and "/test/" not in f and not f.endswith("__init__.py"))


def tests_of(f):
    d = os.path.dirname(f)
    while not os.path.isdir(os.path.join(REPO, d, "tests")):
        d = os.path.dirname(d)
    return d if d != "skmine" else "skmine"


def survives(tree, tests):
    w = tree + "_junit.xml"
    e = dict(ENV, SCIKIT_MINE_DATA=tree + "_data", PYTHONPATH=tree)
    try:
        subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "--continue-on-collection-errors", "--doctest-modules", "--maxfail=30",
                        "-o", "junit_family=xunit2", "--junitxml=" + w, tests], cwd=tree, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=150)
        subprocess.run(["python3", "/opt/vp/results.py", w + ".json", "junit:" + w], stdout=subprocess.DEVNULL)
        d = json.load(open(w + ".json"))
    except Exception:
        return False
    finally:
        for f in (w, w + ".json"):
            if os.path.exists(f):
                os.remove(f)
        shutil.rmtree(tree + "_data", ignore_errors=True)
    bad = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) & set(d.get("failed", []))
    mod = tests.replace("/", ".")
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    passed = set(d.get("passed", []))
    return not bad and (tests != "skmine" or not stable - passed) and len(passed) > 0


def make(m, tree):
    shutil.rmtree(tree, ignore_errors=True)
    shutil.copytree(REPO + "/skmine", tree + "/skmine", ignore=shutil.ignore_patterns("__pycache__"))
    for x in ("pytest.ini", "setup.cfg", "pyproject.toml", "tox.ini", "conftest.py", "setup.py", "README.md"):
        if os.path.exists(os.path.join(REPO, x)):
            shutil.copy(os.path.join(REPO, x), tree)
    p = os.path.join(tree, m["file"])
    raw = open(p, "rb").read()
    a, b = m["span"]
    assert raw[a:b].decode() == m["old"]
    open(p, "wb").write(raw[:a] + m["new"].encode() + raw[b:])


def gen(out, n, seed):
    pool = []
    for f in files():
        raw, s = sites(open(f).read())
        rel = os.path.relpath(f, REPO)
        for a, b, new, kind in s:
            old = raw[a:b].decode()
            if old != new:
                pool.append({"file": rel, "span": [a, b], "old": old, "new": new, "kind": kind, "line": raw[:a].count(b"\n") + 1})
    random.Random(seed).shuffle(pool)
    print(len(pool), "sites")
    pool = pool[:n]

    def one(i):
        m = pool[i]
        tree = f"/tmp/mut/g{seed}_{i}"
        try:
            make(m, tree)
            try:
                compile(open(os.path.join(tree, m["file"])).read(), "x", "exec")
            except SyntaxError:
                return None
            return m if survives(tree, tests_of(m["file"])) else None
        finally:
            shutil.rmtree(tree, ignore_errors=True)
    with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "7"))) as ex:
        res = [m for m in ex.map(one, range(len(pool))) if m]
    json.dump(res, open(out, "w"), indent=0)
    print(len(res), "of", len(pool), "pass the tests")


def run(inp, out):
    ms = json.load(open(inp))
    done = json.load(open(out)) if os.path.exists(out) else []
    seen = {(d["file"], tuple(d["span"]), d["new"]) for d in done}
    for i, m in enumerate(ms):
        if (m["file"], tuple(m["span"]), m["new"]) in seen:
            continue
        tree = f"/tmp/mut/r_{os.getpid()}"
        make(m, tree)
        m["caught"] = None
        for cid in checks_for(m["file"]):
            r = subprocess.run([PY, "run.py", cid], cwd=os.environ.get("VDIR", HERE), env=dict(os.environ, VERIF_REPO=tree, VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True, text=True)
            if r.returncode == 1 and f"VIOLATION property={cid}" in r.stdout:
                m["caught"] = cid
                break
            if r.returncode not in (0, 1):
                m.setdefault("odd", []).append((cid, r.returncode, (r.stdout + r.stderr)[-300:]))
        shutil.rmtree(tree, ignore_errors=True)
        done.append(m)
        json.dump(done, open(out, "w"), indent=0)
        print(i, m["caught"], m["file"], m["line"], m["kind"], repr(m["old"][:60]), "->", repr(m["new"][:60]), m.get("odd", ""), flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))
    else:
        run(sys.argv[2], sys.argv[3])
