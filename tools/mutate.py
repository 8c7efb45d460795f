"""Systematic mutation of /repo's sources, to measure the checks (development tool; no check uses it).

mutate.py gen OUT.jsonl FILE...        list mutants (AST based, one edit each)
mutate.py tests IN.jsonl OUT.jsonl     keep those that pass the stable tests (8 scratch copies)
mutate.py checks IN.jsonl OUT.jsonl MAP.json [N]   run the checks of MAP[file] on each survivor, in sequence, until one catches it
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("MUTATE_SRC", "/repo")  # the tree the mutants were generated from
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"],
       ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["+"], ast.FloorDiv: ["*"], ast.Mod: ["//"], ast.BitAnd: ["|"], ast.BitOr: ["&"], ast.BitXor: ["|"]}
BINTXT = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.FloorDiv: "//", ast.Mod: "%", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^"}
NAMES = {"min": "max", "max": "min", "any": "all", "all": "any", "issubset": "issuperset", "issuperset": "issubset", "intersection": "union",
         "union": "intersection", "append": "extend_"}
DROP = {"sorted", "list", "abs", "set", "reversed"}


def gen(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()))
    raw = src.encode()

    def at(n, end=False):
        return starts[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)

    def txt(n):
        return raw[at(n):at(n, True)].decode()
    out = []

    def add(a, b, new, kind, node):
        out.append(dict(file=os.path.relpath(path, "/repo"), a=a, b=b, new=new, old=raw[a:b].decode(), kind=kind, line=node.lineno))

    for n in ast.walk(tree):
        for f in ast.iter_child_nodes(n):
            f.parent = n
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = n.left, n.comparators[0]
            for o in CMP[type(n.ops[0])]:
                add(at(n), at(n, True), f"{txt(l)} {o} {txt(r)}", "cmp", n)
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(at(n), at(n, True), op.join("(" + txt(v) + ")" for v in n.values), "bool", n)
            for k in range(len(n.values)):
                rest = [v for i, v in enumerate(n.values) if i != k]
                add(at(n), at(n, True), "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(txt(v) for v in rest) + ")", "dropcond", n)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(at(n), at(n, True), "(" + txt(n.operand) + ")", "not", n)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            add(at(n), at(n, True), "(" + txt(n.operand) + ")", "neg", n)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(n.left, "value", None), str):
                continue
            for o in BIN[type(n.op)]:
                add(at(n), at(n, True), f"{txt(n.left)} {o} {txt(n.right)}", "bin", n)
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(at(n), at(n, True), str(not n.value), "const", n)
            elif isinstance(n.value, int):
                add(at(n), at(n, True), f"({n.value + 1})", "const", n)
                if n.value > 0:
                    add(at(n), at(n, True), f"({n.value - 1})", "const", n)
        elif isinstance(n, (ast.If, ast.While)) and not isinstance(n.test, (ast.Compare, ast.BoolOp)):
            add(at(n.test), at(n.test, True), "False", "if", n)
            if isinstance(n, ast.If):
                add(at(n.test), at(n.test, True), "True", "if", n)
        elif isinstance(n, ast.IfExp):
            add(at(n), at(n, True), txt(n.body), "ifexp", n)
            add(at(n), at(n, True), txt(n.orelse), "ifexp", n)
        elif isinstance(n, (ast.Break, ast.Continue)):
            add(at(n), at(n, True), "continue" if isinstance(n, ast.Break) else "break", "loop", n)
            add(at(n), at(n, True), "pass", "loop", n)
        elif isinstance(n, ast.Call):
            f = n.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
            if isinstance(f, ast.Name) and nm in NAMES and nm in ("min", "max", "any", "all"):
                add(at(f), at(f, True), NAMES[nm], "name", n)
            elif isinstance(f, ast.Attribute) and nm in NAMES and NAMES[nm] != "extend_":
                add(at(f, True) - len(nm), at(f, True), NAMES[nm], "name", n)
            if isinstance(f, ast.Name) and nm in DROP and len(n.args) == 1:
                add(at(n), at(n, True), txt(n.args[0]), "dropcall", n)
            if isinstance(f, ast.Attribute) and nm in ("copy", "deepcopy", "astype", "sort_values", "drop_duplicates", "reset_index", "sort_index") and isinstance(n.func.value, (ast.Name, ast.Attribute, ast.Call, ast.Subscript)):
                if nm == "deepcopy" and n.args:
                    add(at(n), at(n, True), txt(n.args[0]), "dropcall", n)
                else:
                    add(at(n), at(n, True), txt(f.value), "dropcall", n)
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(n.args) > 1:
                    a = at(k)
                    # remove "kw=..., " or ", kw=..."
                    e = at(k, True)
                    tail = raw[e:e + 2]
                    if tail.startswith(b", "):
                        add(a, e + 2, "", "dropkw", n)
                    elif raw[a - 2:a] == b", ":
                        add(a - 2, e, "", "dropkw", n)
        elif isinstance(n, ast.Expr) and not isinstance(n.value, (ast.Constant, ast.Yield)):
            add(at(n), at(n, True), "pass", "dropstmt", n)
        elif isinstance(n, ast.AugAssign):
            add(at(n), at(n, True), "pass", "dropstmt", n)
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(at(n), at(n, True), "pass", "dropstmt", n)
        elif isinstance(n, ast.Slice):
            if n.lower is not None and n.upper is None and isinstance(n.lower, ast.Constant):
                pass
    seen, res = set(), []
    for m in out:
        k = (m["a"], m["b"], m["new"])
        if k in seen or m["old"] == m["new"]:
            continue
        seen.add(k)
        res.append(m)
    return res


def apply(root, m):
    p = os.path.join(root, m["file"])
    raw = open(SRC + "/" + m["file"], "rb").read()
    new = raw[:m["a"]] + m["new"].encode() + raw[m["b"]:]
    open(p, "wb").write(new)
    return p


def revert(root, m):
    shutil.copyfile(SRC + "/" + m["file"], os.path.join(root, m["file"]))


def run_tests(root, m):
    p = apply(root, m)
    try:
        try:
            compile(open(p).read(), p, "exec")
        except SyntaxError:
            return False
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig", LC_ALL="C.UTF-8",
                   TZ="UTC", SCIKIT_MINE_DATA=root + "/.data", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        x = root + ".xml"
        try:
            subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "--maxfail=11", "-p", "no:cacheprovider", "--timeout=60",
                            "--continue-on-collection-errors", "--doctest-modules", "-o", "junit_family=xunit2", "--junitxml=" + x, "skmine"],
                           cwd=root, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=90)
            o = root + ".json"
            subprocess.run(["python3", "/opt/vp/results.py", o, "junit:" + x], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            return STABLE <= set(json.load(open(o))["passed"])
        except subprocess.TimeoutExpired:
            return False
    finally:
        revert(root, m)


def main():
    cmd = sys.argv[1]
    if cmd == "gen":
        with open(sys.argv[2], "w") as f:
            for p in sys.argv[3:]:
                for m in gen(p):
                    f.write(json.dumps(m) + "\n")
    elif cmd == "tests":
        ms = [json.loads(x) for x in open(sys.argv[2])]
        base = tempfile.mkdtemp(prefix="mu_")
        q = Queue()
        for k in range(8):
            shutil.copytree(SRC, f"{base}/r{k}", ignore=shutil.ignore_patterns(".git"))
            q.put(f"{base}/r{k}")

        def one(m):
            r = q.get()
            try:
                return run_tests(r, m)
            finally:
                q.put(r)
        with ThreadPoolExecutor(8) as ex, open(sys.argv[3], "w") as f:
            for m, ok in zip(ms, ex.map(one, ms)):
                if ok:
                    f.write(json.dumps(m) + "\n")
                    f.flush()
        shutil.rmtree(base)
    else:
        ms = [json.loads(x) for x in open(sys.argv[2])]
        mp = json.load(open(sys.argv[4]))
        rng = random.Random(7)
        rng.shuffle(ms)
        if len(sys.argv) > 5:
            ms = ms[:int(sys.argv[5])]
        done = sum(1 for _ in open(sys.argv[3])) if os.path.exists(sys.argv[3]) else 0
        ms = ms[done:]
        base = tempfile.mkdtemp(prefix="mu_")
        root = base + "/r"
        shutil.copytree(SRC, root, ignore=shutil.ignore_patterns(".git"))
        with open(sys.argv[3], "a") as f:
            for m in ms:
                apply(root, m)
                got = None
                for pid in mp[m["file"]]:
                    try:
                        p = subprocess.run(["timeout", "600", "/opt/venv/bin/python", V + "/harness/check.py", pid], capture_output=True, text=True,
                                           env=dict(os.environ, VERIF_REPO=root))
                        if p.returncode == 1:
                            got = pid
                            break
                        if p.returncode not in (0, 1):
                            got = f"rc{p.returncode} {pid}"
                    except Exception as ex:
                        got = repr(ex)
                revert(root, m)
                m["caught"] = got
                f.write(json.dumps(m) + "\n")
                f.flush()
        shutil.rmtree(base)


main()
