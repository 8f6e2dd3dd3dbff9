#!/opt/venv/bin/python
"""mutate.py [-w N] [-o OUT] [-s SAMPLE] files...: systematic small changes to the Python code, each judged by the checks of its file.

Works on copies of the repository (VERIF_REPO); writes one JSON line per change: killed by which check, or survived.
"""
import argparse, ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
B = "src/vss_tools/vspec/"
X = B + "vssexporters/"
CHECKS = {
    B + "vspec.py": "C01 C02 C28", B + "tree.py": "C06 C03 C04 C07 C12 C10 C29 C30 C01 C02", B + "main.py": "C06 C08 C09 C10 C05 C07 C28 C01 C27", B + "model.py": "C05 C08 C12 C10 C11 C04 C18 C06",
    B + "datatypes.py": "C05 C08 C09 C27", B + "units_quantities.py": "C08 C28", B + "cli_options.py": "C10 C13 C28 C08 C30", B + "utils/misc.py": "C13 C21 C26 C20 C22",
    B + "utils/idgen_utils.py": "C18 C19", B + "utils/vss2id_val.py": "C19", X + "vss2id.py": "C18 C19 C28", X + "vss2json.py": "C11 C10 C27 C28", X + "vss2yaml.py": "C12 C10 C28", X + "vss2csv.py": "C13 C29 C30",
    X + "vss2tree.py": "C13 C30", X + "vss2jsonschema.py": "C14 C10 C29", X + "vss2binary.py": "C15 C29 C28", X + "vss2protobuf.py": "C20 C27 C28", X + "vss2graphql.py": "C21 C30", X + "vss2go.py": "C22 C30 C27",
    X + "vss2ddsidl.py": "C23 C29 C30", X + "vss2apigear.py": "C24 C30 C28 C27", X + "vss2franca.py": "C26 C29 C30", "samm": "C25 C27 C28",
}
SKIP_CALLS = {"log", "logging", "print"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        s, e = span(n)
        return b[s:e].decode()
    out = []

    def add(n, new, what):
        s, e = span(n)
        if b[s:e].decode() != new:
            out.append((s, e, new, n.lineno, what))

    def skip(n):
        if isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant):
                return True
            if isinstance(n.value, ast.Call):
                f = n.value.func
                while isinstance(f, ast.Attribute):
                    f = f.value
                if isinstance(f, ast.Name) and f.id in SKIP_CALLS:
                    return True
        return isinstance(n, (ast.Import, ast.ImportFrom))

    def visit(n, in_func):
        if skip(n):
            return
        if isinstance(n, ast.FunctionDef):
            for x in n.body:
                visit(x, True)
            for d in n.decorator_list:
                if isinstance(d, ast.Name) or "validator" in text(d):
                    continue
                visit(d, False)
            for d in n.args.defaults:
                visit(d, True)
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = text(n.left), text(n.comparators[0])
            alt = {ast.Eq: ["!="], ast.NotEq: ["=="], ast.Lt: ["<=", ">="], ast.LtE: ["<"], ast.Gt: [">=", "<="], ast.GtE: [">"], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}[type(n.ops[0])]
            for a in alt:
                add(n, f"({l} {a} {r})", "compare")
            if isinstance(n.ops[0], ast.IsNot) and r == "None":
                add(n, f"bool({l})", "truthy")
            if isinstance(n.ops[0], ast.Is) and r == "None":
                add(n, f"(not {l})", "truthy")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + op.join(f"({text(v)})" for v in n.values) + ")", "boolop")
            for i in range(len(n.values)):
                rest = [f"({text(v)})" for j, v in enumerate(n.values) if j != i]
                add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(rest) + ")", "drop-operand")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, f"bool({text(n.operand)})", "drop-not")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(n.test, "True", "cond-true") if not isinstance(n, ast.While) else None
            add(n.test, "False", "cond-false")
            if isinstance(n.test, ast.Name) or isinstance(n.test, ast.Attribute):
                add(n.test, f"({text(n.test)} is not None)", "not-none")
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value), "bool")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "int+1")
                if n.value:
                    add(n, str(n.value - 1), "int-1")
            elif isinstance(n.value, str) and in_func and n.value and len(n.value) < 60 and not text(n).startswith(("f", "r")) and text(n)[0] in "\"'":
                add(n, '""', "str-empty")
        elif isinstance(n, (ast.List, ast.Tuple, ast.Set)) and isinstance(getattr(n, "ctx", ast.Load()), ast.Load) and len(n.elts) > 1:
            for i, e in enumerate(n.elts):
                if len(n.elts) > 12 and i % 6:
                    continue
                parts = [text(x) for j, x in enumerate(n.elts) if j != i]
                o, c = {"List": "[]", "Tuple": "()", "Set": "{}"}[type(n).__name__]
                add(n, o + ", ".join(parts) + ("," if o == "(" else "") + c, "drop-element")
        elif isinstance(n, ast.Dict) and len(n.keys) > 1 and all(n.keys):
            for i in range(len(n.keys)):
                if len(n.keys) > 12 and i % 4:
                    continue
                add(n, "{" + ", ".join(f"{text(k)}: {text(v)}" for j, (k, v) in enumerate(zip(n.keys, n.values)) if j != i) + "}", "drop-entry")
        elif isinstance(n, ast.Call):
            f = text(n.func)
            for i, k in enumerate(n.keywords):
                if k.arg and not f.startswith(("click", "clo")):
                    parts = [text(a) for a in n.args] + [(f"{q.arg}={text(q.value)}" if q.arg else "**" + text(q.value)) for j, q in enumerate(n.keywords) if j != i]
                    add(n, f"{f}({', '.join(parts)})", "drop-keyword")
            if f in ("sorted", "list", "set", "deepcopy", "copy.deepcopy", "str", "reversed", "int", "float") and len(n.args) == 1:
                add(n, f"({text(n.args[0])})", "drop-call")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "lower", "upper", "strip", "replace", "rstrip", "lstrip", "title", "capitalize"):
                add(n, f"({text(n.func.value)})", "drop-method")
        elif isinstance(n, ast.BinOp):
            alt = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Mod: "+", ast.BitXor: "|", ast.BitAnd: "|", ast.BitOr: "&", ast.FloorDiv: "*", ast.Pow: "*"}.get(type(n.op))
            if alt and not isinstance(n.left, ast.Constant) and not (isinstance(n.op, ast.BitOr) and "None" in text(n)):
                add(n, f"({text(n.left)} {alt} {text(n.right)})", "arith")
        elif isinstance(n, ast.Return) and n.value is not None and in_func:
            if not (isinstance(n.value, ast.Constant) and n.value.value is None):
                add(n, "return None", "return-none")
        if in_func and isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Assert, ast.Continue, ast.Break)) and not skip(n):
            add(n, "pass", "delete-" + type(n).__name__.lower())
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                visit(n.value, in_func)
            return
        for c in ast.iter_child_nodes(n):
            if isinstance(n, ast.arguments) or isinstance(c, (ast.arguments, ast.expr_context)):
                continue
            if isinstance(n, (ast.JoinedStr,)):
                if isinstance(c, ast.FormattedValue):
                    pass
                continue
            visit(c, in_func)
    visit(tree, False)
    good = []
    for s, e, new, line, what in out:
        m = (b[:s] + new.encode() + b[e:])
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        good.append((line, what, b[s:e].decode(), new, m))
    return good


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-w", type=int, default=3)
    ap.add_argument("-j", type=int, default=4)
    ap.add_argument("-s", type=float, default=1.0)
    ap.add_argument("-o", default="/tmp/mutants.jsonl")
    ap.add_argument("files", nargs="*")
    a = ap.parse_args()
    jobs = []
    rng = random.Random(5)
    for f in a.files:
        src = subprocess.run(["git", "-C", REPO, "show", "HEAD:" + f], capture_output=True, text=True, check=True).stdout
        ms = [m for m in mutants(src) if rng.random() < a.s]
        jobs += [(f, m) for m in ms]
    print(len(jobs), "changes", flush=True)
    rng.shuffle(jobs)
    pool = Queue()
    base = tempfile.mkdtemp(prefix="mut-")
    for k in range(a.w):
        d = os.path.join(base, str(k))
        os.makedirs(d)
        subprocess.run(f"git -C {REPO} archive HEAD src binary | tar x -C {d}", shell=True, check=True)
        pool.put(d)
    o = open(a.o, "a")

    def one(job):
        f, (line, what, old, new, data) = job
        d = pool.get()
        p = os.path.join(d, f)
        orig = open(p, "rb").read()
        open(p, "wb").write(data)
        env = dict(os.environ, VERIF_REPO=d, VERIF_JOBS=str(a.j), VERIF_STOP="1", VERIF_EVID=os.path.join(d, "evid"), VERIF_BUDGET="300")
        res = None
        inc = []
        try:
            for c in (CHECKS.get(f) or CHECKS["samm"]).split():
                try:
                    r = subprocess.run(["timeout", "-k", "5", "400", "./check", c], cwd=V, env=env, capture_output=True, text=True)
                except Exception as e:
                    inc.append(str(e))
                    continue
                if r.returncode == 1:
                    res = c
                    break
                if r.returncode:
                    inc.append(f"{c}:{r.returncode}")
        finally:
            open(p, "wb").write(orig)
            pool.put(d)
        o.write(json.dumps({"file": f, "line": line, "what": what, "old": old, "new": new, "killed": res, "inconclusive": inc}) + "\n")
        o.flush()
    with ThreadPoolExecutor(a.w) as ex:
        list(ex.map(one, jobs))
    shutil.rmtree(base)


main()
