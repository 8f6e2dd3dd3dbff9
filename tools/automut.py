#!/opt/venv/bin/python
"""automut.py: mechanical changes of the sources (one per mutant), tried like those of hand.py.

automut.py gen FILE... [--seed S] [--n N]  prints how many mutants there are
automut.py run OUT [--seed S] [--n N] [-w W] [-j J] [--files GLOB]
"""
import argparse, ast, fnmatch, glob, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "src/vss_tools/vspec/"
X = B + "vssexporters/"
FILES = {B + "vspec.py": "C01 C02", B + "tree.py": "C03 C04 C06 C10 C29 C09", B + "model.py": "C05 C03 C08 C11 C12", B + "datatypes.py": "C05 C08 C09", B + "main.py": "C06 C08 C09 C10 C07 C32 C34 C29 C28",
         B + "units_quantities.py": "C08 C34", B + "utils/vss2id_val.py": "C19", B + "utils/idgen_utils.py": "C18 C19", B + "utils/misc.py": "C13 C21 C15", B + "lazy_group.py": "C32", B + "cli_options.py": "C32",
         X + "vss2id.py": "C18 C19 C28", X + "vss2json.py": "C11 C33", X + "vss2yaml.py": "C12", X + "vss2csv.py": "C13", X + "vss2tree.py": "C13", X + "vss2jsonschema.py": "C14", X + "vss2binary.py": "C15 C33",
         X + "vss2protobuf.py": "C20 C27", X + "vss2graphql.py": "C21", X + "vss2go.py": "C22", X + "vss2ddsidl.py": "C23", X + "vss2apigear.py": "C24", X + "vss2franca.py": "C26",
         X + "vss2samm/vss2samm.py": "C25", X + "vss2samm/helpers/*.py": "C25",
         "binary/c_parser/*.c": "C16 C31", "binary/go_parser/*.go": "C17 C31", "binary/go_parser/*/*.go": "C17 C31"}
CMP = {ast.Eq: ("!=",), ast.NotEq: ("==",), ast.Lt: ("<=", ">"), ast.LtE: ("<",), ast.Gt: (">=",), ast.GtE: (">",), ast.In: ("not in",), ast.NotIn: ("in",), ast.Is: ("is not",), ast.IsNot: ("is",)}


def mutants(path):
    """[(start, end, text, what)] of character offsets"""
    src = open(path).read()
    tree = ast.parse(src)
    starts = [0]
    for line in src.splitlines(True):
        starts.append(starts[-1] + len(line.encode()))
    data = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return data[a:b].decode()
    out = []

    def put(n, new, what):
        a, b = span(n)
        out.append((a, b, new, f"{n.lineno} {what}: {text(n)[:60]!r} -> {new[:60]!r}"))

    def logs(n):
        t = text(n)
        return t.startswith(("log.", "print("))

    def visit(n, infn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            body = n.body[1:] if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else n.body
            for c in body:
                visit(c, infn or isinstance(n, ast.FunctionDef))
            return
        if isinstance(n, ast.Expr) and logs(n):
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                visit(n.value, infn)
            return
        if isinstance(n, ast.Raise):
            put(n, "pass", "no raise")
            return
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            put(n.test, f"(not ({text(n.test)}))", "negate")
            if isinstance(n, ast.If):
                put(n.test, "False", "never")
                put(n.test, f"(True or {text(n.test)})", "always")
        if isinstance(n, ast.BoolOp):
            for j, v in enumerate(n.values):
                rest = [text(w) for k, w in enumerate(n.values) if k != j]
                op = " and " if isinstance(n.op, ast.And) else " or "
                put(n, "(" + op.join(rest) + ")", "drop operand")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, text(n.operand), "drop not")
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for c in CMP.get(type(n.ops[0]), ()):
                put(n, f"({text(n.left)} {c} {text(n.comparators[0])})", "compare")
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                put(n, str(not n.value), "const")
            elif isinstance(n.value, int):
                put(n, str(n.value + 1), "const")
                if n.value > 0:
                    put(n, str(n.value - 1), "const")
            elif isinstance(n.value, str) and infn and not text(n).startswith(("f", '"""')):
                if n.value and len(n.value) < 20:
                    put(n, '""', "const")
        if isinstance(n, ast.BinOp):
            if isinstance(n.op, ast.Add):
                put(n, text(n.left), "drop right")
                put(n, text(n.right), "drop left")
            elif isinstance(n.op, ast.Sub):
                put(n, f"({text(n.left)} + {text(n.right)})", "plus")
        if isinstance(n, ast.Call):
            if n.keywords and infn:
                for k in n.keywords:
                    a, b = span(k)
                    e = b
                    while data[e:e + 1] in (b",", b" ", b"\n"):
                        e += 1
                    out.append((a, e, "", f"{n.lineno} drop keyword: {text(k)[:60]!r}"))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("strip", "lower", "upper", "replace", "lstrip", "rstrip", "copy", "removesuffix", "removeprefix"):
                put(n, text(n.func.value), "drop call")
            if isinstance(n.func, ast.Name) and n.func.id in ("sorted", "reversed", "list", "set", "escape", "str", "deepcopy") and n.args:
                put(n, text(n.args[0]), "drop call")
        if isinstance(n, ast.comprehension):
            for f in n.ifs:
                put(f, "True", "no filter")
        if isinstance(n, (ast.List, ast.Set, ast.Tuple)) and len(n.elts) > 1 and isinstance(n.ctx if hasattr(n, "ctx") else ast.Load(), ast.Load):
            for e in n.elts:
                a, b = span(e)
                z = b
                while data[z:z + 1] in (b",", b" ", b"\n"):
                    z += 1
                out.append((a, z, "", f"{e.lineno} drop element: {text(e)[:60]!r}"))
        if isinstance(n, ast.Dict) and len(n.keys) > 1:
            for k, v in zip(n.keys, n.values):
                if k is None:
                    continue
                a, b = span(k)[0], span(v)[1]
                z = b
                while data[z:z + 1] in (b",", b" ", b"\n"):
                    z += 1
                out.append((a, z, "", f"{k.lineno} drop entry: {text(k)[:60]!r}"))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and infn:
            put(n, "pass", "drop statement")
        if isinstance(n, (ast.AugAssign, ast.Continue, ast.Break, ast.Delete)) and infn:
            put(n, "pass", "drop statement")
        if isinstance(n, ast.Assign) and infn and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            put(n, "pass", "drop statement")
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            put(n.value, "None", "return None")
        for f, v in ast.iter_fields(n):
            if f in ("annotation", "returns", "decorator_list"):
                continue
            for c in v if isinstance(v, list) else [v]:
                if isinstance(c, ast.AST):
                    visit(c, infn)
    for c in tree.body:
        visit(c, False)
    ok = []
    for a, b, new, what in out:
        t = (data[:a] + new.encode() + data[b:]).decode()
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        if t != src:
            ok.append((t, what))
    return ok


SWAP = [(r"==", "!="), (r"!=", "=="), (r"<=", "<"), (r">=", ">"), (r"<(?![=<-])", "<="), (r"(?<![->])>(?![=>])", ">="), (r"&&", "||"), (r"\|\|", "&&"),
        (r"\+\+", "--"), (r"(?<!\+)\+(?![+=])", "-"), (r"(?<!-)-(?![-=>])", "+"), (r"\+=", "-="), (r"\*(?= )", "+")]


def text_mutants(path):
    """The same for C and Go, line by line"""
    lines = open(path).read().split("\n")
    ok, comment = [], False
    for j, line in enumerate(lines):
        code = line.strip()
        if comment or code.startswith("/*"):
            comment = "*/" not in code
            continue
        if not code or code.startswith(("//", "#", "import", "package", "typedef", "printf(", "fmt.Print", "*")):
            continue

        def put(new, what):
            ok.append(("\n".join(lines[:j] + [new] + lines[j + 1:]), f"{j + 1} {what}: {code[:70]!r} -> {new.strip()[:70]!r}"))
        masked = re.sub(r'"(?:\\.|[^"\\])*"|//.*$', lambda m: "\x00" * len(m.group()), line)
        for rx, new in SWAP:
            for m in re.finditer(rx, masked):
                put(line[:m.start()] + new + line[m.end():], "operator")
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", masked):
            for d in (1, -1):
                if int(m.group()) + d >= 0:
                    put(line[:m.start()] + str(int(m.group()) + d) + line[m.end():], "const")
        if path.endswith(".go"):
            m = re.match(r"^(\s*(?:} else )?if )(.*?)( ?{.*)$", line)
            if m and ";" not in m.group(2):
                put(f"{m.group(1)}!({m.group(2).strip()}) {m.group(3)}", "negate")
            if re.match(r"^[\w.\[\]]+(\(.*\)| = .*|\+\+)$", code):
                put("", "drop statement")
        else:
            m = re.match(r"^(\s*(?:} ?else )?(?:if|while) ?)\((.*)\)([^)]*)$", line)
            if m:
                put(f"{m.group(1)}(!({m.group(2)})){m.group(3)}", "negate")
            if code.endswith(";") and not re.match(r"^(int|char|u?int\d*_t|FILE|bool|unsigned|struct|\w+_t|return)\b", code):
                put(re.match(r"\s*", line).group() + ";", "drop statement")
    return ok


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("mode")
    ap.add_argument("out", nargs="?")
    ap.add_argument("--files", default="*")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--n", type=int, default=10 ** 6)
    ap.add_argument("-w", type=int, default=2)
    ap.add_argument("-j", type=int, default=4)
    ap.add_argument("--notest", action="store_true")
    ap.add_argument("--skip", type=int, default=0)
    a = ap.parse_args()
    todo = []
    for f, checks in [(os.path.relpath(g, "/repo"), c) for f, c in FILES.items() for g in sorted(glob.glob(os.path.join("/repo", f)))]:
        if not fnmatch.fnmatch(f, a.files):
            continue
        ms = (mutants if f.endswith(".py") else text_mutants)(os.path.join("/repo", f))
        if a.mode == "gen":
            print(len(ms), f)
        todo += [(f, checks, t, w) for t, w in ms]
    random.Random(a.seed).shuffle(todo)
    if a.mode == "gen":
        print(len(todo))
        return
    todo = todo[:a.n]
    base = tempfile.mkdtemp(prefix="hand-")
    pool = Queue()
    for k in range(a.w):
        d = os.path.join(base, str(k))
        os.makedirs(d)
        subprocess.run(f"git -C /repo archive HEAD | tar x -C {d}", shell=True, check=True)
        pool.put(d)
    log = open(a.out, "a")

    def one(j):
        f, checks, t, w = todo[j]
        d = pool.get()
        p = os.path.join(d, f)
        orig = open(p).read()
        t0 = time.time()
        try:
            open(p, "w").write(t)
            env = dict(os.environ, VERIF_REPO=d, VERIF_JOBS=str(a.j), VERIF_STOP="1", VERIF_EVID=os.path.join(d, "evid"))
            res, hit = [], ""
            for c in checks.split():
                r = subprocess.run(["timeout", "600", "./check", c], cwd=V, env=env, capture_output=True, text=True)
                res.append(r.returncode)
                if r.returncode == 1:
                    hit = c
                    break
            tests = ""
            if not hit and not a.notest:
                r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "tests", "--ignore", "tests/backward_compatibility", "-p", "no:cacheprovider"], cwd=d,
                                   env=dict(env, PYTHONPATH=os.path.join(d, "src"), PYTHONDONTWRITEBYTECODE="1", PATH="/opt/venv/bin:" + os.environ["PATH"]), capture_output=True, text=True)
                tests = (r.stdout.strip().splitlines() or ["?"])[-1]
            log.write(f"#{j} {'caught ' + hit if hit else 'MISSED ' + str(res)} {f} {w} [{time.time() - t0:.0f}s] {tests}\n")
            log.flush()
        except Exception as e:
            log.write(f"#{j} error {e}\n")
            log.flush()
        finally:
            open(p, "w").write(orig)
            pool.put(d)
    with ThreadPoolExecutor(a.w) as ex:
        list(ex.map(one, range(a.skip, len(todo))))
    shutil.rmtree(base)


main()
