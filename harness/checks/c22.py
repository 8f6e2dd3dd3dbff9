"""C22: the Go source type-checks and mirrors the tree, instances sharing their struct."""
import json
import os
import shutil
import subprocess

import gen
import ref
import typegen
from common import *
from core import Inconclusive
from world import World

TECHNIQUE = "runtime monitoring: generated Go source parsed and type-checked by the Go compiler's front end, walked against the reference tree"
N_QUICK, N_THOROUGH = 1000, 10000
RULE = ("Random models with nested and overridden instances, struct types over several branches, close and colliding joined names, Go keywords as property names, lower-case names and empty branches are exported with "
        "and without short names and package option; the source is parsed and type-checked with go/types and walked from the root struct: members per child, mapped types, slices, shared structs, and the exact "
        "number of struct types. Distinct by model and options.")
NEED = {"branches_compared": 6000, "members_compared": 15000, "instances_shared": 1000, "user_structs": 400, "slices": 1500, "overridden_instances": 10}
MAP = {**{t: t for t in ref.INT_RANGE}, "float": "float32", "double": "float64", "string": "string", "boolean": "bool", "numeric": "float64"}
GO_KW = {"break", "default", "func", "interface", "select", "case", "defer", "go", "map", "struct", "chan", "else", "goto", "package", "switch", "const", "fallthrough", "if", "range", "type", "continue", "for",
         "import", "return", "var"}
PROPS = ["type", "range", "map", "func", "string", "int8", "x", "y", "Value", "len", "S", "go"]
BIN = []


def setup(scratch, tier):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    d = os.path.join(scratch, "goast")
    shutil.copytree(os.path.join(here, "native", "goast"), d)
    with open(os.path.join(d, "go.mod"), "w") as f:
        f.write("module goast\n\ngo 1.20\n")
    env = dict(os.environ, GOFLAGS="-mod=mod -buildvcs=false", GOPROXY="off", GOTOOLCHAIN="local", HOME=scratch)
    p = subprocess.run(["go", "build", "-o", os.path.join(scratch, "goast.bin"), "."], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if p.returncode:
        raise Inconclusive(f"the Go helper does not compile: {p.stdout[-2000:]}")
    BIN.append(os.path.join(scratch, "goast.bin"))


def parse(case, path):
    p = subprocess.run([BIN[0], path], cwd=case.dir, env={"PATH": os.environ["PATH"], "GOMAXPROCS": "1"}, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    if p.returncode:
        raise Inconclusive("Go helper failed: " + p.stderr.decode()[-500:])
    return json.loads(p.stdout)


def gotype(dt):
    """(is slice, Go type or struct fqn)"""
    arr = dt.endswith("[]")
    base = dt.replace("[]", "")
    return arr, MAP.get(base, base)


def fieldname(n):
    return n + "_" if n in GO_KW else n


class Shapes:
    """Name without instances and structure of every branch: equal ones may share a struct."""

    def __init__(self, root):
        self.key = {}
        self.number = {}
        self.inst = 0
        self.walk(root.name, root, root.name, 0)

    def walk(self, fqn, n, base, depth):
        members = []
        for k, c in sorted(n.kids.items()):
            if c.attrs["type"] != "branch":
                members.append((k, c.attrs["datatype"]))
            elif c.instance:
                self.inst += 1
                members.append((k, self.walk(f"{fqn}.{k}", c, base, depth + 1)))
            else:
                members.append((k, self.walk(f"{fqn}.{k}", c, f"{base}.{k}", 0)))
        name = base + (f".I{depth}" if depth else "")
        # numbers stand for whole subtrees
        key = (name, self.number.setdefault((name, tuple(members)), len(self.number)))
        self.key[fqn] = key
        return key


def judge(case, src, w, pkg):
    if not case.check(not src["errors"], "does-not-compile", lambda: {"errors": src["errors"][:5]}):
        return
    case.check(src["package"] == pkg, "package", lambda: {"got": src["package"], "expected": pkg})
    case.check(src["other"] == 0, "other-declarations", lambda: src["other"])
    T = src["types"]
    shapes = Shapes(w.root)
    used = {}    # Go type -> shape
    byshape = {}  # shape -> Go type
    structs = {}  # user struct fqn -> Go type

    def use_struct(fqn, t, where):
        if fqn in structs:
            case.check(structs[fqn] == t, "struct-two-types", lambda: {"struct": fqn, "types": [structs[fqn], t]})
            return
        structs[fqn] = t
        if not case.check(t in T, "type-missing", lambda: {"type": t, "at": where}):
            return
        case.check(t not in used, "type-shared", lambda: {"type": t, "by": [fqn, used.get(t)]})
        used[t] = fqn
        case.count("user_structs")
        want = {fieldname(f.rsplit(".", 1)[-1]): a["datatype"] for f, a in w.types.items() if f.rsplit(".", 1)[0] == fqn and a["type"] == "property"}
        compare(fqn, t, want)

    def leaf(where, got, dt):
        arr, base = gotype(dt)
        case.count("slices", arr)
        g = got
        case.check(g.startswith("[]") == arr, "slice", lambda: {"member": where, "type": got, "datatype": dt})
        g = g.removeprefix("[]")
        if base in MAP.values():
            case.check(g == base, "member-type", lambda: {"member": where, "type": got, "datatype": dt})
        else:
            use_struct(base, g, where)

    def compare(fqn, t, want):
        got = {x["name"]: x["type"] for x in T[t]}
        case.count("members_compared", len(want))
        case.check(got.keys() == want.keys() and len(T[t]) == len(want), "members", lambda: {"of": fqn, "type": t, "missing": sorted(want.keys() - got.keys())[:5], "extra": sorted(got.keys() - want.keys())[:5]})
        for k in want.keys() & got.keys():
            if want[k] is not None:
                leaf(f"{fqn}.{k}", got[k], want[k])
        return got

    def walk(fqn, n, t):
        case.count("branches_compared")
        if not case.check(t in T, "type-missing", lambda: {"type": t, "at": fqn}):
            return
        sh = shapes.key[fqn]
        case.check(used.setdefault(t, sh) == sh, "type-shared", lambda: {"type": t, "by": [fqn, used[t]]})
        case.check(byshape.setdefault(sh, t) == t, "instances-not-shared", lambda: {"node": fqn, "types": [byshape[sh], t]})
        got = compare(fqn, t, {fieldname(k): None if c.attrs["type"] == "branch" else c.attrs["datatype"] for k, c in n.kids.items()})
        for k, c in n.kids.items():
            if c.attrs["type"] == "branch" and fieldname(k) in got:
                walk(f"{fqn}.{k}", c, got[fieldname(k)])
    walk(w.root.name, w.root, w.root.name if w.root.name in T else (src["order"] or [""])[0])
    for f, a in (w.types or {}).items():
        if a["type"] == "struct" and f not in structs:
            rest = [t for t in T if t not in used and "".join(f.split(".")).endswith(t.removesuffix("_"))]
            if case.check(len(rest) >= 1, "struct-missing", lambda: {"struct": f}):
                use_struct(f, max(rest, key=len), f)
    case.check(set(used) == set(T), "unused-types", lambda: {"unused": sorted(set(T) - set(used))[:5]})
    case.count("instances_shared", len(shapes.key) - len(byshape))
    names = [k[0] for k in byshape]
    case.count("overridden_instances", len(names) - len(set(names)))


def random_case(case, i):
    rng = case.rng
    kw = rng.random() < 0.3
    reserved = {}
    if rng.random() < 0.25:
        # branches and structs whose short name is predeclared or a keyword
        reserved["names"] = ["string", "main", "init", "type", "bool", "float32", "int8", "uint64", "func", "go", "A", "B", "Door", "IsOpen", "Speed", "Left"]
        if rng.random() < 0.5:
            reserved["struct_names"] = ["bool", "float64", "init", "S", "Pos", "range", "main"]
        if rng.random() < 0.5:
            reserved["roots"] = ["main", "init", "string", "int8", "type", "func", "uint", "bool"]
        case.count("predeclared_names")
    w = World(case, types=0.5, expand=True, overlays=0.5, inst_over=0.7, nested_structs=0.0, instances=rng.choice([0, 0.4, 0.7]), hostile=0.1, empty_branch=rng.choice([0.05, 0.3]), max_nodes=rng.choice([8, 16, 30]), same_root=0.12,
              prop_names=PROPS if kw else typegen.PR, **reserved)
    opts, pkg = [], "vss"
    if rng.random() < 0.3:
        pkg = rng.choice(["model", "my_pkg", "p1"])
        opts += ["--package", pkg]
    short = rng.random() < 0.6
    if not short:
        opts.append("--no-short-names")
    case.note = {"args": w.args + opts, "nodes": len(w.flat), "structs": len(w.structs)}
    r = case.export("go", *w.args, *opts, "-o", "o.go")
    if not r.ok and w.twice():
        case.count("same_root_collisions")
        case.check("Traceback" not in r.out, "collision-crash", lambda: r.brief())
        case.check(not case.exists("o.go"), "collision-wrote", {})
        return
    if not r.ok and "same Go name" in r.out:
        joined = [f.replace(".", "") for f in w.branches] + [f.replace(".", "") for f, a in (w.types or {}).items() if a["type"] == "struct"]
        case.count("name_collisions")
        case.check(len(joined) != len(set(joined)) or any(x.rsplit(".", 1)[-1].startswith("I") for x in w.branches), "rejected-without-collision", lambda: r.brief())
        case.check(not case.exists("o.go"), "collision-wrote", {})
        return
    if case.check(r.ok, "rejected", lambda: r.brief()):
        judge(case, parse(case, "o.go"), w, pkg)


def leaf(f, dt="uint8"):
    return f"{f}:\n  type: sensor\n  datatype: {dt}\n  description: d\n"


def branch(f, more=""):
    return f"{f}:\n  type: branch\n  description: d\n{more}"


def probe_joined(case):
    """Different branches with the same joined name: never one struct for both."""
    for short in ([], ["--no-short-names"]):
        case.write("m.vspec", branch("V") + branch("V.A") + branch("V.A.BC") + leaf("V.A.BC.X") + branch("V.AB") + branch("V.AB.C") + leaf("V.AB.C.Y", "string"))
        r = case.export("go", "-s", "m.vspec", *short, "-o", "o.go")
        if r.ok:
            src = parse(case, "o.go")
            case.check(not src["errors"], "does-not-compile", lambda: src["errors"][:5])
            case.check(len(src["order"]) == 5, "joined-merged", lambda: src["order"])
        else:
            case.check("Traceback" not in r.out and not case.exists("o.go"), "joined-crash", lambda: r.brief())
    case.sig, case.nontrivial, case.note = "joined", True, "V.A.BC and V.AB.C"


PROBES = {"joined": probe_joined}
