"""C14: the JSON schema accepts conforming documents and rejects others."""
import json
import os
import subprocess

import gen
import jschema
import ref
from checks.c11 import tokens
from common import *
from world import World, uuid5

N_QUICK, N_THOROUGH = 700, 7000
RULE = ("Random models (ranges, enumerations and arrays of every datatype, falsy bounds and defaults, structs, instances, overlays, extra "
        "attributes) exported as JSON schema under every option combination. Oracle 1: the schema mirrors the reference tree. Oracle 2: a "
        "validator written here decides documents built from the model: full and partial conforming ones must validate, each with one "
        "injected fault (wrong type, out of range, not enumerated, missing or extra member where the options forbid it) must not. A sample of "
        "decisions is repeated with the jsonschema library. Non-trivial: more than two nodes; distinct by model and options.")
NEED = {"conforming_documents": 1000, "faulty_documents": 1000}


JT = {"boolean": "boolean", "string": "string", "float": "number", "double": "number", "numeric": "number", **{k: "integer" for k in ref.INT_RANGE}}


def base_of(a):
    d = a["datatype"]
    return (d[:-2], True) if d.endswith("[]") else (d, False)


def scalar(rng, a, base):
    """A value the model permits."""
    if a.get("allowed"):
        return rng.choice(a["allowed"])
    lo, hi = ref.INT_RANGE.get(base, (-1e6, 1e6))
    mn, mx = a.get("min"), a.get("max")
    if base in ref.INT_RANGE:
        lo = max(lo, mn) if mn is not None else lo
        hi = min(hi, mx) if mx is not None else hi
        if lo > hi:
            return None
        return rng.choice([int(lo), int(hi), rng.randint(int(lo), int(hi))])
    if base in ("float", "double", "numeric"):
        if mn is not None and mx is not None:
            return rng.choice([mn, mx, (mn + mx) / 2])
        if mn is not None:
            return rng.choice([mn, mn + 1.5])
        if mx is not None:
            return rng.choice([mx, mx - 1.5])
        return rng.choice([0, 0.0, -1.5, 7])
    if base == "boolean":
        return rng.random() < 0.5
    return rng.choice(["", "x", "\u65e5", "true", "0"])


def value(rng, a):
    base, arr = base_of(a)
    if base not in JT:
        return [] if arr else {}
    if not arr:
        return scalar(rng, a, base)
    n = a.get("arraysize") or rng.randint(1, 3)
    v = [scalar(rng, a, base) for _ in range(n)]
    return None if None in v else v


def document(rng, n, full):
    d = {}
    for k, c in n.kids.items():
        if not full and rng.random() < 0.3:
            continue
        if c.attrs["type"] in ("branch", "struct"):
            d[k] = document(rng, c, full)
        else:
            v = value(rng, c.attrs)
            if v is None:
                return None
            d[k] = v
    if None in d.values():
        return None
    return d


def bad_scalars(a, base):
    out = []
    if base in ref.INT_RANGE:
        out += ["x", 1.5, True, None, {}]
    elif base in ("float", "double", "numeric"):
        out += ["1.5", False, None, []]
    elif base == "boolean":
        out += ["true", 0, 1, None]
    else:
        out += [0, True, None, ["x"]]
    if a.get("min") is not None:
        out.append(a["min"] - 1)
    if a.get("max") is not None:
        out.append(a["max"] + 1)
    if a.get("allowed"):
        if base == "string":
            out += [a["allowed"][0] + "~x", ""] if "" not in a["allowed"] else ["~nope"]
        else:
            out.append(max(a["allowed"]) + 1)
    # huge floats do not move by one
    return [v for v in out if not (isinstance(v, float) and (v == a.get("min") or v == a.get("max")))]


def put(doc, path, v):
    for k in path[:-1]:
        doc = doc[k]
    doc[path[-1]] = v


def mirror(case, s, n, fqn, o):
    """Structure and annotations of one schema object against one reference node."""
    a = n.attrs
    where = {"node": fqn, "schema": {k: v for k, v in s.items() if k != "properties"}}
    if not case.check(isinstance(s, dict), "schema-not-object", where):
        return
    exp = {"description": a["description"]}
    leaf = "datatype" in a
    inner = exp
    if leaf:
        base, arr = base_of(a)
        if base in JT:
            exp["type"] = "array" if arr else JT[base]
        else:
            exp["type"] = "array" if arr else "object"
        cons = {}
        for k, x in (("min", "minimum"), ("max", "maximum"), ("allowed", "enum")):
            if a.get(k) is not None and a.get(k) != []:
                cons[x] = a[k]
        if cons:
            if arr:
                exp["items"] = cons
            else:
                exp.update(cons)
        if a.get("default") is not None:
            exp["default"] = a["default"]
    if o["all"]:
        exp["x-VSStype"] = a["type"]
        for k in ("datatype", "deprecation", "unit", "comment"):
            if a.get(k):
                exp["x-" + k] = a[k]
        if o["uuid"] and not o["types"]:
            exp["x-uuid"] = uuid5(fqn)
    for k, v in ref.exported(a, None if o["all"] else o["wl"], o["expand"]).items():
        if k not in ref.exported(a, set(), o["expand"]):
            exp[k] = v
    if not leaf:
        if o["closed"]:
            exp["additionalProperties"] = False
        if o["required"]:
            case.check(sorted(s.get("required", [])) == sorted(n.kids), "required-list", where)
    got = {k: v for k, v in s.items() if k not in ("properties", "$schema", "title", "x-ComplexDataTypes")}
    if not leaf and o["required"]:
        got.pop("required", None)
    if a["type"] in ("branch", "struct"):
        case.check(got.pop("type", "object") == "object", "branch-type", where)
    if isinstance(got.get("items"), dict) and leaf and base_of(a)[1]:
        # element type and size may be stated, if right
        it = dict(got["items"])
        t = it.pop("type", None)
        if t is not None:
            case.check(t == JT.get(base_of(a)[0], "object"), "items-type", where)
        if it:
            got["items"] = it
        else:
            got.pop("items")
    for k in ("minItems", "maxItems"):
        if k in got and "arraysize" in a:
            case.check(got.pop(k) == a["arraysize"], "items-size", where)
    if o["all"] and o["uuid"] and o["types"]:
        got.pop("x-uuid", None)
    d = diff({fqn: exp}, {fqn: got})
    case.count("nodes_compared")
    case.check(not d, "node:" + diffkind(d), lambda: {"diff": d})
    props = s.get("properties", {})
    if leaf:
        case.check("properties" not in s, "leaf-has-properties", where)
        return
    if case.check(set(props) == set(n.kids), "children", lambda: {"node": fqn, "schema": sorted(props), "model": sorted(n.kids)}):
        for k, c in n.kids.items():
            mirror(case, props[k], c, f"{fqn}.{k}", o)


def random_case(case, i):
    rng = case.rng
    w = World(case, extras=rng.choice([0, 0.3]), types=0.3, type_extras=0.4, uuid=0.2, minmax=0.4, allowed=0.35, arrays=0.3, numeric=0.03,
              hostile=0.15)
    wl = rng.choice([None, set(), set(rng.sample(w.o.extra_names, 2))])
    white = w.type_extra | (wl or set())
    wl = wl if wl is None else white
    o = {"all": wl is None, "wl": wl, "uuid": w.uuid, "closed": rng.random() < 0.5, "required": rng.random() < 0.5, "types": False, "expand": True}
    args = list(w.args) + (["--extend-all-attributes"] if wl is None else []) + [x for e in sorted(white) for x in ("-e", e)]
    if o["closed"]:
        args.append("--no-additional-properties")
    if o["required"]:
        args.append("--require-all-properties")
    pretty = rng.random() < 0.3
    case.note = {"args": args, "nodes": len(w.flat)}
    case.state("all", wl is None, "closed", o["closed"], "required", o["required"], "types", w.types is not None, "expand", w.expand)
    r = case.export("jsonschema", *args, "-o", "out.json")
    if not case.check(r.ok, "rejected", r.brief):
        return
    text = case.read("out.json")
    try:
        s = load_json(text)
    except ValueError as e:
        case.fail("invalid-json", {"error": str(e), "text": text[:500]})
        return
    if pretty:
        r = case.export("jsonschema", *args, "--pretty", "-o", "p.json")
        if case.check(r.ok, "pretty-rejected", r.brief):
            case.check(tokens(case.read("p.json")) == tokens(text), "pretty-differs", lambda: {"compact": text[:800]})
    case.check(s.get("title") == w.root.name and s.get("type") == "object", "head", {"title": s.get("title"), "type": s.get("type")})
    mirror(case, s, w.root, w.root.name, o)
    if w.types is not None and wl is None:
        ts = s.get("x-ComplexDataTypes")
        if case.check(isinstance(ts, dict) and len(ts) == 1, "types-missing", {"keys": list(s)}):
            tr = ref.to_tree(w.types)
            mirror(case, ts.get(tr.name, {}), tr, tr.name, {**o, "types": True})
    if case.bad:
        return
    # documents
    good = document(rng, w.root, True)
    if good is None:
        return
    decisions = []

    def decide(doc, want, what, ctx=None):
        e = jschema.errors(s, doc)
        case.count("conforming_documents" if want else "faulty_documents")
        decisions.append((doc, want))
        case.check((not e) == want, what, lambda: {"errors": e[:3], "document": str(doc)[:1500], "fault": ctx, "args": args})
    decide(good, True, "conforming-rejected")
    part = document(rng, w.root, False)
    if part is not None:
        missing = any(k not in d for d, n in pairs(part, w.root) for k in n.kids)
        decide(part, not (missing and o["required"]), "partial-document", "members missing")
    leaves = [f for f, n in w.leaves.items()]
    rng.shuffle(leaves)
    for f in leaves[:6]:
        a = w.leaves[f].attrs
        base, arr = base_of(a)
        path = f.split(".")[1:]
        doc = json.loads(json.dumps(good))
        if base not in JT:
            bad = rng.choice([5, "x", None, {}] if arr else [5, "x", None, []])
        else:
            c = bad_scalars(a, base)
            bad = rng.choice(c[-2:] + c)
            if arr:
                if rng.random() < 0.3 or not any(k in a for k in ("min", "max", "allowed")):
                    bad = rng.choice([5, "x", None, {}])
                else:
                    lim = [v for v in c if isinstance(v, (int, float)) and not isinstance(v, bool)] if not a.get("allowed") else c
                    lim = [v for v in lim if (a.get("min") is not None and v < a["min"]) or (a.get("max") is not None and v > a["max"])
                           or (a.get("allowed") and not any(jschema.jeq(v, z) for z in a["allowed"]))]
                    if not lim:
                        continue
                    bad = value(rng, a) + [rng.choice(lim)]
        put(doc, path, bad)
        decide(doc, False, "faulty-accepted", {"leaf": f, "attrs": a, "value": bad})
    b = rng.choice(list(w.branches))
    doc = json.loads(json.dumps(good))
    put(doc, b.split(".")[1:] + ["NotInModel"], 1)
    decide(doc, not o["closed"], "extra-member", {"branch": b})
    if leaves:
        doc = json.loads(json.dumps(good))
        cur = doc
        p = leaves[0].split(".")[1:]
        for k in p[:-1]:
            cur = cur[k]
        del cur[p[-1]]
        decide(doc, not o["required"], "missing-member", {"leaf": leaves[0]})
    if i % 50 == 0:
        library(case, s, decisions)


def pairs(doc, n):
    yield doc, n
    for k, c in n.kids.items():
        if k in doc and c.attrs["type"] == "branch":
            yield from pairs(doc[k], c)


SCRIPT = """import json,sys,jsonschema
for line in sys.stdin:
    s, docs = json.loads(line)
    v = jsonschema.Draft202012Validator(s)
    print(json.dumps([v.is_valid(d) for d in docs]))
"""


def library(case, s, decisions):
    py = "/opt/veriftools/pyvenv/bin/python"
    if not os.path.exists(py):
        return
    p = subprocess.run([py, "-c", SCRIPT], input=json.dumps([s, [d for d, _ in decisions]]) + "\n", capture_output=True, text=True, timeout=120)
    if p.returncode:
        if "No module named" in p.stderr:
            return
        case.fail("library-error", {"stderr": p.stderr[-800:]})
        return
    res = json.loads(p.stdout)
    case.count("library_decisions", len(res))
    for (d, want), got in zip(decisions, res):
        case.check(got == want, "library-disagrees", lambda: {"document": str(d)[:1000], "expected": want})


def _leafdoc(nodes_doc, sig):
    def run(case):
        for j, (a, goods, bads) in enumerate(nodes_doc):
            case.write("m.vspec", gen.file_text({"V": {"type": "branch", "description": "d"}, "V.S": {"type": "sensor", "description": "d", **a}}))
            r = case.export("jsonschema", "-s", "m.vspec", "-o", f"s{j}.json")
            if not case.check(r.ok, sig + "-rejected", lambda: {"attrs": a, **r.brief()}):
                continue
            s = load_json(case.read(f"s{j}.json"))
            for g in goods:
                case.check(not jschema.errors(s, {"S": g}), sig + "-good-rejected", {"attrs": a, "value": g})
            for b in bads:
                case.check(jschema.errors(s, {"S": b}), sig + "-bad-accepted", {"attrs": a, "value": b})
            if "default" in a:
                case.check(same(s["properties"]["S"].get("default"), a["default"]), sig + "-default", {"attrs": a, "schema": s["properties"]["S"]})
        case.sig, case.nontrivial, case.note = sig, True, f"{len(nodes_doc)} leaves"
    return run


PROBES = {
    "bounds": _leafdoc([
        ({"datatype": "int8", "min": 0}, [0, 127], [-1, "0"]),
        ({"datatype": "int8", "max": 0}, [0, -128], [1]),
        ({"datatype": "float", "min": 0.0, "max": 0.0}, [0, 0.0], [0.1, -0.1]),
        ({"datatype": "uint64", "max": 2**64 - 1, "min": 2**64 - 2}, [2**64 - 1, 2**64 - 2], [2**64 - 3, 2**64]),
        ({"datatype": "int8[]", "min": 0, "max": 3}, [[0], [3, 1], []], [[-1], [0, 4], 1]),
    ], "bounds"),
    "enums": _leafdoc([
        ({"datatype": "string", "allowed": ["", "a"]}, ["", "a"], ["b", 0]),
        ({"datatype": "int8", "allowed": [0]}, [0], [1, False]),
        ({"datatype": "string[]", "allowed": ["a", "b"]}, [["a"], ["b", "a"]], [["c"], ["a", "c"], "a"]),
        ({"datatype": "float", "allowed": [0.5, 1]}, [0.5, 1], [2]),
    ], "enums"),
    "defaults": _leafdoc([
        ({"datatype": "int8", "default": 0}, [0], []), ({"datatype": "boolean", "default": False}, [False], [0]),
        ({"datatype": "string", "default": ""}, [""], []), ({"datatype": "float", "default": 0.0}, [0.0], []),
        ({"datatype": "uint8[]", "default": [0]}, [[0]], []), ({"datatype": "string", "default": "x"}, ["x"], []),
    ], "defaults"),
}
