"""C24: the ApiGear module defines every type it refers to, once, and mirrors branches, leaves, structs and enumerations."""
import os
import re

import gen
import ref
from common import *
from world import World

TECHNIQUE = "runtime monitoring: reference mapping and closure monitor over generated module and solution files"
N_QUICK, N_THOROUGH = 700, 10000
RULE = ("Random models with enumerations (of strings and numbers, arrays), arrays, struct types over several branches, deprecated leaves, branches and structs, instances and overlays are exported with "
        "random template options into a new directory; the YAML is loaded and interfaces, properties, types, array marks, descriptions, enumerations and structs compared with a reference mapping, "
        "all type names must resolve and be unique; every eighth case has nodes whose joined names coincide (to be refused) or nearly do, or values alike but for punctuation. Distinct by model and options.")
NEED = {"interfaces_compared": 1500, "properties_compared": 4000, "enums_compared": 400, "structs_compared": 200, "references_resolved": 400, "deprecated_structs": 5, "clashes_refused": 30, "alike_values": 100}
BASIC = {**{t: "int32" for t in ("int8", "uint8", "int16", "uint16", "int32", "uint32")}, "int64": "int64", "uint64": "int64", "float": "float32", "double": "float64", "boolean": "bool", "string": "string"}
LAYERS = [("unreal", "unreal", "apigear-io/template-unreal"), ("cpp", "cpp", "apigear-io/template-cpp14"), ("qt5", "qt5", "apigear-io/template-qt5"), ("qt6", "qt6", "apigear-io/template-qtcpp")]
NUMBER_SHARE = 0.08


def norm(s):
    return re.sub(r"[^A-Za-z0-9]", "", str(s))


def as_int(v):
    try:
        return int(str(v), 0)
    except ValueError:
        return None


def tname(f, a):
    return f.replace(".", "_") + ("_Deprecated" if a.get("deprecation") else "")


def pname(f, a):
    return f.rsplit(".", 1)[-1] + ("_Deprecated" if a.get("deprecation") else "")


def field(case, where, f, a, got, defs, types, enums):
    """One property or struct field against the node it comes from."""
    case.count("properties_compared")
    desc = a["description"] or None
    case.check(got.get("description") == desc, f"{where}-description", lambda: {"node": f, "got": got, "expected": desc})
    arr = a["datatype"].endswith("[]")
    base = a["datatype"].replace("[]", "")
    t = got.get("type")
    if a.get("allowed") and where == "property":
        case.count("references_resolved")
        case.check(t in defs["enum"], "enum-reference", lambda: {"node": f, "type": t})
        enums[f] = t
        return
    case.check(bool(got.get("array", False)) == arr, f"{where}-array", lambda: {"node": f, "got": got, "datatype": a["datatype"]})
    if base in BASIC:
        case.check(t == BASIC[base], f"{where}-type", lambda: {"node": f, "type": t, "datatype": a["datatype"]})
    else:
        case.count("references_resolved")
        case.check(t in defs["struct"], f"{where}-struct-reference", lambda: {"node": f, "type": t, "structs": sorted(defs["struct"])})
        case.check(t in (base.replace(".", "_"), tname(base, types[base])), f"{where}-struct-target", lambda: {"node": f, "type": t, "datatype": base})


def leaf(allowed=None, dt="string", **kw):
    return {"type": "sensor", "datatype": dt, "description": "d", **({"allowed": allowed} if allowed else {}), **kw}


def clashing(case, i):
    """Nodes whose ApiGear names coincide are refused; alike values of one enumeration all stay apart."""
    rng = case.rng
    b = {"type": "branch", "description": "d"}
    kind = rng.choice(["values", "values", "interfaces", "enums", "enum-interface", "deprecated", "structs", "near"])
    m, types = {"V": b, "V.Z": leaf()}, None
    x, y = rng.choice(["A", "Row1", "Dr"]), rng.choice(["B", "Left", "X9"])
    j, dot = f"V.{x}_{y}", f"V.{x}.{y}"
    if kind == "values":
        base = rng.sample(["a", "b", "1", "x9", "on"], rng.randint(1, 3))
        al = []
        for v in [v + s + e for v in base for s in (" ", "-", "_", ".", "+", "/", "_") for e in ("", "c", "_")] + ["d" + v for v in base] + ["-", "+", "_", "--", "1", "d1", "0x1", "01"]:
            if v not in al and rng.random() < 0.35:
                al.append(v)
        rng.shuffle(al)
        m["V.Z"] = leaf(al or ["a b", "a-b", "a_b"])
    elif kind == "interfaces":
        m.update({j: b, j + ".L": leaf(), f"V.{x}": b, dot: b, dot + ".K": leaf()})
    elif kind == "enums":
        m.update({j: leaf(["a", "b"]), f"V.{x}": b, dot: leaf(["c"])})
    elif kind == "enum-interface":
        m.update({f"V.{x}": leaf(["a", "b"]), f"V.{x}_Value": b, f"V.{x}_Value.L": leaf()})
    elif kind == "deprecated":
        m.update({f"V.{x}": {**b, "deprecation": "V1 gone"}, f"V.{x}.L": leaf(), f"V.{x}_Deprecated": b, f"V.{x}_Deprecated.L": leaf()})
    elif kind == "structs":
        types = {"T": b, f"T.{x}_{y}": {"type": "struct", "description": "d"}, f"T.{x}_{y}.P": dict(leaf(), type="property"), f"T.{x}": b,
                 f"T.{x}.{y}": {"type": "struct", "description": "d"}, f"T.{x}.{y}.P": dict(leaf(), type="property")}
    else:
        # names that only nearly coincide, and a branch without leaves of its own, which becomes no interface
        m.update({j: b, j + ".In": b, j + ".In.L": leaf(["a"]), f"V.{x}": b, dot: b, dot + ".K": leaf(), f"V.{x}.{y}x": leaf(["a"]), f"V.{x}_{y}y": leaf(["a"])})
    case.write("m.vspec", gen.file_text(m))
    case.write("quantities.yaml", "")
    case.write("units.yaml", "")
    args = ["-s", "m.vspec"]
    if types:
        case.write("t.vspec", gen.file_text(types))
        args += ["-t", "t.vspec"]
    case.sig, case.nontrivial, case.note = (kind, x, y, tuple(map(str, m["V.Z"].get("allowed", [])))), True, {"clash": kind}
    r = case.export("apigear", *args, "--output-dir", "out")
    case.state("clash", kind)
    if kind not in ("values", "near"):
        case.count("clashes_refused")
        case.check(r.code != 0 and "Traceback" not in r.out, "clash-accepted:" + kind, lambda: r.brief())
        case.check(not case.exists("out") or not os.listdir(case.path("out")), "clash-wrote", {"kind": kind})
        return
    if not case.check(r.ok, "rejected", lambda: r.brief()):
        return
    d = load_yaml(case.read("out/V.module.yaml"))
    names = [n["name"] for k in ("interfaces", "enums", "structs") for n in d.get(k) or []]
    case.check(len(names) == len(set(names)), "defined-twice", lambda: {"names": names})
    if kind == "values":
        case.count("alike_values", len(al))
        ns = [z["name"] for z in d["enums"][0]["members"]]
        case.check(len(ns) == len(m["V.Z"]["allowed"]) == len(set(ns)) and all(re.fullmatch(r"[A-Za-z_]\w*", str(z), re.A) for z in ns), "enum-member-name", lambda: {"allowed": m["V.Z"]["allowed"], "names": ns})
    else:
        want = {"V": ["Z", f"{x}_{y}y"], f"V_{x}_{y}_In": ["L"], f"V_{x}": [f"{y}x"], f"V_{x}_{y}": ["K"]}
        got = {n["name"]: [q["name"] for q in n["properties"]] for n in d["interfaces"]}
        case.check(got == want, "interfaces", lambda: {"got": got, "expected": want})


def random_case(case, i):
    rng = case.rng
    if i % 8 == 3:
        return clashing(case, i)
    w = World(case, types=0.5, expand=True, nested_structs=0.0, hostile=0.4, hostile_values=rng.choice([0, 0.4]), deprecation=rng.choice([0, 0.3]), allowed=0.4, same_root=0.12)
    if w.types and any(a.get("deprecation") for a in w.types.values() if a["type"] == "struct"):
        case.count("deprecated_structs")
    opts, want_layers = [], []
    for name, opt, tpl in LAYERS:
        if rng.random() < 0.4:
            p = rng.choice(["./" + name, name, "gen_" + name])
            opts += [f"--apigear-template-{opt}-path", p]
            want_layers.append((name, tpl, os.path.normpath(p)))
    if not want_layers:
        want_layers = [("cpp", "apigear-io/template-cpp14", "cppservice")]
    case.note = {"args": w.args + opts, "leaves": len(w.leaves), "structs": len(w.structs)}
    out = rng.choice(["out", "a/b/out"])
    r = case.export("apigear", *w.args, *opts, "--output-dir", out)
    if not r.ok and w.twice():
        case.count("name_collisions")
        case.check("Traceback" not in r.out, "collision-crash", lambda: r.brief())
        case.check(not case.exists(out) or not os.listdir(case.path(out)), "collision-wrote", {})
        return
    if not case.check(r.ok, "rejected", lambda: r.brief()):
        return
    case.count("same_root_accepted", w.same_root)
    root = w.root.name
    files = sorted(os.listdir(case.path(out)))
    if not case.check(files == sorted([f"{root}.module.yaml", f"{root}.solution.yaml"]), "files", {"files": files}):
        return
    try:
        m = load_yaml(case.read(f"{out}/{root}.module.yaml"))
        s = load_yaml(case.read(f"{out}/{root}.solution.yaml"))
    except Exception as e:
        case.fail("invalid-yaml", {"error": str(e)[:500]})
        return
    got_layers = [(x.get("name"), x.get("template"), os.path.normpath(str(x.get("output")))) for x in s.get("layers", [])]
    case.check(got_layers == want_layers and all(x.get("inputs") == [f"{root}.module.yaml"] for x in s["layers"]), "solution", lambda: {"got": s, "expected": want_layers})
    case.check(str(m.get("schema", "")).startswith("apigear.module/") and m.get("name") == root, "module-head", lambda: {k: v for k, v in m.items() if isinstance(v, str)})
    inter, enums, structs = m.get("interfaces") or [], m.get("enums") or [], m.get("structs") or []
    names = [x["name"] for x in inter + enums + structs]
    case.check(len(names) == len(set(names)), "defined-twice", lambda: {"twice": sorted({n for n in names if names.count(n) > 1})[:5]})
    for x in inter + structs:
        ns = [p["name"] for p in x.get("properties", x.get("fields", []))]
        case.check(len(ns) == len(set(ns)), "member-twice", lambda: {"in": x["name"], "names": ns})
    defs = {"enum": {x["name"] for x in enums}, "struct": {x["name"] for x in structs}}
    # interfaces
    flat = {f: n.attrs for f, n in w.flat.items()}
    kids = {}
    for f, a in flat.items():
        if "." in f and a["type"] != "branch":
            kids.setdefault(f.rsplit(".", 1)[0], []).append(f)
    want = {tname(b, flat[b]): b for b in kids}
    got = {x["name"]: x for x in inter}
    case.check(want.keys() == got.keys(), "interfaces", lambda: {"missing": sorted(want.keys() - got.keys())[:5], "extra": sorted(got.keys() - want.keys())[:5]})
    used = {}
    for n in want.keys() & got.keys():
        case.count("interfaces_compared")
        ps = {p["name"]: p for p in got[n]["properties"]}
        wp = {pname(f, flat[f]): f for f in kids[want[n]]}
        case.check(ps.keys() == wp.keys(), "properties", lambda: {"interface": n, "missing": sorted(wp.keys() - ps.keys())[:5], "extra": sorted(ps.keys() - wp.keys())[:5]})
        for p in ps.keys() & wp.keys():
            field(case, "property", wp[p], flat[wp[p]], ps[p], defs, w.types or {}, used)
    # enumerations
    by = {x["name"]: x for x in enums}
    case.check(len(by) == len(used) and set(used.values()) == set(by), "enums", lambda: {"unused": sorted(set(by) - set(used.values()))[:5], "shared": len(used) - len(set(used.values()))})
    for f, t in used.items():
        if t not in by:
            continue
        case.count("enums_compared")
        al = flat[f]["allowed"]
        mem = by[t]["members"]
        ok = len(mem) == len(al) and all(norm(x["name"]) in (norm(v), "d" + norm(v)) for x, v in zip(mem, al))
        case.check(ok, "enum-members", lambda: {"node": f, "allowed": al, "members": mem})
        ns = [str(x["name"]) for x in mem]
        case.check(all(re.fullmatch(r"[A-Za-z_]\w*", x, re.A) for x in ns) and len(set(ns)) == len(ns), "enum-member-name", lambda: {"node": f, "members": mem})
        bad = [(v, x) for x, v in zip(mem, al) if "value" in x and x["value"] != as_int(v)]
        if flat[f]["datatype"].replace("[]", "") in ref.INT_RANGE:
            bad += [(v, x) for x, v in zip(mem, al) if "value" not in x]
        case.check(not bad, "enum-value", lambda: {"node": f, "bad": bad[:5]})
    # structs
    want = {tname(f, a): f for f, a in (w.types or {}).items() if a["type"] == "struct"}
    got = {x["name"]: x for x in structs}
    case.check(want.keys() == got.keys(), "structs", lambda: {"missing": sorted(want.keys() - got.keys())[:5], "extra": sorted(got.keys() - want.keys())[:5]})
    for n in want.keys() & got.keys():
        case.count("structs_compared")
        f = want[n]
        fs = {p["name"]: p for p in got[n]["fields"]}
        wp = {pname(g, a): g for g, a in w.types.items() if g.startswith(f + ".") and a["type"] == "property"}
        case.check(fs.keys() == wp.keys(), "fields", lambda: {"struct": n, "missing": sorted(wp.keys() - fs.keys())[:5], "extra": sorted(fs.keys() - wp.keys())[:5]})
        for p in fs.keys() & wp.keys():
            field(case, "field", wp[p], w.types[wp[p]], fs[p], defs, w.types, {})


def probe_array_enum(case):
    """A signal that is an array of enumerated values is an array of the enumeration."""
    m = {"V": {"type": "branch", "description": "d"}}
    for t in ("string", "string[]", "uint8", "uint8[]"):
        m["V." + t.replace("[]", "List").capitalize()] = {"type": "sensor", "datatype": t, "description": "d", "allowed": [1, 2] if t[0] == "u" else ["a", "b"]}
    case.write("m.vspec", gen.file_text(m))
    case.write("quantities.yaml", "")
    case.write("units.yaml", "")
    r = case.export("apigear", "-s", "m.vspec", "--output-dir", "out")
    case.sig, case.nontrivial, case.note = "array-enum", True, "allowed values of arrays"
    if not case.check(r.ok, "rejected", lambda: r.brief()):
        return
    d = load_yaml(case.read("out/V.module.yaml"))
    ps = {p["name"]: p for p in d["interfaces"][0]["properties"]}
    for f, a in m.items():
        if "." in f:
            case.count("properties_compared")
            p = ps.get(f[2:], {})
            case.check(bool(p.get("array", False)) == a["datatype"].endswith("[]"), "enum-array:" + a["datatype"], lambda: {"node": f, "got": p})


PROBES = {"array-enum": probe_array_enum}
