"""C18: static identifiers are unique, stable and depend only on identity fields."""
import os
import re

import gen
import ids
import ref
from common import *
from core import Skip
from world import World

FOREIGN_SHARE = 0.08
TECHNIQUE = "runtime monitoring: independent FNV-1 reference and metamorphic histories over recorded exports"
N_QUICK, N_THOROUGH = 700, 8000
RULE = ("Random models (units, ranges, value lists, arrays, structs, instances, overlays, constUID in upper and lower case, fka as text and list) exported with and without "
        "--case-sensitive and --no-expand. Every entry must hold the independently computed identifier and the node's data; identifiers are 32-bit and unique over the export "
        "in any notation. Metamorphic: the model with other descriptions, comments, statement order and further signals must give the same identifiers. Collisions (equal constUIDs in any case, "
        "a constUID equal to a hash, equal former names, precomputed FNV collisions) must make the export fail without output. Non-trivial: more than two nodes; distinct by model and options.")
NEED = {"ids_compared": 4000, "collisions": 60, "metamorphic": 60}
PAIRS = [("S339198", "S122783"), ("S339598", "S122383"), ("S339192", "S122789"), ("S122788", "S339193"), ("S122389", "S339592"), ("S339199", "S122782")]


def get(case, args, out, what):
    r = case.export("id", *args, "-o", out)
    if not case.check(r.ok, what + "-rejected", r.brief):
        return None
    try:
        return load_yaml(case.read(out))
    except Exception as e:
        case.fail(what + "-malformed", {"error": str(e), "text": case.read(out)[:800]})


def compare(case, doc, exp, what):
    case.check(set(doc) == set(exp), what + "-nodes", lambda: {"missing": sorted(set(exp) - set(doc))[:5], "extra": sorted(set(doc) - set(exp))[:5]})
    for f, e in exp.items():
        g = doc.get(f)
        if g is None:
            continue
        case.count("ids_compared")
        case.check(g.get("staticUID") == e["staticUID"], what + "-uid", lambda: {"node": f, "expected": e, "got": g})
        case.check(same({k: v for k, v in g.items() if k != "staticUID"}, {k: v for k, v in e.items() if k != "staticUID"}), what + "-data", lambda: {"node": f, "expected": e, "got": g})
    seen = {}
    for f, g in doc.items():
        u = str(g.get("staticUID"))
        case.check(re.fullmatch("0x[0-9A-Fa-f]{8}", u), what + "-format", lambda: {"node": f, "uid": u})
        case.check(u.upper() not in seen, what + "-shared", lambda: {"node": f, "other": seen[u.upper()], "uid": u})
        seen[u.upper()] = f


def add_ids(rng, w, cs):
    """An overlay giving some nodes former names or fixed identifiers."""
    ov = {}
    for f in rng.sample(sorted(w.flat), min(len(w.flat), rng.randint(1, 4))):
        if not f.count("."):
            continue
        a = {"type": w.flat[f].attrs["type"]}
        if a["type"] != "branch":
            a["datatype"] = w.flat[f].attrs["datatype"]
        r = rng.random()
        if r < 0.4:
            a["constUID"] = "0x" + "".join(rng.choice("0123456789ABCDEFabcdef") for _ in range(8))
        elif r < 0.7:
            a["fka"] = rng.choice([f + "Old", [f + "Old", f + "Older"], ["Other.Path." + f.rsplit(".", 1)[-1]], f.rsplit(".", 1)[-1] + "Old", f.rsplit(".", 1)[-1], [f.rsplit(".", 1)[-1]], f, [f, f + "Old"]])
        else:
            a["fka"] = [f + "Old%d" % rng.randint(1, 9)]
            a["constUID"] = "0x%08X" % rng.getrandbits(32)
        ov[f] = a
    return ov


def random_case(case, i):
    rng = case.rng
    if i % 5 == 0:
        return collide(case, i)
    w = World(case, types=0.3, hostile=0.3, hostile_values=0.3)
    cs = rng.random() < 0.4
    args = list(w.args) + (["--case-sensitive"] if cs else [])
    flat = {f: dict(n.attrs) for f, n in w.flat.items()}
    if rng.random() < 0.5 and w.expand:
        ov = add_ids(rng, w, cs)
        if ov:
            # the overlay states the whole node, so that nothing else changes
            full = {f: {**{k: v for k, v in flat[f].items() if k not in ("instances", "instantiate", "delete")}, **a} for f, a in ov.items()}
            try:
                flat = {f: dict(n.attrs) for f, n in ref.resolve(w.layers + [full], True).walk()}
            except ref.Bad as e:
                raise Skip(str(e))
            case.write("ids.vspec", gen.file_text({f: a for f, a in full.items()}, (), rng))
            args += ["-l", "ids.vspec"]
            for a in ov.values():
                case.state("ids", "fka" in a, "constUID" in a)
    case.state("expand", w.expand, "cs", cs, "types", w.types is not None)
    case.note = {"args": args, "nodes": len(flat)}
    exp = ids.export(flat, cs)
    col = ids.collisions(exp)
    if col:
        case.count("collisions")
        refuse(case, args, "collision", {"nodes": col[:3]})
        return
    doc = get(case, args, "out.yaml", "id")
    if doc is None:
        return
    compare(case, doc, exp, "id")
    if i % 4 == 1:
        metamorphic(case, w, args, doc)
    elif i % 8 == 2:
        r = case.export("yaml", "-s", "out.yaml", "-e", "staticUID", *w.targs, *w.uargs, "-o", "back.yaml")
        if case.check(r.ok, "reload-rejected", r.brief):
            back = load_yaml(case.read("back.yaml"))
            got = {f: back.get(f, {}).get("staticUID") for f in doc}
            case.check(got == {f: d["staticUID"] for f, d in doc.items()}, "reload-uid", lambda: {"got": got})
            case.count("reloads")


def metamorphic(case, w, args, doc):
    """Same identity fields in another telling: reordered statements, new texts, additional signals."""
    rng = case.rng
    case.count("metamorphic")
    m = {f: dict(a) for f, a in w.layers[0].items()}
    for f, a in m.items():
        a["description"] = gen.text(rng, 0.5)
        a.pop("comment", None)
        if rng.random() < 0.4:
            a["comment"] = gen.text(rng, 0.5)
        if rng.random() < 0.3:
            a["deprecation"] = gen.text(rng)
        it = list(a.items())
        rng.shuffle(it)
        m[f] = dict(it)
    root = next(iter(m))
    order = list(m)
    rng.shuffle(order)
    m = {f: m[f] for f in order}
    for j in range(rng.randint(1, 3)):
        m[f"{root}.Extra{j}"] = gen.decorate(rng, w.o, {"type": "sensor", "datatype": "uint8"})
    case.write("m.vspec", gen.file_text(m, (), rng))
    again = get(case, args, "again.yaml", "metamorphic")
    if again is None:
        return
    a = {f: d["staticUID"] for f, d in doc.items()}
    b = {f: d["staticUID"] for f, d in again.items() if f in a}
    case.check(a == b, "metamorphic-uid", lambda: {"changed": {f: [a[f], b.get(f)] for f in a if a[f] != b.get(f)}})


def refuse(case, args, what, ctx):
    old = case.rng.random() < 0.5
    if old:
        case.write("out.yaml", "previous")
    r = case.export("id", *args, "-o", "out.yaml")
    case.check(r.code != 0, what + "-accepted", lambda: {**ctx, "out": case.read("out.yaml")[:800] if case.exists("out.yaml") else None})
    left = case.read("out.yaml") if case.exists("out.yaml") else None
    case.check(left == ("previous" if old else None), what + "-output", lambda: {**ctx, "left": (left or "")[:300]})


def collide(case, i):
    rng = case.rng
    kind = rng.choice(["const-const", "const-case", "const-hash", "const-hash-case", "fka-fka", "fka-path", "fnv", "fnv-near"])
    s = {"type": "sensor", "datatype": "uint8", "description": "d"}
    x, y = rng.choice(PAIRS)
    nodes = {"V": {"type": "branch", "description": "d"}}
    for j in range(rng.randint(0, 3)):
        nodes[f"V.F{j}"] = dict(s)
    u = "0x%08X" % rng.getrandbits(32)
    while u.upper() == u.lower().replace("0x", "0X").upper() and not any(c in u[2:] for c in "ABCDEF"):
        u = "0x%08X" % rng.getrandbits(32)
    lower = "0x" + u[2:].lower()
    p, q = "V.P", "V.Q" if rng.random() < 0.6 else "V.B.Q"
    bad = True
    if kind == "const-const":
        nodes[p], nodes[q] = dict(s, constUID=u), dict(s, constUID=u)
    elif kind == "const-case":
        nodes[p], nodes[q] = dict(s, constUID=rng.choice([u, lower])), dict(s, constUID=lower)
        if nodes[p]["constUID"] == lower:
            nodes[q]["constUID"] = u
    elif kind.startswith("const-hash"):
        h = ids.hashed(q, s, False)
        nodes[p] = dict(s, constUID=h if kind == "const-hash" else "0x" + h[2:].lower())
        nodes[q] = dict(s)
    elif kind == "fka-fka":
        nodes[p], nodes[q] = dict(s, fka="V.Old"), dict(s, fka=["V.Old", "V.Older"])
    elif kind == "fka-path":
        nodes[p], nodes[q] = dict(s, fka=[q]), dict(s)
    elif kind == "fnv":
        nodes["V." + x], nodes["V." + y] = dict(s), dict(s)
    else:
        # told apart by one identity field
        nodes["V." + x], nodes["V." + y] = dict(s), dict(s, max=1)
        bad = False
    if any(f.startswith("V.B.") for f in nodes):
        nodes["V.B"] = {"type": "branch", "description": "d"}
    rest = list(nodes)[1:]
    rng.shuffle(rest)
    nodes = {f: nodes[f] for f in ["V"] + rest}
    case.write("m.vspec", gen.file_text(nodes, (), rng))
    case.state("collide", kind)
    case.note = {"collision": kind}
    case.sig, case.nontrivial = model_sig([nodes]), True
    exp = ids.export(nodes, False)
    assert bool(ids.collisions(exp)) == bad, kind
    if bad:
        case.count("collisions")
        refuse(case, ["-s", "m.vspec"], "collision-" + kind, {"nodes": ids.collisions(exp)})
    else:
        doc = get(case, ["-s", "m.vspec"], "out.yaml", "near")
        if doc is not None:
            compare(case, doc, exp, "near")


def probe_fields(case):
    """Each identity field changes the identifier, no other one does."""
    base = {"type": "sensor", "datatype": "uint8", "description": "d"}
    ident = [{"type": "actuator"}, {"datatype": "uint16"}, {"unit": "km"}, {"min": 0}, {"max": 0}, {"allowed": [0]}, {"allowed": [0, 1]}, {"min": 1}, {"fka": "V.T"}, {"constUID": "0x00000001"}]
    other = [{"description": "e"}, {"comment": "c"}, {"deprecation": "x"}, {"default": 0}, {"x-ext": 1}]
    uargs = gen.units_files(case)
    uids = {}
    for j, ch in enumerate([{}] + ident + other):
        nodes = {"V": {"type": "branch", "description": "d"}, "V.S": {**base, **ch}}
        case.write("m.vspec", gen.file_text(nodes))
        doc = get(case, ["-s", "m.vspec", *uargs], f"o{j}.yaml", "fields")
        if doc is not None:
            compare(case, doc, ids.export(nodes, False), "fields")
            uids[j] = doc["V.S"]["staticUID"]
    n = len(ident)
    case.check(len({uids.get(j) for j in range(n + 1)}) == n + 1, "fields-ignored", {"uids": uids})
    case.check(all(uids.get(n + 1 + j) == uids.get(0) for j in range(len(other))), "fields-extra", {"uids": uids})
    case.sig, case.nontrivial, case.note = "fields", True, uids


def probe_large(case):
    """A model of many signals: all identifiers, and two equal ones far apart."""
    nodes = {"V": {"type": "branch", "description": "d"}}
    for j in range(1500):
        nodes[f"V.S{j}"] = {"type": "sensor", "datatype": "uint8", "description": "d"}
    case.write("m.vspec", gen.file_text(nodes))
    doc = get(case, ["-s", "m.vspec"], "o.yaml", "large")
    if doc is not None:
        compare(case, doc, ids.export(nodes, False), "large")
    for j, (a, b) in enumerate([(0, 1499), (3, 700), (800, 1400)]):
        for k in (a, b):
            nodes[f"V.S{k}"]["constUID"] = "0x0000000A"
        case.write("m.vspec", gen.file_text(nodes))
        if case.exists("out.yaml"):
            os.unlink(case.path("out.yaml"))
        refuse(case, ["-s", "m.vspec"], "collision-far", {"nodes": [a, b]})
        for k in (a, b):
            del nodes[f"V.S{k}"]["constUID"]
    case.sig, case.nontrivial, case.note = "large", True, "1500 signals"


PROBES = {"fields": probe_fields, "large": probe_large}
