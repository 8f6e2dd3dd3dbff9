"""C21: the GraphQL schema is valid and covers exactly the tree."""
import ref
from common import *
from core import Skip
from world import World

TECHNIQUE = "runtime monitoring: generated schema built and validated by a GraphQL implementation, walked against the reference tree"
N_QUICK, N_THOROUGH = 700, 10000
RULE = ("Random models with hostile descriptions and deprecations, instances, overlays, empty branches, units, arrays and names whose camel-back forms are close, with and without extra fields, are "
        "exported; graphql-core parses, builds and validates the schema, and a walk from Query.vehicle checks type per node, fields per branch, value type, timestamp, unit and extra fields, "
        "descriptions and deprecations. Distinct by model and options.")
NEED = {"types_compared": 8000, "leaves_compared": 5000, "extra_fields": 1000, "deprecated": 100, "empty_branches": 20}
G = {"int8": "Int", "uint8": "Int", "int16": "Int", "uint16": "Int", "int32": "Int", "uint32": "Float", "int64": "Float", "uint64": "Float", "float": "Float", "double": "Float",
     "boolean": "Boolean", "string": "String"}


def key(s):
    return s.lower().replace("_", "")


def has_leaf(n):
    return n.attrs["type"] != "branch" or any(has_leaf(k) for k in n.kids.values())


def walk(case, t, fqn, n, extra, seen):
    """t: GraphQL object type of node n."""
    case.count("types_compared")
    case.check(t.name == fqn.replace(".", "_"), "type-name", lambda: {"node": fqn, "type": t.name})
    case.check(t.name not in seen, "type-shared", lambda: {"node": fqn, "type": t.name})
    seen.add(t.name)
    case.check((t.description or "") == n.attrs["description"], "type-description", lambda: {"node": fqn, "got": t.description, "expected": n.attrs["description"]})
    a = n.attrs
    dep = a.get("deprecation")

    def common_field(f, prefix, want_type):
        case.check(str(f.type) == want_type, "field-type", lambda: {"node": fqn, "type": str(f.type), "expected": want_type})
        case.check((f.description or "") == prefix + a["description"], "field-description", lambda: {"node": fqn, "got": f.description, "expected": prefix + a["description"]})
        case.check((f.deprecation_reason or None) == (dep or None), "field-deprecation", lambda: {"node": fqn, "got": f.deprecation_reason, "expected": dep})
        case.count("deprecated", bool(dep))
    if a["type"] != "branch":
        case.count("leaves_compared")
        want = {"value": ("Value: ", G[a["datatype"].replace("[]", "")]), "timestamp": ("Timestamp: ", "String")}
        if a["datatype"].endswith("[]"):
            want["value"] = ("Value: ", f"[{want['value'][1]}]")
        for k, d in extra:
            want[k] = (f" {d}: ", "String")
            case.count("extra_fields")
        if a.get("unit"):
            want["unit"] = ("Unit of ", "String")
        case.check(t.fields.keys() == want.keys(), "leaf-fields", lambda: {"node": fqn, "got": sorted(t.fields), "expected": sorted(want)})
        for k in want.keys() & t.fields.keys():
            common_field(t.fields[k], *want[k])
        return
    kids = {key(k): k for k, c in n.kids.items() if has_leaf(c)}
    case.count("empty_branches", sum(not has_leaf(c) for c in n.kids.values()))
    got = {key(f): f for f in t.fields}
    case.check(len(got) == len(t.fields) and len(kids) == sum(has_leaf(c) for c in n.kids.values()) and got.keys() == kids.keys(), "branch-fields",
               lambda: {"node": fqn, "missing": sorted(kids.keys() - got.keys())[:6], "extra": sorted(got.keys() - kids.keys())[:6]})
    for k in kids.keys() & got.keys():
        f, c = t.fields[got[k]], n.kids[kids[k]]
        case.check(got[k][0].islower() or not kids[k][0].isupper(), "field-case", lambda: {"node": fqn, "field": got[k]})
        case.check((f.description or "") == c.attrs["description"], "field-description", lambda: {"node": fqn, "field": got[k], "got": f.description})
        case.check((f.deprecation_reason or None) == (c.attrs.get("deprecation") or None), "field-deprecation", lambda: {"node": fqn, "field": got[k], "got": f.deprecation_reason})
        walk(case, f.type, f"{fqn}.{kids[k]}", c, extra, seen)


def judge(case, text, w, extra):
    from graphql import GraphQLObjectType, build_schema, validate_schema
    try:
        s = build_schema(text)
        errs = validate_schema(s)
    except Exception as e:
        case.fail("invalid-schema", {"error": str(e)[:600]})
        return
    if not case.check(not errs, "schema-errors", lambda: {"errors": [str(e)[:200] for e in errs[:4]]}):
        return
    q = s.query_type
    if not case.check(q is not None and list(q.fields) == ["vehicle"], "query", lambda: {"query": str(q and list(q.fields))}):
        return
    v = q.fields["vehicle"]
    case.check({k: str(a.type) for k, a in v.args.items()} == {"id": "String!", "after": "String"}, "query-arguments", lambda: {k: str(a.type) for k, a in v.args.items()})
    seen = set()
    walk(case, v.type, w.root.name, w.root, extra, seen)
    objs = {n for n, t in s.type_map.items() if isinstance(t, GraphQLObjectType) and not n.startswith("__")} - {"Query"}
    case.check(objs == seen, "unreached-types", lambda: {"extra": sorted(objs - seen)[:5]})


def random_case(case, i):
    rng = case.rng
    w = World(case, types=0, expand=True, hostile=rng.choice([0.3, 0.9]), deprecation=rng.choice([0.1, 0.4]), empty_branch=rng.choice([0.05, 0.6]))
    if not has_leaf(w.root):
        raise Skip("no leaf")
    extra, opts = [], []
    for k, d in rng.sample([("source", "Source System"), ("privacy", "Privacy"), ("q1", "quality, of the value"), ("x_y", "it's \"quoted\""), ("dev", "a\\b")], rng.choice([0, 0, 1, 2])):
        extra.append((k, d))
        opts += [rng.choice(["-g", "--gql-fields"]), f"{k},{d}"]
    case.note = {"args": w.args + opts, "nodes": len(w.flat)}
    r = case.export("graphql", *w.args, *opts, "-o", "o.graphql")
    if not case.check(r.ok, "rejected", lambda: r.brief()):
        return
    judge(case, case.read("o.graphql"), w, extra)


def probe_case_names(case):
    """Siblings whose field names coincide: never one silently in place of the other."""
    for a, b in [("HVACUnit", "HvacUnit"), ("AbsOn", "ABSOn"), ("Ab", "AB")]:
        case.write("m.vspec", f"V:\n  type: branch\n  description: d\nV.{a}:\n  type: sensor\n  datatype: uint8\n  description: first\nV.{b}:\n  type: sensor\n  datatype: string\n  description: second\n")
        if case.exists("o.graphql"):
            import os
            os.unlink(case.path("o.graphql"))
        r = case.export("graphql", "-s", "m.vspec", "-o", "o.graphql")
        case.count("types_compared", 2)
        if r.ok:
            from graphql import build_schema
            t = build_schema(case.read("o.graphql")).type_map["V"]
            case.check(sorted(str(f.type) for f in t.fields.values()) == sorted([f"V_{a}", f"V_{b}"]), "sibling-lost", lambda: {"names": [a, b], "fields": {k: str(f.type) for k, f in t.fields.items()}})
        else:
            case.check(not case.exists("o.graphql"), "collision-wrote", lambda: r.brief())
    case.sig, case.nontrivial, case.note = "case-names", True, "siblings equal up to case"


PROBES = {"case-names": probe_case_names}
