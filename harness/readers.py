"""One reader per export format: which nodes does an output contain, under which path, how often.

Every reader returns (leaves, branches, all): Counters of paths; None where the format does not tell.
Formats with mangled names are walked by the model's paths, so a mangled name only counts for a path if it is
exactly that path's name.
"""
import json
import os
import re
from collections import Counter

import binfmt
import proto
from common import load_json, load_yaml, json_flat, read_csv


class Unreadable(Exception):
    pass


def _split(types):
    """{path: type} pairs -> Counters."""
    le, br = Counter(), Counter()
    for f, t in types:
        (br if t == "branch" else le)[f] += 1
    return le, br, le + br


def json_(case, out, w):
    flat, problems = json_flat(load_json(case.read(out)))
    if problems:
        raise Unreadable(problems[:3])
    return _split((f, a.get("type")) for f, a in flat.items())


def yaml_(case, out, w):
    return _split((f, a.get("type")) for f, a in load_yaml(case.read(out)).items() if f != "ComplexDataTypes")


def csv_(case, out, w):
    rows = read_csv(case.read(out))
    types = w.types or {}
    # a types table may follow in the same file
    return _split((r[0], r[1]) for r in rows[1:] if r[0] not in types)


def tree_(case, out, w):
    from checks.c13 import tree_parse
    le = Counter(f for f, _ in tree_parse(case.read(out).rstrip("\n"), {w.root.name} | ({f for f in w.types if "." not in f} if w.types else set()), []))
    for f in w.types or ():
        le.pop(f, None)
    return None, None, le


def franca_(case, out, w):
    from checks import c26
    _, entries = c26.parse(case.read(out))
    return _split([(w.root.name, "branch")] + [(e["name"], e["type"]) for e in entries])


def binary_(case, out, w):
    with open(case.path(out), "rb") as f:
        return _split((f, n["type"]) for f, n in binfmt.walk(binfmt.decode(f.read())))


def jsonschema_(case, out, w):
    doc = load_json(case.read(out))
    allc = Counter()

    def rec(s, fqn):
        allc[fqn] += 1
        # the properties of a struct belong to the type, not to the tree
        for k, c in s.get("properties", {}).items():
            rec(c, f"{fqn}.{k}")
    rec(doc, doc.get("title"))
    return None, None, allc


def id_(case, out, w):
    return _split((f, a.get("type")) for f, a in load_yaml(case.read(out)).items())


def graphql_(case, out, w):
    from graphql import build_schema
    v = build_schema(case.read(out)).query_type.fields["vehicle"].type
    le, br = Counter(), Counter()
    back = {f.replace(".", "_"): f for f in w.flat}

    def rec(t):
        f = back.get(t.name, t.name)
        if "timestamp" in t.fields and "value" in t.fields and str(t.fields["timestamp"].type) == "String":
            le[f] += 1
            return
        br[f] += 1
        for x in t.fields.values():
            rec(x.type)
    rec(v)
    return le, br, le + br


def protobuf_(case, out, w):
    files = {"": proto.parse(case.read(out))}
    root = case.path(out + ".types")
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.relpath(os.path.join(d, f), root)
            files[p] = proto.parse(open(os.path.join(d, f), encoding="utf-8").read())
    msgs = proto.link(files, "")
    le, br = Counter(), Counter()
    basic = {"uint32", "uint64", "int32", "int64", "bool", "float", "double", "string"}

    def rec(name, fqn):
        br[fqn] += 1
        for _, t, f, _ in msgs[name]:
            if t in basic or t in (w.types or {}):
                le[f"{fqn}.{f}"] += 1
            else:
                rec(t, f"{fqn}.{f}")
    rec(w.root.name, w.root.name)
    return le, br, le + br


def ddsidl_(case, out, w):
    from idl import Idl
    types = {tuple(f.split(".")) for f in w.types or ()}
    return Counter(".".join(p) for p in Idl(case.read(out)).structs if p not in types), None, None


def go_(case, out, w):
    from checks import c22
    src = c22.parse(case, out)
    if src["errors"]:
        raise Unreadable(src["errors"][:3])
    T = src["types"]
    le, br = Counter(), Counter()
    basic = set(c22.MAP.values())

    def rec(t, fqn, n):
        br[fqn] += 1
        for m in T[t]:
            name = m["name"]
            f = f"{fqn}.{name}"
            kid = n.kids.get(name) if n is not None else None
            if m["type"].removeprefix("[]") in basic or kid is None or kid.attrs["type"] != "branch":
                le[f] += 1
            else:
                rec(m["type"], f, kid)
    rec(w.root.name, w.root.name, w.root)
    return le, br, le + br


def apigear_(case, out, w):
    m = load_yaml(case.read(f"{out}/{w.root.name}.module.yaml"))
    le = Counter()
    dep = lambda f: f + ("_Deprecated" if w.flat[f].attrs.get("deprecation") else "")  # noqa: E731
    back = {dep(f).replace(".", "_"): f for f in w.branches}
    last = {(f.rsplit(".", 1)[0], dep(f).rsplit(".", 1)[1]): f for f in w.leaves if "." in f}
    for i in m.get("interfaces") or []:
        b = back.get(i["name"], i["name"])
        for p in i["properties"]:
            le[last.get((b, p["name"]), f"{b}.{p['name']}")] += 1
    return le, None, None


READ = {k[:-1]: f for k, f in globals().items() if k.endswith("_") and not k.startswith("_") and callable(f)}
TYPES = {"json", "yaml", "csv", "tree", "jsonschema", "id", "protobuf", "ddsidl", "go", "apigear"}   # take -t
EXPAND = {"json", "yaml", "csv", "tree", "jsonschema", "id"}   # take --no-expand
UUID = {"json", "yaml", "csv", "tree", "jsonschema", "id", "binary", "franca", "ddsidl", "apigear"}
EXT = {"json": "json", "yaml": "yaml", "csv": "csv", "tree": "txt", "jsonschema": "schema.json", "id": "ids.yaml", "protobuf": "proto", "ddsidl": "idl", "go": "go", "apigear": "apigear",
       "franca": "fidl", "binary": "bin", "graphql": "graphql"}


def out_args(fmt, out, types):
    if fmt == "apigear":
        return ["--output-dir", out]
    if fmt == "protobuf" and types:
        return ["-o", out, "--types-out-dir", out + ".types"]
    return ["-o", out]
