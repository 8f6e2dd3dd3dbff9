"""Random user type trees (structs, nested branches and structs, references)."""
from __future__ import annotations

import gen
import ref

BR = ["A", "AB", "B", "Geo", "GeoX"]
ST = ["S", "SX", "S1", "Pos", "PosX", "Point", "Item"]
PR = ["x", "y", "Value", "Name", "Lat", "IsOk", "Items", "S", "count"]


def lookup(name, fqn, structs):
    """The struct a property fqn sees under a short or full name (None: none)."""
    if name in structs:
        return name
    if "." in name:
        return None
    ns = fqn.rsplit(".", 1)[0]
    while True:
        cand = f"{ns}.{name}"
        if cand in structs and not (fqn == cand or fqn.startswith(cand + ".")):
            return cand
        if "." not in ns:
            return None
        ns = ns.rsplit(".", 1)[0]


def resolve_dt(dt, fqn, structs):
    arr = dt.endswith("[]")
    base = dt[:-2] if arr else dt
    if base in ref.SCALARS or base == "numeric":
        return dt
    s = lookup(base, fqn, structs)
    return None if s is None else s + ("[]" if arr else "")


def skeleton(rng, root="Types", nested_structs=0.2, nmax=6, st=ST, br=BR):
    """{fqn: 'branch'|'struct'}"""
    t = {root: "branch"}
    for _ in range(rng.randint(1, nmax)):
        par = rng.choice(list(t))
        if t[par] == "struct":
            if rng.random() > nested_structs:
                continue
            kind = "struct"
        else:
            kind = rng.choice(["branch", "struct", "struct"]) if par.count(".") < 3 else "struct"
        f = f"{par}.{rng.choice(st if kind == 'struct' else br)}"
        if f not in t:
            t[f] = kind
    if "struct" not in t.values():
        t[f"{root}.S"] = "struct"
    return t


def acyclic(structs_order, f, target):
    return structs_order.index(target) < structs_order.index(f)


def types(rng, o, root="Types", refs=0.4, nested_structs=0.2, short=0.5, nmax=6):
    """(nodes {fqn: attrs} with the names as written, {fqn: full datatype})"""
    sk = skeleton(rng, root, nested_structs, nmax, getattr(o, "struct_names", ST), getattr(o, "type_branches", BR))
    structs = [f for f, k in sk.items() if k == "struct"]
    nodes, full = {}, {}
    for f, k in sk.items():
        nodes[f] = gen.decorate(rng, o, {"type": k})
    for f in structs:
        for _ in range(rng.randint(1, 4)):
            p = f"{f}.{rng.choice(getattr(o, "prop_names", PR))}"
            if p in nodes:
                continue
            a = None
            if rng.random() < refs:
                # a struct may use the ones before it, so that no type contains itself
                c = [s for s in structs if acyclic(structs, f, s) and not f.startswith(s + ".") and not s.startswith(f + ".")]
                if c:
                    s = rng.choice(c)
                    name = s
                    sh = s.rsplit(".", 1)[-1]
                    if rng.random() < short and lookup(sh, p, structs) == s:
                        name = sh
                    arr = "[]" if rng.random() < 0.35 else ""
                    a = {"type": "property", "datatype": name + arr}
                    if arr and rng.random() < 0.3:
                        a["arraysize"] = 3
                    full[p] = s + arr
            if a is None:
                a = gen.leaf_attrs(rng, o, dt=rng.choice(ref.SCALARS) + ("[]" if rng.random() < o.arrays else ""), typ="property")
                full[p] = a["datatype"]
            nodes[p] = gen.decorate(rng, o, a)
    return nodes, full, structs


def resolved(nodes, full):
    out = {}
    for f, a in nodes.items():
        a = dict(a)
        if f in full:
            a["datatype"] = full[f]
        out[f] = a
    return out
