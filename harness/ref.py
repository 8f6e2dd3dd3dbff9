"""Reference model of what a specification means.

Written from the documentation of vss-tools (docs/vspec.md, docs/vspec_arch.md,
the VSS rule set it points to) and kept independent of the code: it works on the
structured form the generators produce, never on files, and shares nothing with
/repo/src.
"""
from __future__ import annotations

import math
import copy
import re

# ---------------------------------------------------------------- types
INT_RANGE = {
    "uint8": (0, 2**8 - 1), "int8": (-(2**7), 2**7 - 1),
    "uint16": (0, 2**16 - 1), "int16": (-(2**15), 2**15 - 1),
    "uint32": (0, 2**32 - 1), "int32": (-(2**31), 2**31 - 1),
    "uint64": (0, 2**64 - 1), "int64": (-(2**63), 2**63 - 1),
}
SCALARS = list(INT_RANGE) + ["boolean", "float", "double", "string"]
NARROWER = {
    "uint8": {"uint8"}, "int8": {"int8"},
    "uint16": {"uint16", "uint8"}, "int16": {"int16", "int8"},
    "uint32": {"uint32", "uint16", "uint8"}, "int32": {"int32", "int16", "int8"},
    "uint64": {"uint64", "uint32", "uint16", "uint8"}, "int64": {"int64", "int32", "int16", "int8"},
    "boolean": {"boolean"}, "float": {"float"}, "double": {"double"}, "string": {"string"},
    "numeric": set(INT_RANGE) | {"float", "double", "numeric"},
}
CORE_ALL = {"type", "description", "comment", "deprecation", "constUID", "fka"}
HIDDEN = {"delete", "instantiate", "arraysize", "aggregate"}


def value_fits(v, dt):
    """Is v a value of the scalar datatype dt?"""
    if dt in INT_RANGE:
        lo, hi = INT_RANGE[dt]
        return isinstance(v, int) and not isinstance(v, bool) and lo <= v <= hi
    if dt in ("float", "double", "numeric"):
        return isinstance(v, (int, float)) and not isinstance(v, bool) and math.isfinite(v)
    if dt == "boolean":
        return isinstance(v, bool)
    if dt == "string":
        return isinstance(v, str)
    raise ValueError(dt)


# ---------------------------------------------------------------- layering
def deep_update(base, upd):
    for k, v in upd.items():
        if isinstance(v, dict) and isinstance(base.get(k), dict):
            deep_update(base[k], v)
        else:
            base[k] = copy.deepcopy(v)


def layer(layers):
    """Merges {fqn: attrs} dictionaries; later ones win per attribute."""
    out = {}
    for la in layers:
        deep_update(out, la)
    return out


# ---------------------------------------------------------------- tree
class N:
    __slots__ = ("name", "attrs", "kids", "instance")

    def __init__(self, name, attrs, instance=False):
        self.name, self.attrs, self.kids, self.instance = name, attrs, {}, instance

    def copy(self):
        n = N(self.name, copy.deepcopy(self.attrs), self.instance)
        n.kids = {k: v.copy() for k, v in self.kids.items()}
        return n

    def walk(self, prefix=""):
        fqn = f"{prefix}.{self.name}" if prefix else self.name
        yield fqn, self
        for k in self.kids.values():
            yield from k.walk(fqn)


class Bad(Exception):
    """The specification must be rejected."""


def to_tree(nodes):
    """{fqn: attrs} -> N. Missing intermediate branches become incomplete branches."""
    roots = [f for f in nodes if "." not in f]
    if len(roots) != 1:
        raise Bad(f"{len(roots)} roots")
    root = N(roots[0], nodes[roots[0]])
    # shallow first, so that what a parent states comes before what is below it
    for fqn in sorted(nodes, key=lambda f: f.count(".")):
        parts = fqn.split(".")
        if parts[0] != root.name:
            raise Bad(f"orphan {fqn}")
        cur = root
        for p in parts[1:-1]:
            if p not in cur.kids:
                cur.kids[p] = N(p, {"type": "branch"})
            cur = cur.kids[p]
        if len(parts) > 1:
            if parts[-1] in cur.kids:
                cur.kids[parts[-1]].attrs = copy.deepcopy(nodes[fqn])
            else:
                cur.kids[parts[-1]] = N(parts[-1], copy.deepcopy(nodes[fqn]))
    return root


RANGE = re.compile(r"\[(\d+),(\d+)\]")


def expand_label(s):
    m = RANGE.search(s)
    if not m:
        return [s]
    a, b = int(m.group(1)), int(m.group(2))
    if a > b:
        raise Bad(f"range {s}")
    return [s[: m.start()] + str(i) + s[m.end():] for i in range(a, b + 1)]


def instance_paths(instances):
    """The nested label structure: (list of all paths, list of deepest paths)."""
    if isinstance(instances, str):
        instances = [instances]
    roots = [()]
    allp = []
    for item in instances:
        labels = []
        is_list = isinstance(item, list)
        for i in item if is_list else [item]:
            labels += expand_label(str(i))
        new = [r + (la,) for r in roots for la in labels]
        for p in new:
            if p not in allp:
                allp.append(p)
        if is_list or len(labels) > 1:
            roots = new
    leaves = [p for p in allp if not any(q != p and q[: len(p)] == p for q in allp)]
    return allp, leaves


def merge_node(dst, src):
    """src (stated on an instance path) has precedence over dst."""
    deep_update(dst.attrs, src.attrs)
    for k, c in src.kids.items():
        if k in dst.kids:
            merge_node(dst.kids[k], c)
        else:
            dst.kids[k] = c.copy()


def is_branch(n):
    return n.attrs.get("type") == "branch"


def expand(n):
    inst = n.attrs.get("instances")
    if inst is not None and is_branch(n) and inst != []:
        allp, leaves = instance_paths(inst)
        first = {p[0] for p in allp}
        keep, tmpl, over = {}, {}, {}
        for k, c in n.kids.items():
            if c.attrs.get("instantiate", True) is False:
                keep[k] = c
            elif k in first:
                over[k] = c
            else:
                tmpl[k] = c
        base = {k: v for k, v in n.attrs.items() if k != "instances"}
        n.kids = dict(keep)
        for p in allp:
            cur = n
            for i, la in enumerate(p):
                if la not in cur.kids:
                    cur.kids[la] = N(la, copy.deepcopy(base), True)
                cur = cur.kids[la]
        for p in leaves:
            cur = n
            for la in p:
                cur = cur.kids[la]
            for k, c in tmpl.items():
                cur.kids[k] = c.copy()
        for k, c in over.items():
            merge_node(n.kids[k], c)
        n.attrs = base
    for c in list(n.kids.values()):
        expand(c)


def prune(n):
    """Removes nodes marked for deletion (the root cannot be removed)."""
    for k in list(n.kids):
        c = n.kids[k]
        if c.attrs.get("delete"):
            del n.kids[k]
        else:
            prune(c)


def resolve(layers, do_expand=True):
    root = to_tree(layer(layers))
    if do_expand:
        expand(root)
    prune(root)
    return root


def flat(root):
    return {f: n for f, n in root.walk()}


def normal_instances(v):
    return [v] if isinstance(v, str) else v


def exported(attrs, extra=None, expanded=True):
    """What an attribute-preserving exporter must show for a node.

    extra: None -> all extra attributes; else the set of whitelisted names.
    """
    known = CORE_ALL | HIDDEN
    if attrs.get("type") == "branch":
        known = known | {"instances"}
    elif attrs.get("type") in ("sensor", "actuator", "attribute", "property"):
        known = known | {"datatype", "min", "max", "unit", "allowed", "default"}
    out = {}
    for k, v in attrs.items():
        if k in HIDDEN:
            continue
        if k not in known:
            if extra is not None and k not in extra:
                continue
            if extra is not None and k in extra:
                out[k] = v
                continue
        if v is None or v == []:
            continue
        if k == "instances":
            if expanded:
                continue
            v = normal_instances(v)
        out[k] = v
    return out


def shown(root, extra=None, expanded=True):
    return {f: exported(n.attrs, extra, expanded) for f, n in root.walk()}


# ---------------------------------------------------------------- validity
DATA_FIELDS = {"datatype", "arraysize", "min", "max", "unit", "allowed", "default"}
BRANCH_FIELDS = {"instances", "aggregate", "is_instance"}
COMMON_FIELDS = {"type", "description", "comment", "delete", "deprecation", "constUID", "fka", "instantiate", "fqn"}
NODE_TYPES = {"branch", "sensor", "actuator", "attribute", "struct", "property"}


def _opt_str(a, k, out):
    if a.get(k) is not None and not isinstance(a[k], str):
        out.append(f"{k} is no text")


def _num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def node_errors(a, units=None, structs=(), numeric_unit=True):
    """Reasons why one node with (merged) attributes a must be rejected.

    units: {name: [datatypes]}; structs: full names of visible struct types.
    """
    out = []
    units = units or {}
    t = a.get("type")
    if t not in NODE_TYPES:
        return [f"type {t!r}"]
    if not isinstance(a.get("description"), str):
        out.append("description")
    for k in ("comment", "deprecation"):
        _opt_str(a, k, out)
    c = a.get("constUID")
    if c is not None and not (isinstance(c, str) and re.fullmatch(r"0x[0-9A-Fa-f]{8}", c)):
        out.append("constUID")
    leaf = t in ("sensor", "actuator", "attribute", "property")
    known = COMMON_FIELDS | (DATA_FIELDS if leaf else BRANCH_FIELDS if t == "branch" else set())
    for k in a:
        if k not in known and k in (DATA_FIELDS | BRANCH_FIELDS):
            out.append(f"core attribute {k} on {t}")
    if not leaf:
        return out
    dt = a.get("datatype")
    if not isinstance(dt, str):
        return out + ["datatype missing"]
    arr = dt.endswith("[]")
    base = dt[:-2] if arr else dt
    prim = base in INT_RANGE or base in ("boolean", "float", "double", "string", "numeric")
    if not prim and base not in structs:
        return out + [f"datatype {dt}"]
    if a.get("arraysize") is not None and not arr:
        out.append("arraysize on scalar")
    for k in ("min", "max"):
        if isinstance(a.get(k), float) and not math.isfinite(a[k]):
            out.append(f"{k} not finite")
    allowed, default = a.get("allowed"), a.get("default")
    if not prim:
        if allowed or default is not None:
            out.append("value constraint on struct")
        if a.get("unit"):
            out.append("unit on struct")
        return out
    if default is not None:
        if arr != isinstance(default, list):
            out.append("default shape")
        else:
            vals = default if arr else [default]
            if arr and a.get("arraysize") and len(default) != a["arraysize"]:
                out.append("default length")
            if not all(value_fits(v, base) for v in vals):
                out.append("default type")
            if allowed and not all(any(_eq(v, w) for w in allowed) for v in vals):
                out.append("default not allowed")
    if allowed:
        if not all(value_fits(v, base) for v in allowed):
            out.append("allowed type")
    if allowed is not None and (a.get("min") is not None or a.get("max") is not None):
        out.append("allowed with min/max")
    u = a.get("unit")
    if u is not None:
        if u not in units:
            out.append("unit unknown")
        elif not any(base in NARROWER[d] for d in units[u]):
            out.append("unit datatype")
    return out


def _eq(a, b):
    return a == b and isinstance(a, bool) == isinstance(b, bool)


def tree_errors(root, units=None, structs=()):
    out = []

    def rec(n, parent, fqn):
        for e in node_errors(n.attrs, units, structs):
            out.append(f"{fqn}: {e}")
        t = n.attrs.get("type")
        if parent is not None:
            pt = parent.attrs.get("type")
            ok = {"property": pt == "struct", "struct": pt in ("struct", "branch")}.get(t, pt == "branch")
            if not ok:
                out.append(f"{fqn}: {t} below {pt}")
        for c in n.kids.values():
            rec(c, n, f"{fqn}.{c.name}")
    rec(root, None, root.name)
    return out
