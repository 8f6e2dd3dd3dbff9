"""Independent computation of static identifiers and of the id export."""
from __future__ import annotations


def fnv1(b):
    h = 0x811C9DC5
    for x in b:
        h = (h * 0x01000193) % (1 << 32)
        h ^= x
    return h


def hashed(name, a, cs):
    """Identifier text of attributes a under a name."""
    al = a.get("allowed")
    s = (f"{name}: unit: {a.get('unit') or ''}, datatype: {a.get('datatype') or ''}, type: {a['type']}"
         f"allowed: {al if al else ''}min: {'' if a.get('min') is None else a['min']}max: {'' if a.get('max') is None else a['max']}")
    b = s.encode()
    if not cs:
        b = bytes(c + 32 if 65 <= c <= 90 else c for c in b)
    return "0x%08X" % fnv1(b)


def former(a):
    f = a.get("fka")
    return [f] if isinstance(f, str) else list(f or [])


def uid(fqn, a, cs):
    if a.get("constUID"):
        return a["constUID"]
    return hashed((former(a) or [fqn])[0], a, cs)


def entry(fqn, a, cs):
    """The node in the id export."""
    d = {"staticUID": uid(fqn, a, cs), "description": a.get("description"), "type": a["type"]}
    for k in ("unit", "datatype", "allowed", "min", "max", "deprecation"):
        v = a.get(k)
        if v is not None and v != [] and not (v == "" and k in ("unit", "deprecation")):
            d[k] = v
    if former(a):
        d["fka"] = former(a)
    return d


def export(flat, cs):
    return {f: entry(f, a, cs) for f, a in flat.items()}


def collisions(doc):
    by = {}
    for f, d in doc.items():
        by.setdefault(d["staticUID"].upper(), []).append(f)
    return [v for v in by.values() if len(v) > 1]
