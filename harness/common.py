"""Independent readers of the output formats and comparison helpers."""
from __future__ import annotations

import csv
import io
import json

import yaml

import ref


def same(a, b):
    """Equality that tells True from 1 and 1 from 1.0 and compares containers deeply."""
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return type(a) is type(b) and a == b
    return type(a) is type(b) and a == b


class UniqueLoader(yaml.SafeLoader):
    pass


def _map(loader, node, deep=False):
    keys = [loader.construct_object(k, deep=True) for k, _ in node.value]
    for i, k in enumerate(keys):
        if k in keys[:i]:
            raise yaml.constructor.ConstructorError(None, None, f"duplicate key {k!r}", node.start_mark)
    return yaml.SafeLoader.construct_mapping(loader, node, deep=True)


UniqueLoader.add_constructor(yaml.resolver.BaseResolver.DEFAULT_MAPPING_TAG, _map)


def load_yaml(text):
    return yaml.load(text, Loader=UniqueLoader)


def _uniq_pairs(pairs):
    d = {}
    for k, v in pairs:
        if k in d:
            raise ValueError(f"duplicate key {k!r}")
        d[k] = v
    return d


def _no_const(x):
    raise ValueError(f"{x} is not JSON")


def load_json(text):
    return json.loads(text, object_pairs_hook=_uniq_pairs, parse_constant=_no_const)


def json_flat(doc, want_root=None):
    """Nested JSON export -> {fqn: attrs} (+ list of structure problems)."""
    out, problems = {}, []

    def rec(name, node, prefix):
        fqn = f"{prefix}.{name}" if prefix else name
        if not isinstance(node, dict):
            problems.append(f"{fqn} is not an object")
            return
        out[fqn] = {k: v for k, v in node.items() if k != "children"}
        if "children" in node:
            if not isinstance(node["children"], dict) or not node["children"]:
                problems.append(f"{fqn}: children is empty or no object")
                return
            for k, c in node["children"].items():
                rec(k, c, fqn)

    for k, v in doc.items():
        if k == "ComplexDataTypes":
            continue
        rec(k, v, "")
    return out, problems


def diff(expected, actual, limit=6):
    """Human-readable differences between two {fqn: attrs} dictionaries."""
    out = []
    for f in expected:
        if f not in actual:
            out.append(f"missing node {f}")
        else:
            e, a = expected[f], actual[f]
            for k in e:
                if k not in a:
                    out.append(f"{f}: attribute {k} missing (expected {e[k]!r})")
                elif not same(e[k], a[k]):
                    out.append(f"{f}: {k} is {a[k]!r}, expected {e[k]!r}")
            for k in a:
                if k not in e:
                    out.append(f"{f}: unexpected attribute {k}={a[k]!r}")
    for f in actual:
        if f not in expected:
            out.append(f"unexpected node {f}")
    return out[:limit]


def diffkind(d):
    """Coarse mechanism of the first difference, for violation signatures."""
    d = d[0] if d else ""
    for k in ("missing node", "unexpected node", "unexpected attribute", "missing (expected"):
        if k in d:
            return {"missing (expected": "attribute-missing"}.get(k, k).replace(" ", "-")
    return "attribute-value"


def read_csv(text):
    return list(csv.reader(io.StringIO(text, newline="")))


def export_yaml(case, *args, out="out.yaml"):
    """vspec export yaml; returns (Res, loaded dict or None)."""
    r = case.export("yaml", "-o", out, *args)
    if not r.ok:
        return r, None
    return r, load_yaml(case.read(out))


def model_sig(nodes):
    import hashlib
    import json as j

    return hashlib.sha1(j.dumps(nodes, sort_keys=True, default=str).encode()).hexdigest()[:16]


def expect_model(case, res, data, expected, what, ctx):
    """Oracle: the export succeeded and shows exactly the expected nodes."""
    if not case.check(res.ok, f"{what}:rejected", lambda: {"ctx": ctx, **res.brief()}):
        return False
    d = diff(expected, data)
    case.count("nodes_compared", len(expected))
    return case.check(not d, f"{what}:{diffkind(d)}", lambda: {"diff": d, "ctx": ctx})


def expect_reject(case, res, what, ctx, out="out.yaml"):
    ok = case.check(res.code != 0, f"{what}:accepted", lambda: {"ctx": ctx, **res.brief()})
    if ok:
        case.count("rejections_observed")
        ok = case.check(not case.exists(out), f"{what}:output-written", lambda: {"ctx": ctx, **res.brief()})
    return ok


__all__ = [n for n in globals() if not n.startswith("_")]
