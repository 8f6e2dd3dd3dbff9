"""C29: UUIDs are the documented function of the full path."""
import re

import binfmt
import gen
import ref
from common import *
from core import Skip
from world import World, uuid5

FOREIGN_SHARE = 0.08
TECHNIQUE = "runtime monitoring: independent RFC 4122 version 5 reference over the outputs of all exporters that write UUIDs, related across exporters, overlays and expansion"
N_QUICK, N_THOROUGH = 400, 12000
RULE = ("Random models (instances, overlays on instances, types, names differing only in case or by one path component or beyond ASCII, any root name) are exported as JSON, YAML, CSV, JSON Schema, Franca and binary with and without "
        "--uuid, expanded or not, alone and with a further overlay. Every node of every output must carry the independently computed identifier of its path, the same in all exports of the case, distinct "
        "for distinct paths; without the option the outputs hold no identifier. Distinct by model and options.")
NEED = {"uuids_compared": 30000, "plain_nodes": 8000, "expanded_only_nodes": 500, "kept_over_overlay": 1500, "case_pairs": 40, "foreign_paths": 300}
HEX = re.compile(r"[0-9a-f]{32}\Z")


def read(case, fmt, out):
    """{path: uuid or None}, and whether any identifier-like key occurs elsewhere."""
    if fmt == "json":
        doc = load_json(case.read(out))
        flat, problems = json_flat(doc)
        case.check(not problems, "json-structure", lambda: problems[:3])
        return {f: a.get("uuid") for f, a in flat.items()}
    if fmt == "yaml":
        return {f: a.get("uuid") for f, a in load_yaml(case.read(out)).items() if f != "ComplexDataTypes"}
    if fmt == "csv":
        rows = read_csv(case.read(out))
        j = rows[0].index("Id") if "Id" in rows[0] else None
        return {r[0]: None if j is None else r[j] for r in rows[1:]}
    if fmt == "franca":
        from checks import c26
        return {e["name"]: e.get("uuid") for e in c26.parse(case.read(out))[1]}
    if fmt == "binary":
        with open(case.path(out), "rb") as f:
            return {f: n["uuid"] or None for f, n in binfmt.walk(binfmt.decode(f.read()))}
    out_ = {}

    def rec(s, fqn):
        out_[fqn] = s.get("x-uuid")
        for k, c in s.get("properties", {}).items():
            rec(c, f"{fqn}.{k}")
    doc = load_json(case.read(out))
    rec(doc, doc["title"])
    return out_


CALL = {"json": [], "yaml": [], "csv": [], "jsonschema": ["--extend-all-attributes"], "franca": [], "binary": []}
EXPAND = ("json", "yaml", "csv", "jsonschema")
TYPES = EXPAND


def random_case(case, i):
    rng = case.rng
    names = {"names": ["A", "a", "Ab", "AB", "aB", "B", "b", "C", "AC", "x", "X", "Xx"]} if i % 4 == 1 else {}
    if i % 8 == 3:
        names = {"names": gen.FOREIGN, "strict_names": False}
    w = World(case, types=0.2, expand=True, hostile=0.2, overlays=0.5, inst_over=0.8 if i % 2 else 0, instances=rng.choice([0, 0.4, 0.7]), short=0.3, **names)
    base = [a for a in w.args if a not in ("--no-expand", "--uuid")]
    notypes = [a for j, a in enumerate(base) if a != "-t" and (j == 0 or base[j - 1] != "-t")]
    uses_types = any("." in str(a.get("datatype", "")) for la in w.layers for a in la.values())
    # statements on nodes that only exist after expansion need not be complete before it
    uni = {f for f, _ in ref.resolve(w.layers, False).walk()} if i % 2 == 0 else set(w.flat) & set().union(*w.layers)
    case.note = {"args": base, "nodes": len(w.flat), "unexpanded": len(uni)}
    low = {}
    for f in w.flat:
        low.setdefault(f.lower(), []).append(f)
    case.count("case_pairs", sum(len(v) > 1 for v in low.values()))
    known = {}
    case.count("foreign_paths", sum(not f.isascii() for f in w.flat))

    def run(fmt, more, flat, uuid, what):
        args = base if fmt in TYPES else notypes
        out = f"o.{fmt}"
        r = case.export(fmt, *args, *CALL[fmt], *more, *(["--uuid"] if uuid else rng.choice([[], ["--no-uuid"]])), "-o", out)
        if not case.check(r.ok, "rejected", lambda: r.brief()):
            return
        got = read(case, fmt, out)
        want = [f for f in flat if fmt != "franca" or "." in f]
        case.state(fmt, uuid, what)
        miss = [f for f in want if f not in got]
        case.check(not miss, "node-missing", lambda: {"format": fmt, "missing": miss[:5]})
        for f in want:
            g = got.get(f)
            if not uuid:
                case.count("plain_nodes")
                case.check(g is None, "uuid-without-option", lambda: {"format": fmt, "node": f, "uuid": g})
                continue
            case.count("uuids_compared")
            case.check(isinstance(g, str) and HEX.match(g), "not-32-digits", lambda: {"format": fmt, "node": f, "uuid": g, "when": what})
            case.check(g == uuid5(f), "wrong-uuid", lambda: {"format": fmt, "node": f, "uuid": g, "expected": uuid5(f), "when": what})
            o = known.setdefault(g, f)
            case.check(o == f, "uuid-shared", lambda: {"uuid": g, "nodes": [o, f]})
        return got
    fmts = [f for f in CALL if f not in ("franca", "binary") or not uses_types]
    for fmt in fmts:
        run(fmt, [], w.flat, True, "plain")
    for fmt in rng.sample(fmts, 2):
        run(fmt, [], w.flat, False, "off")
    if i % 2 == 0:
        run(rng.choice(EXPAND), ["--no-expand"], uni, True, "no-expand")
    case.count("expanded_only_nodes", len([f for f in w.flat if f not in uni]))
    # a further overlay changes nothing but descriptions and adds a node
    ov = {f: {"type": n.attrs["type"], **({"datatype": n.attrs["datatype"]} if "datatype" in n.attrs else {}), "description": "changed", "comment": "c"} for f, n in w.flat.items() if f in uni and rng.random() < 0.3}
    ov[f"{w.root.name}.Qz"] = {"type": "branch", "description": "d"}
    case.write("more.vspec", gen.file_text(ov))
    run(rng.choice(fmts), ["-l", "more.vspec"], list(w.flat) + [f"{w.root.name}.Qz"], True, "overlay")
    case.count("kept_over_overlay", len(w.flat))


def probe_known(case):
    """Identifiers published with the VSS catalogue for its best known paths, computed by Python's uuid module."""
    import uuid
    m = "Vehicle:\n  type: branch\n  description: d\nVehicle.Speed:\n  type: sensor\n  datatype: float\n  description: d\n"
    case.write("m.vspec", m)
    r = case.export("json", "-s", "m.vspec", "--uuid", "-o", "o.json")
    got = read(case, "json", "o.json") if case.check(r.ok, "rejected", lambda: r.brief()) else {}
    ns = uuid.uuid5(uuid.NAMESPACE_OID, "vehicle_signal_specification")
    for f, g in got.items():
        case.count("uuids_compared")
        case.check(g == uuid.uuid5(ns, f).hex == uuid5(f), "wrong-uuid", lambda: {"node": f, "uuid": g})
    case.check(got.get("Vehicle") == "ccc825f94139544dbb5f4bfd033bece6", "published-uuid", lambda: got)
    case.sig, case.nontrivial, case.note = "known", True, "Vehicle, Vehicle.Speed"


PROBES = {"known": probe_known}
