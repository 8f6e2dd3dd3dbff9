"""C12: the YAML export reloads to the same model."""
import json

import gen
import ref
from common import *
from world import World, uuid5

FOREIGN_SHARE = 0.08
N_QUICK, N_THOROUGH = 700, 7000
RULE = ("Random models (hostile text, YAML look-alike strings, falsy values, extreme numbers, extra attributes, structs, overlays, instances) "
        "exported as YAML under random options, then loaded from their own export for two further generations. Oracle: duplicate-key-"
        "detecting YAML reader plus reference model for generation 1; byte identity for generations 2 and 3; JSON and CSV rows "
        "of generation 2 equal those of the source. Non-trivial: more than two nodes; distinct by model and options.")
NEED = {"nodes_compared": 3000, "generations": 500, "cross_format": 300}

LOOKALIKE = ["=", "<<", "1_000", "1:30", "0b1", "yes", "Off", "Y", ".inf", "-.nan", "1e3", "1.0e+3", "0o7", "017", "2001-12-14t21:59:43.10-05:00", "2001-12-14",
             "!!str x", "%TAG", "@at", "`", "- ", "? ", ": ", "a: b", "a #b", "a\n#b", "\n", "\n\n", "x\n", "x\n\n", " \n x", "\tx", "x\t\ny", "'", "\"", "''", "\\", "\\n", "{}", "[]",
             "{", "}", ",", "*a", "&a", "|", ">", "|-\n x", "---", "...", "--- x\n...", "\x07", "\x85", "a\x85b", "\u2028", "a\u2029b", "\ufeff", "\x7f", "\U0001f697", "\r", "a\r\nb",
             "word " * 300, "x" * 1500, "a  b   c", "trailing  ", "caf\u00e9", "True", "NULL", "nUll", "~", "0.10", "1e-7", "+1", "-0", "0x", "1.", ".5", "12e03", "1,000"]


def flatdiff(case, what, expected, text):
    try:
        got = load_yaml(text)
    except Exception as e:
        case.fail(what + ":invalid-yaml", {"error": str(e)[:500], "text": text[:800]})
        return None
    return got


def generation(case, w, args, name, src, tsrc, types_out):
    a = ["-s", src] + (["-t", tsrc] if tsrc else []) + args
    if types_out:
        a += ["--types-output", f"{name}_types.yaml"]
    r = case.export("yaml", *a, "-o", f"{name}.yaml")
    return r, a


def random_case(case, i):
    rng = case.rng
    w = World(case, extras=rng.choice([0, 0.3]), types=0.4, uuid=0.2, numeric=0.03, type_extras=0.4)
    o = w.o
    if rng.random() < 0.5:
        fs = [f for f in w.layers[0] if rng.random() < 0.5]
        for f in fs:
            w.layers[0][f][rng.choice(["description", "comment"])] = rng.choice(LOOKALIKE)
        case.write("m.vspec", gen.file_text(w.layers[0], (), rng))
        w.root = ref.resolve(w.layers, w.expand)
    wl = rng.choice([None, set(), set(rng.sample(o.extra_names, 2))])
    white = w.type_extra | (wl or set())
    wl = wl if wl is None else white
    opts = (["--extend-all-attributes"] if wl is None else []) + [x for e in sorted(white) for x in ("-e", e)]
    if not w.expand:
        opts.append("--no-expand")
    if w.uuid:
        opts.append("--uuid")
    opts += w.uargs
    types_out = w.types is not None and rng.random() < 0.75
    src = [a for a in w.args]
    args = src + [x for x in opts if x not in w.args]
    first = list(args)
    if types_out:
        first += ["--types-output", "g1_types.yaml"]
    case.note = {"args": first, "nodes": len(w.flat), "example": dict(list(w.shown(wl).items())[1:2])}
    case.state("expand", w.expand, "uuid", w.uuid, "types", w.types is not None, types_out, "wl", wl is None or len(wl))
    r = case.export("yaml", *first, "-o", "g1.yaml")
    if not case.check(r.ok, "rejected", r.brief):
        return
    text = case.read("g1.yaml")
    got = flatdiff(case, "g1", None, text)
    if got is None:
        return
    tgot = None
    if w.types is not None:
        if types_out:
            tgot = flatdiff(case, "types", None, case.read("g1_types.yaml"))
            case.check("ComplexDataTypes" not in got, "types-not-separate", {})
        else:
            tgot = got.pop("ComplexDataTypes", None)
        if not case.check(isinstance(tgot, dict), "types-missing", {"got": str(tgot)[:300]}):
            return
        d = diff(w.types_shown(), tgot)
        case.check(not d, "types:" + diffkind(d), lambda: {"diff": d})
    exp = {f: ({**a, "uuid": uuid5(f)} if w.uuid else a) for f, a in w.shown(wl).items()}
    d = diff(exp, got)
    case.count("nodes_compared", len(exp))
    if not case.check(not d, "nodes:" + diffkind(d), lambda: {"diff": d}):
        return
    if w.types is not None and not types_out:
        return
    # generations 2 and 3 come from the previous export
    for g in (2, 3):
        r, a = generation(case, w, opts, f"g{g}", f"g{g-1}.yaml", f"g{g-1}_types.yaml" if types_out else None, types_out)
        if not case.check(r.ok, f"reload-rejected", r.brief):
            return
        case.count("generations")
        same_text = case.read(f"g{g}.yaml") == text
        if not case.check(same_text, "drift", lambda: {"generation": g, "diff": diff(load_yaml(text), load_yaml(case.read(f"g{g}.yaml"))),
                                                       "first": text[:600], "now": case.read(f"g{g}.yaml")[:600]}):
            return
        if types_out:
            case.check(case.read(f"g{g}_types.yaml") == case.read("g1_types.yaml"), "types-drift", lambda: {"generation": g})
    if rng.random() < 0.6:
        src2 = ["-s", "g1.yaml"] + (["-t", "g1_types.yaml"] if types_out else [])
        for fmt in ("json", "csv"):
            drop = ["--extend-all-attributes"] if fmt == "csv" else []
            o1 = [x for x in args if x not in drop]
            o2 = src2 + [x for x in opts if x not in drop]
            r1 = case.export(fmt, *o1, "-o", "a." + fmt)
            r2 = case.export(fmt, *o2, "-o", "b." + fmt)
            if not case.check(r1.ok and r2.ok, f"{fmt}-rejected", lambda: {"source": r1.brief(), "reloaded": r2.brief()}):
                continue
            case.count("cross_format")
            a, b = case.read("a." + fmt), case.read("b." + fmt)
            a, b = (sorted(read_csv(a)), sorted(read_csv(b))) if fmt == "csv" else (load_json(a), load_json(b))
            case.check(same(a, b), f"{fmt}-differs", lambda: {"source": str(a)[:1500], "reloaded": str(b)[:1500]})


def _text_probe(strings, sig):
    def run(case):
        nodes = {"V": {"type": "branch", "description": "d"}}
        for j, t in enumerate(strings):
            nodes[f"V.S{j}"] = {"type": "attribute", "datatype": "string", "description": t, "comment": t, "deprecation": t, "allowed": distinct([t, "o"]),
                                "default": t, "custom": {"k": [t], "z" + t[:50]: 1}}
        # JSON is YAML, and keeps every text on one line
        case.write("m.vspec", json.dumps(nodes) if sig == "include-text" else gen.dump(nodes))
        prev = "m.vspec"
        for g in (1, 2, 3):
            r = case.export("yaml", "-s", prev, "--extend-all-attributes", "-o", f"g{g}.yaml")
            if not case.check(r.ok, sig + "-rejected", r.brief):
                return
            try:
                got = load_yaml(case.read(f"g{g}.yaml"))
            except Exception as e:
                case.fail(sig + "-invalid-yaml", {"error": str(e)[:400]})
                return
            d = diff(nodes, got)
            case.check(not d, sig + "-changed", lambda: {"generation": g, "diff": d})
            prev = f"g{g}.yaml"
        case.check(case.read("g1.yaml") == case.read("g2.yaml") == case.read("g3.yaml"), sig + "-drift", {})
        case.sig, case.nontrivial, case.note = sig, True, f"{len(nodes)} strings"
    return run


def distinct(v):
    return list(dict.fromkeys(v))


def probe_numbers(case):
    nodes = {"V": {"type": "branch", "description": "d"}}
    for j, v in enumerate([1e22, 1e-7, 0.1, 1.5e300, 5e-324, 123456789012345680.0, 3, -0.0, 1.0, 2**53 + 1, -(2**63), 1e16, 1e100]):
        nodes[f"V.D{j}"] = {"type": "sensor", "datatype": "double", "description": "d", "default": v, "min": v, "custom": v}
        nodes[f"V.E{j}"] = {"type": "sensor", "datatype": "double", "description": "d", "allowed": [v, 77]}
    for j, v in enumerate([0, 2**64 - 1, 2**63, 10**18]):
        nodes[f"V.U{j}"] = {"type": "sensor", "datatype": "uint64", "description": "d", "default": v, "max": v}
    case.write("m.vspec", gen.dump(nodes))
    prev = "m.vspec"
    for g in (1, 2):
        r = case.export("yaml", "-s", prev, "--extend-all-attributes", "-o", f"g{g}.yaml")
        if not case.check(r.ok, "numbers-rejected", r.brief):
            return
        d = diff(nodes, load_yaml(case.read(f"g{g}.yaml")))
        case.check(not d, "numbers-changed", lambda: {"generation": g, "diff": d})
        prev = f"g{g}.yaml"
    case.check(case.read("g1.yaml") == case.read("g2.yaml"), "numbers-drift", {})
    case.sig, case.nontrivial, case.note = "numbers", True, nodes


PROBES = {
    "lookalike": _text_probe(LOOKALIKE, "lookalike"),
    "hostile": _text_probe(gen.HOSTILE, "hostile"),
    "nel": _text_probe(["a\x85b", "\x85", "x \x85 y"], "nel"),
    "include-text": _text_probe(["see\n#include other.vspec\n", "see\n#include a b\nmore", "#include", "#include x.vspec"], "include-text"),
    "numbers": probe_numbers,
}
