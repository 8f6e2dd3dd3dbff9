"""C11: the JSON export is a faithful image of the model."""
import json

import gen
import ref
from common import *
from world import World, uuid5

FOREIGN_SHARE = 0.08
N_QUICK, N_THOROUGH = 1200, 12000
RULE = ("Random models with hostile text (quotes, line breaks, control characters, non-BMP unicode), falsy values, arrays, extreme integers, "
        "extra attributes of every YAML shape, struct types, overlays and instances, exported with every combination of --pretty, "
        "--types-output, -e/--extend-all-attributes, --uuid, --no-expand. Oracle: a duplicate-key-detecting JSON reader and the reference "
        "model; the compact and the pretty document must have the same token sequence. Non-trivial: more than two nodes; distinct by model and options.")
NEED = {"nodes_compared": 5000, "pretty_pairs": 200, "separate_types": 50}

CONTROL = ["bell\x07", "nul-free \x01\x02", "del\x7f", "nel\u0085x", "ls\u2028ps\u2029", "bom\ufeffx", "esc\x1b[0m", "\r\n crlf", "\ud7ff\ue000", "\U0010ffff", "/slash </script>"]


def tokens(text):
    """Everything the document says, number spelling and key order included."""
    return json.loads(text, object_pairs_hook=lambda p: ["{"] + [list(x) for x in p] + ["}"], parse_int=lambda s: "i" + s,
                      parse_float=lambda s: "f" + s, parse_constant=lambda s: "c" + s)


def with_uuid(d, on):
    return {f: ({**a, "uuid": uuid5(f)} if on else a) for f, a in d.items()}


def nest(flat):
    """Structure only: parent -> ordered children is not promised, membership is."""
    return {f: {g.rsplit(".", 1)[1] for g in flat if g.count(".") == f.count(".") + 1 and g.startswith(f + ".")} for f in flat}


def random_case(case, i):
    rng = case.rng
    w = World(case, extras=rng.choice([0, 0.3]), types=0.4, uuid=0.3, numeric=0.03, same_root=0.08, type_extras=0.4)
    o = w.o
    # control characters are legal in YAML text
    if rng.random() < 0.4:
        f = rng.choice(list(w.flat))
        if rng.random() < 0.999 and f in w.layers[0]:
            t = rng.choice(CONTROL)
            w.layers[0][f]["description"] = t
            case.write("m.vspec", gen.file_text(w.layers[0], (), rng))
            w.root = ref.resolve(w.layers, w.expand)
    wl = rng.choice([None, set(), set(rng.sample(o.extra_names, 2))])
    white = w.type_extra | (wl or set())
    wl = wl if wl is None else white
    args = list(w.args)
    if wl is None:
        args += ["--extend-all-attributes"]
    for e in sorted(white):
        args += ["-e", e]
    types_out = w.types is not None and rng.random() < 0.5
    if types_out:
        args += ["--types-output", "types.json"]
    case.note = {"args": args, "nodes": len(w.flat), "types": len(w.types or {}), "example": dict(list(w.shown(wl).items())[1:2])}
    case.state("expand", w.expand, "uuid", w.uuid, "types", w.types is not None, types_out, "wl", wl is None or len(wl))
    r = case.export("json", *args, "-o", "out.json")
    if not case.check(r.ok, "rejected", r.brief):
        return
    text = case.read("out.json")
    try:
        doc = load_json(text)
    except ValueError as e:
        case.fail("invalid-json", {"error": str(e), "text": text[:500]})
        return
    got, problems = json_flat(doc)
    case.check(not problems, "structure", lambda: {"problems": problems})
    exp = with_uuid(w.shown(wl), w.uuid)
    exp = {f: {k: v for k, v in a.items()} for f, a in exp.items()}
    d = diff(exp, got)
    case.count("nodes_compared", len(exp))
    case.check(not d, "nodes:" + diffkind(d), lambda: {"diff": d, "args": args})
    for f, a in got.items():
        case.check("children" not in a, "children-key", {"node": f})
    if w.types is None:
        case.check("ComplexDataTypes" not in doc, "types-without-types", {"keys": list(doc)})
    else:
        if types_out:
            case.check("ComplexDataTypes" not in doc, "types-not-separate", {"keys": list(doc)})
            tdoc = load_json(case.read("types.json"))
            case.count("separate_types")
        else:
            if not case.check("ComplexDataTypes" in doc, "types-missing", {"keys": list(doc)}):
                return
            tdoc = doc["ComplexDataTypes"]
        tgot, problems = json_flat(tdoc)
        d = diff(w.types_shown(), tgot)
        case.count("nodes_compared", len(tgot))
        case.check(not d and not problems, "types:" + diffkind(d), lambda: {"diff": d, "problems": problems})
    if rng.random() < 0.5:
        a2 = [x if x != "types.json" else "ptypes.json" for x in args]
        r = case.export("json", *a2, "--pretty", "-o", "pretty.json")
        if case.check(r.ok, "pretty-rejected", r.brief):
            case.count("pretty_pairs")
            p = case.read("pretty.json")
            case.check(tokens(p) == tokens(text), "pretty-differs", lambda: {"compact": text[:800], "pretty": p[:800]})
            case.check(len(p.splitlines()) > 1, "pretty-not-pretty", {"text": p[:200]})
            if types_out:
                case.check(tokens(case.read("ptypes.json")) == tokens(case.read("types.json")), "pretty-types-differ", {})


def probe_special(case):
    """Text that must arrive unchanged, each in a description, an allowed value and an extra attribute."""
    nodes = {"V": {"type": "branch", "description": "d"}}
    for j, t in enumerate(gen.HOSTILE + CONTROL):
        nodes[f"V.S{j}"] = {"type": "attribute", "datatype": "string", "description": t, "comment": t, "allowed": [t, "o"], "default": t, "custom": {"k": [t]}}
    case.write("m.vspec", gen.file_text(nodes))
    r = case.export("json", "-s", "m.vspec", "--extend-all-attributes", "-o", "out.json")
    if case.check(r.ok, "special-rejected", r.brief):
        got, _ = json_flat(load_json(case.read("out.json")))
        d = diff(nodes, got)
        case.check(not d, "special:" + diffkind(d), {"diff": d})
    case.sig, case.nontrivial, case.note = "special", True, f"{len(nodes)} hostile strings"


def probe_falsy(case):
    nodes = {"V": {"type": "branch", "description": ""}}
    for j, (dt, v) in enumerate([("uint8", 0), ("int64", 0), ("float", 0.0), ("boolean", False), ("string", ""), ("double", -0.0),
                                 ("uint8[]", [0]), ("boolean[]", [False, False]), ("string[]", [""])]):
        nodes[f"V.S{j}"] = {"type": "sensor", "datatype": dt, "description": "", "comment": "", "default": v, "x0": 0, "xf": False, "xs": "", "xd": {}}
    nodes["V.M"] = {"type": "sensor", "datatype": "int8", "description": "d", "min": 0, "max": 0, "default": 0}
    nodes["V.F"] = {"type": "sensor", "datatype": "float", "description": "d", "min": 0.0, "max": 0.0}
    nodes["V.A"] = {"type": "sensor", "datatype": "int8", "description": "d", "allowed": [0]}
    nodes["V.L"] = {"type": "sensor", "datatype": "uint64", "description": "d", "max": 2**64 - 1, "min": 2**63}
    case.write("m.vspec", gen.file_text(nodes))
    r = case.export("json", "-s", "m.vspec", "--extend-all-attributes", "-o", "out.json")
    if case.check(r.ok, "falsy-rejected", r.brief):
        got, _ = json_flat(load_json(case.read("out.json")))
        d = diff(nodes, got)
        case.check(not d, "falsy:" + diffkind(d), {"diff": d})
    case.sig, case.nontrivial, case.note = "falsy", True, nodes


def probe_nonfinite(case):
    """Infinity and not-a-number have no JSON spelling: rejected or written as something a JSON reader takes."""
    for k, v in [("min", "-.inf"), ("max", ".inf"), ("default", ".nan"), ("default", ".inf"), ("custom", ".nan")]:
        case.write("m.vspec", f"V:\n  type: branch\n  description: d\nV.S:\n  type: sensor\n  datatype: double\n  description: d\n  {k}: {v}\n")
        out = f"o{k}{v}.json"
        r = case.export("json", "-s", "m.vspec", "--extend-all-attributes", "-o", out)
        if r.ok:
            try:
                load_json(case.read(out))
                case.count("monitor_evaluations")
            except ValueError as e:
                case.fail(f"nonfinite-invalid-json:{k}:{v}", {"attribute": k, "value": v, "error": str(e), "text": case.read(out)})
    case.sig, case.nontrivial, case.note = "nonfinite", True, "infinite and not-a-number values"


PROBES = {"special": probe_special, "falsy": probe_falsy, "nonfinite": probe_nonfinite}
