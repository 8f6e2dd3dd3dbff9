"""C10: strict mode and attribute whitelisting reject exactly what they promise."""
import re

import gen
import ref
import typegen as tg
from common import *
from core import Skip

N_QUICK, N_THOROUGH = 1500, 15000
RULE = ("Random models whose names and attributes are clean or carry violations at random positions (root, branch, leaf, instance label, "
        "override, added by overlay, deleted again), with every combination of --strict, --aborts and -e options. Oracle: independent "
        "name and attribute rules on the expanded model decide the exit code; JSON and YAML must show core attributes, whitelisted ones and "
        "nothing else, or everything with --extend-all-attributes. Non-trivial: a violation or an extra attribute exists.")
NEED = {"accepted_models": 200, "rejected_models": 200, "attribute_exports": 200}
BADNAMES = ["speed", "Speed_x", "1Row", "S-x", "_A", "\u00c4rger", "is", "aB", "Aa bb", "A\u00e9", "Is_Open", "Row\n", "\nRow", "R\u0301w", "\uff32ow", "Row\u0660", "Row "]


def name_violations(root):
    out = []
    for f, n in root.walk():
        if not re.fullmatch(r"[A-Z][A-Za-z0-9]*", n.name):
            out.append((f, "camel"))
        if n.attrs.get("datatype") == "boolean" and not n.name.startswith(("Is", "Has")):
            out.append((f, "bool"))
    return out


def extra_violations(root, allowed):
    out = []
    for f, n in root.walk():
        for k in ref.exported(n.attrs, None, expanded=False):
            if k not in ref.exported(n.attrs, set(), expanded=False) and k not in allowed:
                out.append((f, k))
        for k, v in n.attrs.items():
            if v is None and k not in ref.CORE_ALL | ref.HIDDEN | ref.DATA_FIELDS | ref.BRANCH_FIELDS and k not in allowed:
                out.append((f, k))
    return out


def random_case(case, i):
    rng = case.rng
    o = gen.Opts(hostile=0.05, max_nodes=rng.choice([5, 10, 16]), instances=rng.choice([0, 0.4]), extras=rng.choice([0, 0, 0.15, 0.4]),
                 strict_names=rng.random() < 0.75)
    if rng.random() < 0.4:
        # names that are parts or spellings of one another
        o.extra_names = rng.choice([["source", "sou", "sources", "Source"], ["x-info", "x", "x-info-2", "info"], ["dbc", "db", "c", "dbc.signal"], ["quality", "max_quality", "minimum", "unit2", "type_", "defaults"],
                                    ["Datatype", "Unit", "MIN", "Comment", "TYPE"]])
    m = gen.model(rng, o)
    if not o.strict_names and rng.random() < 0.5:
        o.strict_names = True
    r = rng.random()
    injected = None
    if r < 0.35:
        bad = rng.choice(BADNAMES)
        where = rng.choice(["leaf", "branch", "root", "label", "overlay"])
        rootn = next(iter(m))
        if where == "leaf":
            m[f"{rng.choice([f for f, a in m.items() if a['type'] == 'branch' and not a.get('instances')])}.{bad}"] = gen.decorate(rng, o, gen.leaf_attrs(rng, o, dt="uint8"))
        elif where == "branch":
            m[f"{rootn}.{bad}"] = {"type": "branch", "description": "d"}
            m[f"{rootn}.{bad}.Leaf"] = {"type": "sensor", "datatype": "uint8", "description": "d"}
        elif where == "root":
            m = {bad + f[len(rootn):]: a for f, a in m.items()}
        elif where == "label":
            m[f"{rootn}.Ins"] = {"type": "branch", "description": "d", "instances": ["Left", bad]}
            m[f"{rootn}.Ins.Leaf"] = {"type": "sensor", "datatype": "uint8", "description": "d"}
        injected = (where, bad)
    ov = {}
    rootn = next(iter(m))
    if injected and injected[0] == "overlay":
        ov[f"{rootn}.{injected[1]}"] = {"type": "sensor", "datatype": "uint8", "description": "d"}
        if rng.random() < 0.3:
            ov[f"{rootn}.{injected[1]}"]["delete"] = True
    if rng.random() < 0.25:
        f = rng.choice(list(m))
        ov.setdefault(f, {})[rng.choice(o.extra_names)] = rng.choice([1, "x", None, False, [1]])
    if rng.random() < 0.15 and not o.strict_names:
        pass
    if rng.random() < 0.15:
        ov[f"{rootn}.Flag{rng.randint(0, 3)}"] = {"type": "sensor", "datatype": rng.choice(["boolean", "boolean[]"]), "description": "d"}
    args = ["-s", "m.vspec"]
    case.write("m.vspec", gen.file_text(m, (), rng))
    layers = [m]
    if ov:
        case.write("o.vspec", gen.file_text(ov, (), rng))
        args += ["-l", "o.vspec"]
        layers.append(ov)
    root = ref.resolve(layers)
    if ref.tree_errors(root):
        raise Skip("invalid")
    strict = rng.random() < 0.35
    aborts = [a for a in rng.sample(("name-style", "unknown-attribute"), 2) if rng.random() < 0.35]
    white = [e for e in o.extra_names if rng.random() < rng.choice([0.2, 0.6, 0.9])]
    opts = []
    if strict:
        opts.append("--strict")
    for a in aborts:
        opts += [rng.choice(["-a", "--aborts"]), a]
    for w in white:
        opts += [rng.choice(["-e", "--extended-attributes"]), w]
    rng.random()
    nv, ev = name_violations(root), extra_violations(root, set(white))
    reject = []
    if (strict or "name-style" in aborts) and nv:
        reject.append(["name", nv[:3]])
    if (strict or "unknown-attribute" in aborts) and ev:
        reject.append(["attribute", ev[:3]])
    allx = rng.random() < 0.4
    case.sig = model_sig([layers, opts, allx])
    case.nontrivial = bool(nv or extra_violations(root, set()))
    case.note = {"options": opts, "name_violations": nv[:4], "extra": ev[:4], "rejected": reject}
    case.state("strict" if strict else "-".join(aborts), "names", bool(nv), "attrs", bool(ev), "white", len(white), injected[0] if injected else "")
    fmt = rng.choice(["yaml", "json"])
    r = case.export(fmt, *args, *opts, *(["--extend-all-attributes"] if allx else []), "-o", "out")
    if reject:
        case.count("rejected_models")
        expect_reject(case, r, "strict-" + reject[0][0], case.note, out="out")
    else:
        case.count("accepted_models")
        if not case.check(r.ok, "rejected", lambda: {"note": case.note, **r.brief()}):
            return
        if fmt == "yaml":
            got = load_yaml(case.read("out"))
        else:
            got, _ = json_flat(load_json(case.read("out")))
        # whether an attribute stated as null or empty list is shown is left open
        def filled(x):
            return {f: {k: v for k, v in a.items() if not (v is None or v == [])} for f, a in x.items()}
        d = diff(filled(ref.shown(root, None if allx else set(white))), filled(got))
        case.count("attribute_exports")
        case.check(not d, f"{fmt}:" + diffkind(d), lambda: {"diff": d, "options": opts, "all": allx})


def probe_forbidden(case):
    base = {"V": {"type": "branch", "description": "d"}}
    case.write("m.vspec", gen.file_text(base))
    for j, w in enumerate(["a,b", "datatype", "min", "description", "type", "instances", "unit", "fka"]):
        r = case.export("json", "-s", "m.vspec", "-e", w, "-o", f"o{j}")
        expect_reject(case, r, "forbidden-whitelist", {"attribute": w}, out=f"o{j}")
    # a core attribute on a node that does not have it is an error even without strict
    for j, (k, v) in enumerate([("datatype", "uint8"), ("unit", None), ("min", 1), ("allowed", ["a"])]):
        case.write("m.vspec", gen.file_text({"V": {"type": "branch", "description": "d", k: v}}))
        r = case.export("json", "-s", "m.vspec", "-o", f"p{j}")
        expect_reject(case, r, "core-on-branch", {"attribute": k}, out=f"p{j}")
    case.sig, case.nontrivial, case.note = "forb", True, "core attributes cannot be whitelisted"


PROBES = {"forbidden": probe_forbidden}
