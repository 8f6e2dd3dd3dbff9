"""C09: user-defined struct types resolve to exactly the declared type."""
import copy

import gen
import ref
import typegen as tg
from common import *
from core import Skip

N_QUICK, N_THOROUGH = 1500, 15000
RULE = ("A random type tree (nested branches and structs, names that are prefixes of one another, equal short names in different "
        "namespaces) written in one or several type files, referenced by full path or short name, scalar or array, from properties and "
        "signals; unknown, out-of-scope and misspelled names injected. Oracle: independent lexical lookup; accepted exports must show "
        "the full path for every reference and every type node once; a later type file redefines what it restates. "
        "Non-trivial: at least one struct reference; distinct by tree and references.")
NEED = {"references_resolved": 800, "rejected_models": 100, "redefinitions": 50, "shadowing_references": 30}


def split_files(rng, nodes):
    """Each type file states its own ancestors."""
    tops = [f for f, a in nodes.items() if a["type"] == "struct" and not any(
        f.startswith(g + ".") and nodes[g]["type"] == "struct" for g in nodes)]
    nf = rng.randint(1, min(3, max(1, len(tops))))
    files = [{} for _ in range(nf)]
    for f in tops:
        fl = rng.choice(files)
        parts = f.split(".")
        for i in range(1, len(parts)):
            g = ".".join(parts[:i])
            fl[g] = nodes[g]
        for g, a in nodes.items():
            if g == f or g.startswith(f + "."):
                fl[g] = a
    for g, a in nodes.items():
        if not any(g in fl for fl in files):
            fl = rng.choice(files)
            parts = g.split(".")
            for i in range(1, len(parts) + 1):
                h = ".".join(parts[:i])
                fl[h] = nodes[h]
    return [f for f in files if f]


def random_case(case, i):
    rng = case.rng
    o = gen.Opts(hostile=0.1, allowed=0.15, minmax=0.2, default=0.2)
    if i % 3 == 0:
        # the same few names in many namespaces, mostly referred to by the short name
        o.struct_names, o.type_branches = rng.choice([(["S", "Point", "SX", "Q"], ["A", "B"]), (["S", "SX", "S1", "SX1"], ["S2", "A"]), (["Point", "Poin", "oint"], ["A", "AB"])])
    nodes, full, structs = tg.types(rng, o, refs=0.9, short=0.95, nmax=16) if i % 3 == 0 else tg.types(rng, o, refs=0.6, short=0.6, nmax=9)
    case.count("shadowing_references", sum(1 for f in full if (d := nodes[f]["datatype"].removesuffix("[]")) not in ref.SCALARS and "." not in d
                                           and sum(1 for s in structs if s.rsplit(".", 1)[1] == d and f.startswith(s.rsplit(".", 1)[0] + ".") and not f.startswith(s + ".")) > 1))
    files = split_files(rng, nodes)
    multi = len(files) > 1
    # short names across files: the nearest declaration must be in the same file or unambiguous
    if multi:
        shorts = [s.rsplit(".", 1)[-1] for s in structs]
        for f, a in nodes.items():
            d = a.get("datatype", "").rstrip("[]")
            if d and d not in structs and d not in ref.SCALARS and shorts.count(d) > 1:
                a["datatype"] = full[f]
    m = {"V": {"type": "branch", "description": "d"}}
    for j in range(rng.randint(1, 4)):
        s = rng.choice(structs)
        a = {"type": rng.choice(gen.LEAF_TYPES), "datatype": s + ("[]" if rng.random() < 0.4 else ""), "description": "d"}
        if rng.random() < 0.2 and a["datatype"].endswith("[]"):
            a["arraysize"] = 2
        m[f"V.Sig{j}"] = a
    if rng.random() < 0.3:
        m["V.Row"] = {"type": "branch", "description": "d", "instances": "Row[1,2]"}
        m["V.Row.S"] = {"type": "sensor", "datatype": rng.choice(structs), "description": "d"}
    errs = []
    r = rng.random()
    if r < 0.3:
        # a reference nothing visible matches
        props = [f for f in full if full[f].rstrip("[]") in structs]
        kind = rng.choice(["signal-short", "unknown", "out-of-scope", "prop-unknown", "branch-as-type", "array-twice", "case", "constrained"])
        anyp = [f for f in full]
        if kind == "signal-short":
            m["V.Bad"] = {"type": "sensor", "datatype": rng.choice(structs).rsplit(".", 1)[-1], "description": "d"}
        elif kind == "unknown":
            m["V.Bad"] = {"type": "sensor", "datatype": rng.choice(structs) + rng.choice(["X", ".Y", ""[:0] + "1", "."]), "description": "d"}
            if m["V.Bad"]["datatype"] in structs:
                raise Skip("exists")
        elif kind == "branch-as-type":
            m["V.Bad"] = {"type": "sensor", "datatype": rng.choice([f for f in nodes if nodes[f]["type"] == "branch"]), "description": "d"}
        elif kind == "array-twice":
            m["V.Bad"] = {"type": "sensor", "datatype": rng.choice(structs) + "[][]", "description": "d"}
        elif kind == "case":
            m["V.Bad"] = {"type": "sensor", "datatype": rng.choice(structs).lower(), "description": "d"}
            if m["V.Bad"]["datatype"] in structs:
                raise Skip("exists")
        elif kind == "constrained":
            m["V.Bad"] = {"type": "sensor", "datatype": rng.choice(structs), "description": "d", rng.choice(["default", "unit"]): "x"}
        else:
            f = rng.choice(anyp)
            if kind == "out-of-scope":
                c = [s.rsplit(".", 1)[-1] for s in structs if tg.lookup(s.rsplit(".", 1)[-1], f, structs) is None]
                # a struct's own short name is not visible inside itself by name; leave that out
                c = [x for x in c if x not in f.split(".")]
                if not c:
                    raise Skip("all visible")
                bad = rng.choice(c)
            else:
                bad = rng.choice(["Nope", "Types.Nope", "SXX", "Point2"])
            for fl in files:
                if f in fl:
                    fl[f] = {k: v for k, v in fl[f].items() if k in ("type", "description")}
                    fl[f]["datatype"] = bad
        errs.append(kind)
    # a later file restates part of what an earlier one defined
    redefined = {}
    if not errs and rng.random() < 0.35:
        f = rng.choice(list(full))
        parts = f.split(".")
        fl = {".".join(parts[:i]): dict(nodes[".".join(parts[:i])]) for i in range(1, len(parts))}
        new = {"type": "property", "datatype": rng.choice(["uint16", "string[]"]), "description": "redefined"}
        # the restated property keeps nothing that could clash
        if not any(k in nodes[f] for k in ("min", "max", "allowed", "default", "arraysize")):
            fl[f] = new
            redefined[f] = new
            if rng.random() < 0.5:
                st = f.rsplit(".", 1)[0]
                fl[st] = {"type": "struct", "description": "redefined struct"}
                redefined[st] = fl[st]
                fl[st + ".Added"] = {"type": "property", "datatype": "double", "description": "added"}
                redefined[st + ".Added"] = fl[st + ".Added"]
            files.append(fl)
            case.count("redefinitions")
    args = ["-s", "m.vspec", "--extend-all-attributes", "--types-output", "types.yaml"]
    for j, fl in enumerate(files):
        case.write(f"t{j}.vspec", gen.file_text(fl, (), rng))
        args += ["-t", f"t{j}.vspec"]
    case.write("m.vspec", gen.file_text(m, (), rng))
    case.sig = model_sig([nodes, m, files])
    case.nontrivial = True
    case.note = {"references": {f: [nodes[f]["datatype"], full[f]] for f in full if nodes[f]["datatype"].rstrip("[]") not in ref.SCALARS},
                 "files": len(files), "broken": errs, "redefined": list(redefined)}
    case.state("files", len(files), "structs", len(structs), errs[0] if errs else "ok", "redef", bool(redefined))
    r = case.export("yaml", *args, "-o", "out.yaml")
    if errs:
        case.count("rejected_models")
        expect_reject(case, r, "bad-reference-" + errs[0], case.note)
        return
    if not case.check(r.ok, "valid-rejected", lambda: {"note": case.note, **r.brief()}):
        return
    want = tg.resolved(nodes, full)
    for f, a in redefined.items():
        want[f] = {**want.get(f, {}), **a}
    # two keys may differ in the restated branches only by being stated twice
    got = load_yaml(case.read("types.yaml"))
    exp = {f: ref.exported(a) for f, a in want.items()}
    d = diff(exp, got)
    case.count("references_resolved", sum(1 for f in full if full[f].rstrip("[]") in structs) + len([a for a in m.values() if "datatype" in a]))
    case.check(not d, ("redefinition:" if redefined else "types:") + diffkind(d), lambda: {"diff": d, "note": case.note})
    sig = load_yaml(case.read("out.yaml"))
    d = diff(ref.shown(ref.resolve([m])), sig)
    case.check(not d, "signals:" + diffkind(d), lambda: {"diff": d})


def _probe_reject(texts, what):
    def run(case):
        for j, nodes in enumerate(texts):
            fs = nodes if isinstance(nodes, list) else [nodes]
            args = []
            for k, n in enumerate(fs):
                case.write(f"t{k}.vspec", gen.file_text(n))
                args += ["-t", f"t{k}.vspec"]
            case.write("m.vspec", gen.file_text({"V": {"type": "branch", "description": "d"}}))
            r = case.export("yaml", "-s", "m.vspec", *args, "-o", f"o{j}.yaml")
            expect_reject(case, r, what, {"types": nodes}, out=f"o{j}.yaml")
        case.sig, case.nontrivial, case.note = what, True, f"{len(texts)} type files"
    return run


_b = {"type": "branch", "description": "d"}
_s = {"type": "struct", "description": "d"}
_p = {"type": "property", "description": "d", "datatype": "uint8"}
PROBES = {
    "root-struct": _probe_reject([{"S": _s, "S.P": _p}, {"S": _s}], "struct-as-root"),
    "two-type-trees": _probe_reject([[{"T": _b, "T.S": _s, "T.S.P": _p}, {"U": _b, "U.S": _s, "U.S.P": _p}]], "two-type-trees"),
    "extra-attribute": _probe_reject([{"T": _b, "T.S": {**_s, "custom": 1}, "T.S.P": _p}, {"T": _b, "T.S": _s, "T.S.P": {**_p, "custom": 1}}], "type-extra-attribute"),
}
