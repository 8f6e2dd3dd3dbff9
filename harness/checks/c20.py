"""C20: protobuf output is valid proto3 with the messages, fields, types and numbers of the model."""
import os

import gen
import proto
import ref
import typegen as tg
from common import *
from core import Skip
from world import World

TECHNIQUE = "runtime monitoring: proto3 parser and linker plus reference mapping over generated files"
N_QUICK, N_THOROUGH = 600, 8000
RULE = ("Random models (instances, overlays, structs in several branches, arrays, similar and concatenation-equal names) are exported with and without --add-optional and --static-uid (generated by "
        "the id exporter or written by hand incl. collisions, reserved and out-of-range numbers, missing numbers), once or repeatedly into the same place with a changed model in between. Every "
        "generated file is parsed and linked by an independent proto3 implementation and every message, field, label, resolved type and number compared with the model. Distinct by model and options.")
NEED = {"messages_compared": 1500, "fields_compared": 5000, "static_fields": 300, "rejected_numbers": 20, "repeated_exports": 60, "name_collisions": 1, "struct_files": 80}
MAP = {"uint8": "uint32", "uint16": "uint32", "uint32": "uint32", "uint64": "uint64", "int8": "int32", "int16": "int32", "int32": "int32", "int64": "int64", "boolean": "bool",
       "float": "float", "double": "double", "string": "string"}


def want_field(child_attrs, msg, optional):
    if child_attrs["type"] == "branch":
        return ("optional" if optional else "", msg)
    dt = child_attrs["datatype"]
    base = dt.replace("[]", "")
    t = MAP.get(base, base)
    return ("repeated" if dt.endswith("[]") else "optional" if optional else "", t)


def expected(flat, types, optional, static):
    """{message: [(label, type, field, number)]} of the signal tree and the structs; number None: position."""
    out = {}

    def fields(f, nodes):
        kids = [(g, a) for g, a in nodes.items() if g.startswith(f + ".") and "." not in g[len(f) + 1:]]
        r = []
        for j, (g, a) in enumerate(kids, 1):
            n = j
            if static:
                n = int(a["staticUID"], 16) >> 3
            r.append(want_field(a, g.replace(".", ""), optional) + (g.rsplit(".", 1)[1], n))
        return r
    for f, a in flat.items():
        if a["type"] == "branch":
            out[f.replace(".", "")] = fields(f, flat)
    for f, a in (types or {}).items():
        if a["type"] == "struct":
            out[f] = fields(f, types)
    return out


def package_cycle(types):
    """Structs whose branches need each other cannot be split into one file per branch."""
    edges = {}
    for f, a in types.items():
        if a["type"] == "property" and "." in a["datatype"]:
            x, y = f.rsplit(".", 2)[0], a["datatype"].replace("[]", "").rsplit(".", 1)[0]
            if x != y:
                edges.setdefault(x, set()).add(y)

    def reach(x, seen):
        for y in edges.get(x, ()):
            if y in seen:
                return True
            if reach(y, seen | {y}):
                return True
        return False
    return any(reach(x, {x}) for x in edges)


def collisions(flat, types=None):
    names = [f.replace(".", "") for f, a in flat.items() if a["type"] == "branch"]
    # no protobuf compiler takes a message and a package of the same name
    return len(names) != len(set(names)) or bool(types) and next(iter(types)) in names


def bad_numbers(flat, types):
    for nodes in (flat, types or {}):
        per = {}
        for f, a in nodes.items():
            if "." not in f:
                continue
            par = f.rsplit(".", 1)[0]
            if nodes[par]["type"] == "branch" and nodes is types:
                continue  # packages have no fields
            if "staticUID" not in a:
                return "missing"
            n = int(a["staticUID"], 16) >> 3
            if n < 1 or n > 2**29 - 1:
                return "range"
            if 19000 <= n <= 19999:
                return "reserved"
            if n in per.setdefault(par, set()):
                return "collision"
            per[par].add(n)
    return None


def load(case, main, tdir):
    files = {"": proto.parse(case.read(main))}
    root = case.path(tdir)
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.relpath(os.path.join(d, f), root)
            files[p] = proto.parse(open(os.path.join(d, f), encoding="utf-8").read())
    return files


def judge(case, main, tdir, flat, types, optional, static, ctx):
    try:
        files = load(case, main, tdir)
        got = proto.link(files, "")
        # every generated file must stand on its own
        for p in files:
            if p:
                case.count("struct_files")
                got.update(proto.link(files, p))
    except proto.Err as e:
        case.fail("invalid-proto", {"error": str(e), "ctx": ctx})
        return
    want = expected(flat, types, optional, static)
    miss = [m for m in want if m not in got]
    extra = [m for m in got if m not in want]
    case.check(not miss, "message-missing", lambda: {"missing": miss[:5], "ctx": ctx})
    case.check(not extra, "message-unexpected", lambda: {"extra": extra[:5], "ctx": ctx})
    for m, fs in want.items():
        if m not in got:
            continue
        case.count("messages_compared")
        case.count("fields_compared", len(fs))
        if static:
            case.count("static_fields", len(fs))
            a, b = sorted(fs, key=lambda x: x[2]), sorted(got[m], key=lambda x: x[2])
        else:
            # the number is any unique one, the tool's choice
            a, b = sorted(x[:3] for x in fs), sorted(x[:3] for x in got[m])
        case.check(a == b, "fields", lambda: {"message": m, "expected": [x for x in a if x not in b][:5], "got": [x for x in b if x not in a][:5], "ctx": ctx})


def plain(w):
    flat = {f: {k: v for k, v in n.attrs.items() if k not in ("instances", "instantiate", "delete")} for f, n in w.flat.items()}
    return flat, w.types


def random_case(case, i):
    rng = case.rng
    w = World(case, types=0.6, expand=True, nested_structs=0.0, hostile=0.1, hostile_values=0.1, max_nodes=rng.choice([6, 14, 25]), short=0.3, same_root=0.1,
              **({"names": ["A", "B", "AB", "BA", "AA", "BB", "AAB", "ABB"]} if i % 7 == 3 else {}))
    flat, types = plain(w)
    mode = ["plain", "plain", "repeat", "uid-export", "uid-hand"][i % 5]
    optional = rng.random() < 0.4
    if types and package_cycle(types):
        raise Skip("structs need each other across branches")
    args = list(w.args)
    if mode.startswith("uid"):
        case.write("m2.vspec", gen.dump({}))
    opts = (["--add-optional"] if optional else []) + (["--types-out-dir", "td"] if types else [])
    ctx = {"mode": mode, "optional": optional}
    case.sig = model_sig([flat, types, mode, optional])
    case.note = {"mode": mode, "args": args, "branches": len(w.branches), "structs": len(w.structs)}
    case.state(mode, optional, bool(types))
    if mode in ("plain", "repeat"):
        r = case.export("protobuf", *args, *opts, "-o", "o.proto")
        case.count("name_collisions", collisions(flat, w.types))
        if not r.ok:
            case.check(collisions(flat, w.types), "rejected", lambda: r.brief())
            case.check(not case.exists("o.proto"), "rejected-wrote", lambda: r.brief())
            return
        judge(case, "o.proto", "td", flat, types, optional, False, ctx)
        if mode == "repeat":
            case.count("repeated_exports")
            first = {f: case.read(f) for f in ["o.proto"]}
            if rng.random() < 0.5:
                r = case.export("protobuf", *args, *opts, "-o", "o.proto")
                case.check(r.ok and case.read("o.proto") == first["o.proto"], "repeat-differs", lambda: r.brief())
                judge(case, "o.proto", "td", flat, types, optional, False, {**ctx, "second": "same"})
            else:
                optional = not optional
                opts = (["--add-optional"] if optional else []) + (["--types-out-dir", "td"] if types else [])
                ov = {f: {"type": "sensor", "datatype": "uint64", "description": "changed"} for f in rng.sample(sorted(w.leaves), min(1, len(w.leaves)))}
                if ov:
                    case.write("chg.vspec", gen.file_text(ov))
                r = case.export("protobuf", *args, *opts, "--types-out-dir", "td", "-o", "o.proto")
                judge(case, "o.proto", "td", flat, types, optional, False, {**ctx, "second": "other option"})
        return
    # static numbers
    if mode == "uid-export":
        if types:
            raise Skip("the id export has no struct ids")
        r = case.export("id", *args, "-o", "ids.yaml")
        if not r.ok:
            raise Skip("id collision")
        ids = load_yaml(case.read("ids.yaml"))
        nodes = {f: {**a, "staticUID": ids[f]["staticUID"]} for f, a in flat.items() if f in ids}
        for f, a in flat.items():
            nodes.setdefault(f, dict(a, staticUID="0x%08X" % rng.randrange(2**20, 2**32)))
    else:
        nodes = {f: dict(a, staticUID=uid(rng)) for f, a in flat.items()}
        types = types and {f: dict(a, staticUID=uid(rng)) for f, a in types.items()}
        if rng.random() < 0.5:
            pool = rng.choice([nodes, types]) if types else nodes
            f = rng.choice(list(pool))
            k = rng.choice(["missing", "range", "reserved", "collision"])
            if k == "missing":
                del pool[f]["staticUID"]
            elif k == "range":
                pool[f]["staticUID"] = "0x%08X" % rng.randrange(8)
            elif k == "reserved":
                pool[f]["staticUID"] = "0x%08X" % (rng.randrange(19000, 20000) * 8 + rng.randrange(8))
            else:
                sib = [g for g in pool if "." in f and g != f and g.rsplit(".", 1)[0] == f.rsplit(".", 1)[0]]
                if sib and "staticUID" in pool[sib[0]]:
                    pool[f]["staticUID"] = "0x%08X" % (int(pool[sib[0]]["staticUID"], 16) ^ rng.randrange(8))
    case.write("m2.vspec", gen.file_text(nodes, (), rng))
    args2 = ["-s", "m2.vspec", *w.uargs, "-e", "staticUID", "--static-uid"]
    if types:
        case.write("t2.vspec", gen.file_text(types, (), rng))
        args2 += ["-t", "t2.vspec"]
    bad = bad_numbers(nodes, types)
    r = case.export("protobuf", *args2, *opts, "-o", "o.proto")
    ctx["numbers"] = bad
    case.state("numbers", bad, bool(types))
    if bad:
        case.count("rejected_numbers")
        case.check(not r.ok, f"accepted-{bad}", lambda: {**r.brief(), "ctx": ctx, "file": case.read("o.proto")[:3000]})
        return
    if not r.ok:
        case.check(collisions(flat, w.types), "static-rejected", lambda: r.brief())
        return
    judge(case, "o.proto", "td", nodes, types, optional, True, ctx)
    # other signals come and go
    keep = {f: a for f, a in nodes.items() if f.count(".") < 1 or nodes[f]["type"] == "branch" or rng.random() < 0.6}
    root = next(f for f in nodes if "." not in f)
    keep[root + ".ZNew"] = {"type": "sensor", "datatype": "string", "description": "d", "staticUID": uid(rng)}
    if bad_numbers(keep, types):
        return
    case.write("m3.vspec", gen.file_text(keep, (), rng))
    args3 = ["m3.vspec" if a == "m2.vspec" else a for a in args2]
    r = case.export("protobuf", *args3, *opts, "-o", "o2.proto")
    case.count("repeated_exports")
    if case.check(r.ok, "history-rejected", lambda: r.brief()):
        judge(case, "o2.proto", "td", keep, types, optional, True, {**ctx, "second": "other signals"})


def uid(rng):
    while True:
        u = rng.choice([rng.randrange(8, 2**32), rng.randrange(2**31, 2**32), rng.randrange(8, 5000)])
        if not 19000 <= u >> 3 <= 19999:
            return rng.choice(["0x%08X", "0x%08x", "0x%X"]) % u


def probe_numbers(case):
    """First and last legal static numbers, the borders of the reserved range."""
    base = {"V": {"type": "branch", "description": "d"}}
    for u, ok in [("0x00000007", False), ("0x00000008", True), ("0xFFFFFFFF", True), ("0x%08X" % (18999 * 8 + 7), True), ("0x%08X" % (19000 * 8), False),
                  ("0x%08X" % (19999 * 8 + 7), False), ("0x%08X" % (20000 * 8), True)]:
        case.write("m.vspec", gen.file_text({**base, "V.A": {"type": "sensor", "datatype": "uint8", "description": "d", "staticUID": u}}))
        if case.exists("o.proto"):
            os.unlink(case.path("o.proto"))
        r = case.export("protobuf", "-s", "m.vspec", "-e", "staticUID", "--static-uid", "-o", "o.proto")
        case.check(r.ok == ok, "number-border", lambda: {"uid": u, **r.brief()})
        if ok and r.ok:
            p = proto.parse(case.read("o.proto"))
            case.check(p["messages"]["V"] == [("", "uint32", "A", int(u, 16) >> 3)], "number-value", lambda: {"uid": u, "got": p["messages"]})
        case.count("rejected_numbers", not ok)
    case.sig, case.nontrivial, case.note = "numbers", True, "borders of the legal numbers"


def probe_two_structs_one_import(case):
    """Two structs of one branch use the same other branch: the file imports it once."""
    t = {"T": {"type": "branch", "description": "d"}, "T.A": {"type": "branch", "description": "d"}, "T.B": {"type": "branch", "description": "d"},
         "T.A.S": {"type": "struct", "description": "d"}, "T.A.S.x": {"type": "property", "datatype": "T.B.P[]", "description": "d"},
         "T.A.R": {"type": "struct", "description": "d"}, "T.A.R.x": {"type": "property", "datatype": "T.B.P", "description": "d"}, "T.A.R.y": {"type": "property", "datatype": "T.A.S", "description": "d"},
         "T.B.P": {"type": "struct", "description": "d"}, "T.B.P.v": {"type": "property", "datatype": "int8[]", "description": "d"}}
    m = {"V": {"type": "branch", "description": "d"}, "V.X": {"type": "sensor", "datatype": "T.A.R[]", "description": "d"}, "V.Y": {"type": "sensor", "datatype": "T.A.S", "description": "d"}}
    case.write("m.vspec", gen.file_text(m))
    case.write("t.vspec", gen.file_text(t))
    for k in range(2):
        r = case.export("protobuf", "-s", "m.vspec", "-t", "t.vspec", "--types-out-dir", "td", "-o", "o.proto")
        if case.check(r.ok, "rejected", lambda: r.brief()):
            judge(case, "o.proto", "td", m, t, False, False, {"run": k})
    case.sig, case.nontrivial, case.note = "imports", True, "same import from two structs, exported twice"


def probe_import_cycle(case):
    """Two branches with structs that use structs of the other branch."""
    t = {"T": {"type": "branch", "description": "d"}, "T.A": {"type": "branch", "description": "d"}, "T.B": {"type": "branch", "description": "d"},
         "T.A.S": {"type": "struct", "description": "d"}, "T.A.S.x": {"type": "property", "datatype": "T.B.P", "description": "d"},
         "T.A.R": {"type": "struct", "description": "d"}, "T.A.R.x": {"type": "property", "datatype": "uint8", "description": "d"},
         "T.B.P": {"type": "struct", "description": "d"}, "T.B.P.v": {"type": "property", "datatype": "T.A.R", "description": "d"}}
    m = {"V": {"type": "branch", "description": "d"}, "V.X": {"type": "sensor", "datatype": "T.A.S", "description": "d"}}
    case.write("m.vspec", gen.file_text(m))
    case.write("t.vspec", gen.file_text(t))
    r = case.export("protobuf", "-s", "m.vspec", "-t", "t.vspec", "--types-out-dir", "td", "-o", "o.proto")
    if r.ok:
        judge(case, "o.proto", "td", m, t, False, False, {})
    case.sig, case.nontrivial, case.note = "cycle", True, "structs of two branches use each other"


def probe_joined_names(case):
    """Branches whose joined names are equal never become one message, or two of one name."""
    for paths in (["V.AB", "V.AB.C", "V.A", "V.A.BC"], ["V.A", "V.A.B", "V.AB"]):
        m = {"V": {"type": "branch", "description": "d"}}
        for j, b in enumerate(paths):
            m[b] = {"type": "branch", "description": "d"}
            m[b + f".X{j}"] = {"type": "sensor", "datatype": "uint8", "description": "d"}
        case.write("m.vspec", gen.file_text(m))
        for st in ([], ["--add-optional"]):
            r = case.export("protobuf", "-s", "m.vspec", *st, "-o", "o.proto")
            case.count("name_collisions")
            if r.ok:
                try:
                    got = proto.link(load(case, "o.proto", "none"), "")
                    fields = sorted(f for fs in got.values() for _, t, f, _ in fs if t == "uint32")
                    case.check(fields == [f"X{j}" for j in range(len(paths))], "joined-lost", lambda: {"fields": fields})
                except proto.Err as e:
                    case.fail("joined-invalid", {"error": str(e), "branches": paths})
            else:
                case.check(not case.exists("o.proto"), "rejected-wrote", lambda: r.brief())
    case.sig, case.nontrivial, case.note = "joined", True, "V.AB.C and V.A.BC"


PROBES = {"joined-names": probe_joined_names, "import-cycle": probe_import_cycle, "numbers": probe_numbers, "imports": probe_two_structs_one_import}
