"""C23: the DDS-IDL output is well-formed and mirrors branches, leaves, user structs and enumerations."""
import re

import gen
import ref
import typegen
from common import *
from idl import Idl, IdlError, RESERVED, TOK, unquote
from world import World

TECHNIQUE = "runtime monitoring: generated IDL read by an independent parser with scoping rules, compared with the reference tree"
N_QUICK, N_THOROUGH = 1200, 12000
RULE = ("Random models with names equal to IDL, C and Python keywords, hostile text in descriptions, units and string values, enumerations, arrays, struct types over several branches, leafless branches, "
        "instances and overlays are exported with and without --all-idl-features and --uuid; an IDL parser checks syntax, keywords, redefinition, name resolution and declaration before use, and modules, structs, "
        "member types, sequences, enumerations, constants, ranges and defaults are compared with the reference tree. Distinct by model and options.")
NEED = {"leaf_structs": 5000, "user_structs": 300, "enums": 500, "sequences": 800, "struct_references": 300, "keyword_names": 1000, "constants": 5000, "defaults": 200, "ranges": 50, "shadowed": 5}
MAP = {"uint8": "octet", "int8": "octet", "uint16": "unsigned short", "int16": "short", "uint32": "unsigned long", "int32": "long", "uint64": "unsigned long long", "int64": "long long",
       "boolean": "boolean", "float": "float", "double": "double", "string": "string"}
KW = ["Float", "Int", "Long", "String", "Boolean", "Struct", "Module", "Any", "Object", "In", "Out", "TRUE", "False", "Default", "Class", "Import", "Switch", "Enum", "Sequence", "UInt8", "Private",
      "Port", "Register", "Return", "Lambda", "Global", "None", "Map", "Native", "ValueBase", "Octet"]
KW += sorted({k.capitalize() for k in RESERVED - {k.lower() for k in KW}})
KWP = ["float", "string", "Object", "TRUE", "default", "class", "lambda", "in", "Out", "x", "y", "z", "Value", "count", "S", "Types", "Range", "None"]


def norm(s):
    return re.sub(r"[^A-Za-z0-9]", "", str(s))


def same_value(case, got, want, lits, allowed):
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(same_value(case, g, w, lits, allowed) for g, w in zip(got, want))
    if isinstance(got, tuple):
        return lits is not None and got[1] in lits and allowed[lits.index(got[1])] == want
    if isinstance(want, bool) or isinstance(got, bool):
        return got is want
    if isinstance(want, str) or isinstance(got, str):
        return got == want
    return float(got) == float(want)


def comment_consts(case, fqn, comments):
    out = {}
    for c in comments:
        m = re.fullmatch(r'const string (\w+) ?=("(?:\\.|[^"\\])*");', c)
        if not case.check(m is not None, "comment-constant", lambda: {"node": fqn, "comment": c}):
            return out
        out[m[1]] = unquote(m[2])
    return out


def random_case(case, i):
    rng = case.rng
    kw = rng.random() < 0.5
    w = World(case, types=0.5, expand=True, nested_structs=0.0, hostile=rng.choice([0.2, 0.8]), hostile_values=rng.choice([0, 0.5]), empty_branch=rng.choice([0.05, 0.4]), uuid=0.3, same_root=0.12,
              scalars=list(ref.SCALARS) + ["string"] * rng.choice([0, 8]), allowed=rng.choice([0.25, 0.6]),
              names=gen.NAMES + KW * 2 if kw else gen.NAMES, prop_names=KWP if kw else typegen.PR)
    full = rng.random() < 0.5
    opts = ["--all-idl-features"] if full else []
    case.note = {"args": w.args + opts, "leaves": len(w.leaves), "structs": len(w.structs)}
    r = case.export("ddsidl", *w.args, *opts, "-o", "o.idl")
    if not r.ok and w.twice():
        case.count("name_collisions")
        case.check("Traceback" not in r.out, "collision-crash", lambda: r.brief())
        case.check(not case.exists("o.idl"), "collision-wrote", {})
        return
    if not case.check(r.ok, "rejected", lambda: r.brief()):
        return
    case.count("same_root_accepted", w.same_root)
    text = case.read("o.idl")
    try:
        idl = Idl(text)
    except IdlError as e:
        case.fail("invalid-idl", {"error": str(e)[:400], "all": full})
        return
    flat = {f: n.attrs for f, n in w.flat.items()}
    leaves = {tuple(f.split(".")): f for f in w.leaves}
    structs = {tuple(f.split(".")): f for f, a in (w.types or {}).items() if a["type"] == "struct"}
    got = set(idl.structs)
    case.check(got == leaves.keys() | structs.keys(), "structs", lambda: {"missing": sorted((leaves.keys() | structs.keys()) - got)[:5], "extra": sorted(got - (leaves.keys() | structs.keys()))[:5]})
    case.count("keyword_names", sum(p[-1] in KW for p in leaves))
    case.count("shadowed", sum("Types" in p for p in leaves) if any(a["datatype"].startswith("Types.") for a in flat.values() if "datatype" in a) else 0)
    for p in structs.keys() & got:
        case.count("user_structs")
        s, f = idl.structs[p], structs[p]
        want = {g.rsplit(".", 1)[-1]: a for g, a in w.types.items() if g.rsplit(".", 1)[0] == f and a["type"] == "property"}
        case.check([m.name for m in s.members] == list(want) or sorted(m.name for m in s.members) == sorted(want), "struct-members", lambda: {"struct": f, "got": [m.name for m in s.members], "expected": list(want)})
        for m in s.members:
            if m.name in want:
                member(case, f"{f}.{m.name}", m, want[m.name]["datatype"], "property")
    enums = set()
    for p in leaves.keys() & got:
        case.count("leaf_structs")
        s, f = idl.structs[p], leaves[p]
        a = flat[f]
        names = ["uuid", "value"] if w.uuid else ["value"]
        if not case.check([m.name for m in s.members] == names, "leaf-members", lambda: {"node": f, "got": [m.name for m in s.members], "expected": names}):
            continue
        if w.uuid:
            case.check(s.members[0].type == "string" and not s.members[0].seq, "uuid-member", lambda: {"node": f, "type": s.members[0].type})
        v = s.members[-1]
        lits = None
        if a.get("allowed") and a["datatype"] in ("string", "string[]"):
            case.count("enums")
            if case.check(v.ref is not None and v.ref.kind == "enum", "no-enum", lambda: {"node": f, "type": v.type}):
                lits = v.ref.literals
                case.check(id(v.ref) not in enums, "enum-shared", lambda: {"node": f})
                enums.add(id(v.ref))
                case.check(len(lits) == len(a["allowed"]) and all(norm(x) in (norm(y), "d" + norm(y)) for x, y in zip(lits, a["allowed"])), "enum-literals",
                           lambda: {"node": f, "got": lits, "allowed": a["allowed"]})
        else:
            member(case, f, v, a["datatype"], "value")
        consts = s.consts if full else comment_consts(case, f, s.comments)
        case.check(bool(s.consts) == full and bool(s.comments) != full, "constants-active", lambda: {"node": f, "all": full, "consts": s.consts, "comments": s.comments})
        want = {"type": a["type"], "description": a["description"], **({"unit": a["unit"]} if a.get("unit") is not None else {})}
        case.count("constants", len(want))
        case.check(consts == want, "constants", lambda: {"node": f, "got": consts, "expected": want})
        rg = (float(a["min"]), float(a["max"])) if full and a.get("min") is not None and a.get("max") is not None else None
        case.count("ranges", rg is not None)
        case.check(v.range == rg, "range", lambda: {"node": f, "got": v.range, "expected": rg})
        d = a.get("default") if full else None
        case.count("defaults", d is not None)
        case.check((v.default is None) == (d is None) and (d is None or same_value(case, v.default[0], d, lits, a.get("allowed"))), "default", lambda: {"node": f, "got": v.default, "expected": d, "literals": lits})


def member(case, where, m, dt, kind):
    arr = dt.endswith("[]")
    base = dt.replace("[]", "")
    case.count("sequences", arr)
    case.check(m.seq == arr, f"{kind}-sequence", lambda: {"node": where, "datatype": dt, "sequence": m.seq})
    if base in MAP:
        case.check(m.type == MAP[base], f"{kind}-type", lambda: {"node": where, "datatype": dt, "type": m.type})
    else:
        case.count("struct_references")
        case.check(m.type == base.replace(".", "::") and m.ref is not None and m.ref.kind == "struct", f"{kind}-struct", lambda: {"node": where, "datatype": dt, "type": m.type})


def probe_cycle(case):
    """Structs that use each other through sequences, and a use before the definition."""
    t = "".join(f"{f}:\n  type: {k}\n  description: d\n" + (f"  datatype: {d}\n" if d else "") for f, k, d in [
        ("Types", "branch", ""), ("Types.A", "branch", ""), ("Types.A.S", "struct", ""), ("Types.A.S.b", "property", "Types.B.T[]"), ("Types.A.U", "struct", ""), ("Types.A.U.v", "property", "Types.A.V"),
        ("Types.A.V", "struct", ""), ("Types.A.V.w", "property", "Types.B.T"), ("Types.B", "branch", ""), ("Types.B.T", "struct", ""), ("Types.B.T.a", "property", "Types.A.S[]")])
    case.write("t.vspec", t)
    case.write("m.vspec", "V:\n  type: branch\n  description: d\nV.X:\n  type: sensor\n  datatype: Types.A.U[]\n  description: d\n")
    r = case.export("ddsidl", "-s", "m.vspec", "-t", "t.vspec", "-o", "o.idl")
    if case.check(r.ok, "cycle-rejected", lambda: r.brief()):
        try:
            idl = Idl(case.read("o.idl"))
            case.count("user_structs", 4)
            case.check(set(idl.structs) == {tuple(x.split(".")) for x in ("Types.A.S", "Types.A.U", "Types.A.V", "Types.B.T", "V.X")}, "cycle-structs", lambda: sorted(idl.structs))
        except IdlError as e:
            case.fail("invalid-idl-cycle", {"error": str(e)})
    case.sig, case.nontrivial, case.note = "cycle", True, "mutually recursive structs"


PROBES = {"cycle": probe_cycle}
