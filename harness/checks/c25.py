"""C25: SAMM models are valid Turtle, self-contained, and mirror exactly the selected nodes."""
import os
from collections import Counter

import gen
import ref
from common import *
from rdflib import Literal
from rdflib.namespace import RDF, XSD
from samm import C, META, M, UNIT, Bad, Models
from core import Skip
from world import World

TECHNIQUE = "runtime monitoring: closure monitor over generated RDF graphs and payload walk from the root aspect compared with a reference tree"
N_QUICK, N_THOROUGH = 1500, 25000
RULE = ("Random models (instances of every form, uninstantiated children, colliding names, deprecated nodes, hostile texts, enumerations of every type, ranges, falsy defaults, units, versions) are exported with random "
        "split options, namespaces and signal files (leaves, branches, names that are prefixes of others, blank lines, unknown paths). Every file is parsed as Turtle; every element must be declared once and every "
        "reference resolved; the paths reached from the root aspect and the metadata of every leaf are compared with the reference. Distinct by model and options.")
NEED = {"files_parsed": 1500, "references_resolved": 20000, "paths_compared": 12000, "leaves_compared": 6000, "enums_compared": 1000, "ranges_compared": 600, "defaults_compared": 4000, "units_compared": 800,
        "selections": 80, "instances_walked": 300, "descriptions_compared": 2500}
TYPES = {"uint8": XSD.unsignedByte, "int8": XSD.byte, "uint16": XSD.unsignedShort, "int16": XSD.short, "uint32": XSD.unsignedInt, "int32": XSD.int, "uint64": XSD.unsignedLong, "int64": XSD.long,
         "boolean": XSD.boolean, "float": XSD.float, "double": XSD.double, "string": XSD.string}
UNITS = {"km": "kilometre", "m": "metre", "mm": "millimetre", "kg": "kilogram", "A": "ampere", "V": "volt", "Nm": "newtonMetre", "celsius": "degreeCelsius", "km/h": "kilometrePerHour", "m/s": "metrePerSecond",
         "kPa": "kilopascal", "mbar": "millibar", "min": "minuteUnitOfTime", "s": "secondUnitOfTime", "h": "hourUnitOfTime", "W": "watt", "kW": "kilowatt", "kWh": "kilowattHour", "l": "litre", "ml": "millilitre",
         "percent": "percent", "inch": "inch", "rpm": "revolutionsPerMinute", "degrees": "degreeUnitOfAngle", "l/h": "litrePerHour", "cm^3": "cubicCentimetre"}
NUM = list(ref.INT_RANGE) + ["float", "double"]
NAMES = ["A", "B", "AB", "Door", "DoorRow", "Row", "Row1", "Base", "BCharacteristic", "ABaseCharacteristic", "BEntity", "Constraint", "Instance", "DoorInstance", "Vehicle", "Trait", "BTrait", "Position", "X", "DoorX", "B2"]


def scalar(a):
    return a["datatype"].replace("[]", "")


def lit_ok(lit, v, dt, typ=None):
    """Does the literal carry the value of the datatype?"""
    if not isinstance(lit, Literal):
        return False
    s = str(lit)
    if (lit.datatype or XSD.string) != (typ or TYPES[dt]):
        return False
    try:
        if dt == "string":
            return s == v
        if dt == "boolean":
            return s in (("true", "1") if v else ("false", "0"))
        if dt in ref.INT_RANGE and not isinstance(v, float):
            return int(s) == v
        return float(s) == float(v)
    except ValueError:
        return False


def select(flat, sel):
    """The nodes of an unexpanded specification that a list of paths selects."""
    keep = {f for f in flat if any(f == s or f.startswith(s + ".") for s in sel)}
    for f in list(keep):
        p = f.split(".")
        keep |= {".".join(p[:i]) for i in range(1, len(p))}
    return keep


def random_case(case, i):
    rng = case.rng
    names = rng.random() < 0.35
    units = [(u, ["numeric"]) for u in rng.sample(sorted(UNITS), 5)] + [("unheard", ["numeric"]), ("txt", ["string"]), ("iso8601", ["string"])]
    o = gen.Opts(hostile=rng.choice([0.1, 0.6]), hostile_values=rng.choice([0.1, 0.5]), instances=rng.choice([0, 0.3, 0.6]), max_nodes=rng.choice([6, 14, 25]), deprecation=rng.choice([0, 0.15]),
                 falsy=rng.choice([0.1, 0.5]), empty_branch=rng.choice([0, 0.3]), strict_names=not names, **({"names": NAMES} if names else {}), roots=rng.choice([["Vehicle"], ["Vehicle", "Root", "Xy"]]))
    w = World(case, units=units, opts=o, types=0.15, overlays=0.3, expand=True, inst_over=0)
    args = list(w.args)
    layers = list(w.layers)
    root = w.root.name
    version = [1, 0, 0]
    if rng.random() < 0.3 and not any(f.startswith(f"{root}.VersionVSS") for f in w.flat):
        ver = {f"{root}.VersionVSS": {"type": "branch", "description": "version"}}
        for j, n in enumerate(("Major", "Minor", "Patch")):
            if rng.random() < 0.85:
                version[j] = rng.choice([0, 1, 2, 5, 10])
                ver[f"{root}.VersionVSS.{n}"] = {"type": "attribute", "datatype": "uint32", "description": n, "default": version[j]}
        if "instances" not in w.layers[0][root]:
            case.write("ver.vspec", gen.file_text(ver, (), rng))
            args += ["-l", "ver.vspec"]
            layers.append(ver)
        else:
            version = [1, 0, 0]
    # options
    split = rng.random() < 0.6
    depth = rng.choice([None, 1, 2, 3])
    args += rng.choice([["--split"], []]) if split else ["--no-split"]
    if depth:
        args += ["--split-depth", str(depth)]
    ns = rng.choice([None, "com.example.x", "org.a.b-c"])
    if ns:
        args += ["--target-namespace", ns]
    ns = ns or "com.covesa.vss.spec"
    # what is to be seen
    flat = ref.flat(ref.resolve(layers, False))
    keep = set(flat)
    sel = None
    if rng.random() < 0.4:
        pool = sorted(flat)
        sel = rng.sample(pool, min(len(pool), rng.choice([1, 1, 2, 4])))
        lines = list(sel)
        for _ in range(rng.choice([0, 0, 1, 2])):
            lines.insert(rng.randrange(len(lines) + 1), rng.choice(["", "  ", root + ".Unknown.Signal", rng.choice(pool) + "X", rng.choice(pool)[:-1].rstrip(".") or "Q", "Q"]))
        sel = [x.strip() for x in lines if x.strip()]
        case.write("sig.txt", rng.choice(["\n", "\r\n"]).join(lines) + rng.choice(["", "\n", "\n\n"]))
        args += ["--signals-file", "sig.txt"]
        keep = select(flat, sel)
        case.count("selections")
    for f in list(keep):
        if flat[f].attrs.get("deprecation"):
            keep -= {x for x in keep if x == f or x.startswith(f + ".")}
    # aspects: the root, and with --split the branches down to the given depth
    limit = (depth or 1) if split else 0
    dep = {f for f in flat if flat[f].attrs.get("deprecation")}
    in_sel = select(flat, sel) if sel is not None else set(flat)
    aspects = set()
    for f in sorted(keep, key=lambda f: f.count(".")):
        if f not in keep or flat[f].attrs["type"] != "branch" or f.count(".") > limit:
            continue
        kids = [k for k in in_sel if k.count(".") == f.count(".") + 1 and k.startswith(f + ".")]
        if all(k in dep for k in kids):
            # nothing but deprecated children: left out as a whole
            keep -= {x for x in keep if x == f or x.startswith(f + ".")}
        else:
            aspects.add(f)
    case.note = {"args": args, "selected": sel, "aspects": sorted(aspects)}
    case.sig = model_sig([layers, args, sel])
    expanded = None
    if root in keep:
        lay = {f: {k: v for k, v in flat[f].attrs.items() if k != "delete"} for f in sorted(keep, key=lambda f: f.count("."))}
        expanded = ref.resolve([lay], True)
    case.nontrivial = len(keep) > 2
    out = rng.choice(["out", "a/b/out"])
    r = case.export("samm", *args, "--target-folder", out)
    if not case.check(r.ok, "rejected", lambda: r.brief()):
        return
    if expanded is None:
        case.check(not case.exists(out), "files-for-nothing", {"files": str(case.exists(out))})
        return
    want_dir = f"{out}/{ns}/{version[0]}.{version[1]}.{version[2]}"
    if not case.check(os.path.isdir(case.path(want_dir)), "folder", lambda: {"expected": want_dir, "found": [x[0] for x in os.walk(case.path(out))]}):
        return
    m = Models(case, out, f"urn:samm:{ns}:{version[0]}.{version[1]}.{version[2]}#")
    case.count("files_parsed", len(m.files))
    pre = os.path.relpath(want_dir, out) + "/"
    case.check(all(n.startswith(pre) and n.endswith(".ttl") and "/" not in n[len(pre):] for n in m.names), "stray-files", {"files": m.names})
    n, refs = m.check()
    case.count("elements_declared", n)
    case.count("references_resolved", refs)
    for sig, d in m.problems:
        case.fail(sig, d)
    if m.problems:
        return
    # one aspect per file, named alike
    asp = m.aspects()
    case.check(all(len(a) == 1 and f == pre + a[0] + ".ttl" for f, a in asp.items()), "aspect-per-file", lambda: {"aspects": asp})
    case.check(len(asp) == len(aspects), "aspects", lambda: {"got": asp, "expected": sorted(aspects)})
    top = [a[0] for a in asp.values() if a and a[0].casefold() == root.casefold()]
    if not case.check(len(top) == 1, "root-aspect", lambda: {"aspects": asp, "root": root}):
        return
    # paths
    try:
        got = m.walk(top[0])
        # aspects are bound to the nodes they were made for
        props = {p: path for path, p, _, _ in got}
        bound = Counter(props.get(m.items(s, M("properties"))[0]) for s in m.g.subjects(RDF.type, M("Aspect")))
        case.check(None not in bound and all(v == 1 for v in bound.values()), "aspect-binding", lambda: {"bound": str(bound)})
    except Bad as e:
        case.fail("malformed-model", {"error": str(e)})
        return
    want = {}
    for f, node in expanded.walk():
        want.setdefault(tuple(x.casefold() for x in f.split(".")[1:]), []).append(node)
    gp = Counter(tuple(x.casefold() for x in p) for p, _, _, _ in got)
    wp = Counter({p: len(v) for p, v in want.items()})
    case.count("paths_compared", sum(wp.values()))
    if not case.check(gp == wp, "paths", lambda: {"missing": [".".join(x) for x in sorted((wp - gp))[:6]], "extra": [".".join(x) for x in sorted((gp - wp))[:6]]}):
        return
    # where a node comes from
    source = {}
    for f in keep:
        source.setdefault(f.split(".")[-1], []).append(f)
    for path, prop, ch, opt in got:
        key = tuple(x.casefold() for x in path)
        if len(want[key]) != 1:
            continue
        node = want[key][0]
        a = node.attrs
        if node.instance:
            case.count("instances_walked")
            case.check(opt, "instance-not-optional", lambda: {"path": path})
            continue
        if a["type"] == "branch":
            if not a.get("instances") and not any(k.instance for k in node.kids.values()):
                describe(case, m, path, ch, a, source[node.name])
            continue
        leaf(case, m, path, prop, ch, a, source[node.name])


def describe(case, m, path, ch, a, fqns):
    case.count("descriptions_compared")
    d = [str(x) for x in m.g.objects(ch, M("description"))]
    texts = [t for t in (a.get("description"), a.get("comment"), a.get("unit")) if t and t.strip()]
    case.check(len(d) == 1 and all(t in d[0] for t in texts) and any(f in d[0] for f in fqns), "description", lambda: {"path": path, "got": d, "expected": texts + fqns})


def leaf(case, m, path, prop, ch, a, fqns):
    g = m.g
    case.count("leaves_compared")
    where = {"path": ".".join(path), "attrs": {k: a[k] for k in a if k not in ("description", "comment")}}
    dt = scalar(a)
    types = set(g.objects(ch, RDF.type))
    lo, hi = a.get("min"), a.get("max")
    ranged = a["type"] in ("sensor", "actuator") and (lo is not None or hi is not None)
    if not case.check((types == {C("Trait")}) == ranged, "range-missing" if ranged else "range-invented", lambda: {**where, "types": [str(t) for t in types]}):
        return
    if ranged:
        case.count("ranges_compared")
        cons = list(g.objects(ch, C("constraint")))
        base = list(g.objects(ch, C("baseCharacteristic")))
        if not case.check(len(cons) == 1 and len(base) == 1 and (cons[0], RDF.type, C("RangeConstraint")) in g, "trait", lambda: where):
            return
        for v, q in ((lo, "minValue"), (hi, "maxValue")):
            x = list(g.objects(cons[0], C(q)))
            case.check(x == [] if v is None else len(x) == 1 and (dt not in TYPES or lit_ok(x[0], v, dt)), f"range-{q}", lambda: {**where, "got": [y.n3() for y in x]})
        ch = base[0]
        types = set(g.objects(ch, RDF.type))
    describe(case, m, path, ch, a, fqns)
    stamp = a.get("unit") == "iso8601"
    typ = XSD.dateTimeStamp if stamp else TYPES.get(dt)
    if dt in TYPES:
        x = list(g.objects(ch, M("dataType")))
        case.check(x == [typ], "datatype", lambda: {**where, "got": [str(y) for y in x]})
    default = a.get("default")
    single = default is not None and not isinstance(default, list)
    values = list(g.objects(ch, C("values")))
    if a.get("allowed"):
        case.count("enums_compared")
        case.check(types == {C("State") if single else C("Enumeration")}, "enum-kind", lambda: {**where, "got": [str(t) for t in types]})
        got = m.items(ch, C("values")) if values else []
        case.check(len(got) == len(a["allowed"]) and all(lit_ok(x, v, dt, typ) for x, v in zip(got, a["allowed"])), "enum-values", lambda: {**where, "got": [x.n3() for x in got]})
        x = list(g.objects(ch, C("defaultValue")))
        case.count("defaults_compared")
        case.check(len(x) == 1 and lit_ok(x[0], default, dt, typ) if single else x == [], "enum-default", lambda: {**where, "got": [y.n3() for y in x]})
        return
    case.check(not values, "enum-invented", lambda: where)
    x = list(g.objects(prop, M("exampleValue")))
    array = a["datatype"].endswith("[]")
    if dt in TYPES:
        case.count("defaults_compared")
        case.check(len(x) == 1 and lit_ok(x[0], default, dt, typ) if single and not array and not (stamp and default.startswith("0000")) else x == [], "default", lambda: {**where, "got": [y.n3() for y in x]})
    if array:
        case.check(types == {C("List")}, "array", lambda: {**where, "got": [str(t) for t in types]})
        return
    u = list(g.objects(ch, C("unit")))
    if a.get("unit") and not stamp:
        case.count("units_compared")
        case.check(types == {C("Measurement")} and len(u) == 1 and str(u[0]) == UNIT + UNITS.get(a["unit"], "blank"), "unit", lambda: {**where, "got": [str(y) for y in u]})
    else:
        case.check(types == {M("Characteristic")} and not u, "kind", lambda: {**where, "got": [str(t) for t in types]})


PROBES = {}
