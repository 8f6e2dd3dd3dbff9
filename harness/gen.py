"""Generators: specifications in structured form and their YAML text."""
from __future__ import annotations

import yaml

import ref

LEAF_TYPES = ["sensor", "actuator", "attribute"]

NAMES = ["A", "B", "AB", "ABC", "Door", "DoorX", "DoorRow", "Cabin", "Cab", "Seat", "SeatPos", "Speed", "Row", "Left",
         "Engine", "EngineOil", "Oil", "Temp", "Level", "Mode", "Light", "HVAC", "ADAS", "ABS", "OBD2", "Gear", "GearBox",
         "Body", "Chassis", "Axle", "Wheel", "Tire", "Brake", "State", "Count", "Position", "Angle", "X", "Y1", "Z9", "Types",
         "VehicleId", "Battery", "BatteryX", "Charge", "Range", "Motor"]
# names beyond ASCII: alike without marks, composed and decomposed, changing their length with the letter case
FOREIGN = ["T\u00fcr", "Tur", "T\u00fcre", "\u65e5\u672c", "\u65e5", "\u00dcnit", "\u00c9t\u00e9", "E\u0301te\u0301", "Stra\u00dfe", "Strasse", "\u0130x", "\u0131x", "\u03a3\u03c3", "\u043a\u043c", "\U0001f697", "A", "Row"]
ODD = ["A_B", "A-B", "x y", "A#b", "1st", "2", "A:B", "A,B", "A;b", "true", "null", "No", "~", "b?", "<b>", "&x", "@x", "%s", "{x}", "(y)", "=1+1", "!t", "|", ">", "- x", "0x1F", "1e3", "type", "A", "B"]
NUMBER_SHARE = 0.0  # of the strings that look like numbers
FOREIGN_SHARE = 0.0  # of the models; set by the checks whose formats take such names
BOOL_NAMES = ["IsOpen", "IsOn", "IsX", "HasFault", "IsEngaged", "HasKey", "IsLocked"]
ROOTS = ["Vehicle", "Trailer", "V", "Car2", "Vehicle"]

PLAIN = ["A short description.", "Speed of the vehicle", "Some words", "x", "Status 42", "Position in percent"]
HOSTILE = [
    'He said "yes"', "it's here", "back\\slash \\n not a newline", "comma, separated; values", "line one\nline two",
    "two lines\n\nwith a gap\n", " leading blank", "trailing blank ", "tab\there", "#not a comment", "key: value",
    "- dash", "true", "null", "~", "123", "1.5", "0x1F", "2020-01-01", "[a, b]", "{a: b}", "%percent%", "{{ braces }}",
    "${shell}", "`tick`", "caf\u00e9", "\u65e5\u672c\u8a9e", "\U0001f697 car", "\u00fc\u00df\u00f1", "<tag attr=\"v\"/>", "a&b;", "\"\"\"", "'''",
    "a\\\"b", "ends with backslash\\", "*/ comment", "//x", "@prefix", "$", "|pipe", "> folded", "?", "!tag", "&anchor *alias",
    "e\u0301 combining", "\u00a0nbsp", "a" * 120, "word " * 40 + "end",
]


def text(rng, hostile=0.3):
    return rng.choice(HOSTILE) if rng.random() < hostile else rng.choice(PLAIN)


def int_value(rng, dt):
    lo, hi = ref.INT_RANGE[dt]
    return rng.choice([lo, hi, 0, 1, hi - 1, lo + 1, rng.randint(lo, hi), rng.randint(max(lo, -20), min(hi, 100))])


def float_value(rng):
    return rng.choice([0.0, 0.5, -1.5, 3.25, 100.0, 1e6, 0, 7, -3, 12345.678, 0.1])


def str_value(rng, hostile=0.2):
    base = ["RED", "GREEN", "BLUE", "ON", "OFF", "UNKNOWN", "A1", "LOW_BEAM", "x", "lower"]
    if rng.random() < NUMBER_SHARE:
        return rng.choice(["0x7B", "12", "0b1", "0o17", "99", "5", "0xff", "31", "123abc"])
    if rng.random() < hostile:
        return rng.choice(["with space", "caf\u00e9", "a,b", "it's", "say \"hi\"", "0", "1.0", "true", "null", "100%", "a.b", "A-B", "", "\u65e5\u672c", "\u00c4B", "STRA\u1e9eE"])
    return rng.choice(base)


def value(rng, dt, hostile=0.2):
    if dt in ref.INT_RANGE:
        return int_value(rng, dt)
    if dt in ("float", "double", "numeric"):
        return float_value(rng)
    if dt == "boolean":
        return rng.choice([True, False])
    return str_value(rng, hostile)


def distinct(vals):
    out = []
    for v in vals:
        if not any(v == o and type(v) is type(o) for o in out) and not any(v == o for o in out):
            out.append(v)
    return out


class Opts:
    """Feature switches of the model generator."""

    def __init__(self, **kw):
        self.hostile = 0.25        # probability of hostile text
        self.hostile_values = 0.15  # in allowed/default strings
        self.extras = 0.0
        self.extra_names = ["quality", "source", "x-info", "dbc"]
        self.units = []            # [(name, [datatypes])]
        self.instances = 0.0
        self.nested_instances = True
        self.instantiate_false = 0.15
        self.max_depth = 4
        self.max_nodes = 25
        self.arrays = 0.2
        self.allowed = 0.25
        self.allowed_nonstring = True
        self.array_allowed = True
        self.default = 0.3
        self.minmax = 0.3
        self.comment = 0.3
        self.deprecation = 0.1
        self.structs = []          # datatypes usable by signals
        self.struct_refs = 0.0
        self.scalars = list(ref.SCALARS)
        self.numeric = 0.0
        self.ids = 0.0             # constUID / fka
        self.strict_names = True
        self.names = NAMES
        self.roots = ROOTS
        self.empty_branch = 0.05
        self.deep = 0.03           # a chain of many branches
        self.falsy = 0.25
        self.foreign = FOREIGN_SHARE
        self.validate = 0.0        # access control marking (binary)
        self.__dict__.update(kw)


def leaf_attrs(rng, o, dt=None, typ=None):
    a = {"type": typ or rng.choice(LEAF_TYPES)}
    if dt is None:
        if o.structs and rng.random() < o.struct_refs:
            dt = rng.choice(o.structs)
            if rng.random() < o.arrays:
                dt += "[]"
        else:
            dt = rng.choice(o.scalars) if rng.random() >= o.numeric else "numeric"
            if rng.random() < o.arrays:
                dt += "[]"
    a["datatype"] = dt
    base = dt[:-2] if dt.endswith("[]") else dt
    arr = dt.endswith("[]")
    prim = base in ref.SCALARS or base == "numeric"
    if arr and rng.random() < 0.4:
        a["arraysize"] = rng.randint(1, 5)
    if prim:
        r = rng.random()
        if r < o.allowed and (o.array_allowed or not arr) and base != "boolean" and (base == "string" or o.allowed_nonstring):
            a["allowed"] = distinct([value(rng, base, o.hostile_values) for _ in range(rng.randint(1, 5))])
        elif r < o.allowed + o.minmax and base not in ("string", "boolean"):
            x, y = sorted([value(rng, base), value(rng, base)])
            if rng.random() < 0.8:
                a["min"] = 0 if rng.random() < o.falsy and (base not in ref.INT_RANGE or ref.INT_RANGE[base][0] <= 0) else x
            if rng.random() < 0.8:
                a["max"] = max(y, a.get("min", y))
        if rng.random() < o.default:
            def one():
                if "allowed" in a:
                    return rng.choice(a["allowed"])
                lo, hi = a.get("min"), a.get("max")
                if lo is not None or hi is not None:
                    return rng.choice([z for z in (lo, hi) if z is not None])
                if rng.random() < o.falsy:
                    return {"boolean": False, "string": "" if o.hostile_values else "x"}.get(base, 0)
                return value(rng, base, o.hostile_values)
            if arr:
                n = a.get("arraysize", rng.randint(1, 4))
                a["default"] = [one() for _ in range(n)]
            else:
                a["default"] = one()
        if o.units and rng.random() < 0.4:
            ok = [u for u, dts in o.units if any(base in ref.NARROWER[d] for d in dts)]
            if ok:
                a["unit"] = rng.choice(ok)
    return a


def decorate(rng, o, a):
    a["description"] = text(rng, o.hostile)
    if rng.random() < o.comment:
        a["comment"] = text(rng, o.hostile)
    if rng.random() < o.deprecation:
        a["deprecation"] = rng.choice(["v2.0 use other", "V3.1 removed", text(rng, o.hostile)])
    if rng.random() < o.extras:
        a[rng.choice(o.extra_names)] = rng.choice([
            "ecu0xAA", 100, 0, False, True, 1.5, ["a", "b"], {"k": 1, "l": {"m": "n"}}, text(rng, o.hostile), [1, {"z": 2}]])
    if o.validate and rng.random() < o.validate:
        a["validate"] = rng.choice(["write-only", "read-write", "write-only+consent", "read-write+consent"])
    # attribute order in the file carries no meaning
    items = list(a.items())
    rng.shuffle(items)
    return dict(items)


def pick_name(rng, used, pool):
    for _ in range(40):
        n = rng.choice(pool)
        if rng.random() < 0.15:
            n += str(rng.randint(1, 9))
        if n not in used:
            return n
    i = 1
    while f"N{i}" in used:
        i += 1
    return f"N{i}"


LABELS = ["Left", "Right", "Front", "Rear", "Middle", "DriverSide", "PassengerSide", "First", "Second", "Main"]


def instances(rng, simple=False):
    def rnge():
        a = rng.randint(1, 4)
        return rng.choice(["Row", "Pos", "Axle", "Bank"]) + f"[{a},{a + rng.randint(0, 2)}]" + rng.choice(["", "", "", "X"])
    r = rng.random()
    if r < 0.15:
        return rnge()
    if r < 0.25:
        return rng.choice(LABELS)
    if r < 0.45:
        return rng.sample(LABELS, rng.randint(1, 3))
    if r < 0.60:
        return [rnge(), rng.sample(LABELS, rng.randint(1, 3))]
    if r < 0.72:
        ls = rng.sample(LABELS, 4)
        return [ls[:2], ls[2:]]
    if r < 0.82:
        return [rng.sample(LABELS, 2), rnge()]
    if r < 0.9:
        return [rnge()]
    ls = rng.sample(LABELS, 3)
    return [[ls[0]], [ls[1], ls[2]]]


def model(rng, o):
    """An accepted un-expanded model: {fqn: attrs}, parents first."""
    names, strict = o.names, o.strict_names
    if names is NAMES and o.foreign and rng.random() < o.foreign:
        names, strict = rng.choice([FOREIGN, ODD]), False
    root = rng.choice(o.roots)
    nodes = {root: decorate(rng, o, {"type": "branch"})}
    branches = [(root, 0)]
    kids = {root: set()}
    target = rng.randint(3, o.max_nodes)
    inst_depth = {root: 0}
    while len(nodes) < target:
        parent, d = rng.choice(branches)
        is_b = rng.random() < 0.35 and d + 1 < o.max_depth
        if is_b:
            name = pick_name(rng, kids[parent], names)
            fqn = f"{parent}.{name}"
            a = {"type": "branch"}
            inst_depth[fqn] = inst_depth[parent]
            if rng.random() < o.instances and inst_depth[parent] < (2 if o.nested_instances else 1):
                a["instances"] = instances(rng)
                if names is not o.names and rng.random() < 0.3:
                    a["instances"] = rng.sample(names[:14], 2)
                inst_depth[fqn] += 1
            branches.append((fqn, d + 1))
            kids[fqn] = set()
        else:
            a = leaf_attrs(rng, o)
            pool = BOOL_NAMES if a["datatype"] == "boolean" and strict else names
            name = pick_name(rng, kids[parent], pool)
            if a["datatype"] == "boolean" and strict and not name.startswith(("Is", "Has")):
                name = "Is" + name
                if name in kids[parent]:
                    continue
            fqn = f"{parent}.{name}"
        # a label of the parent's instances as a child name would be an override
        pi = nodes[parent].get("instances")
        if pi is not None and name in {p[0] for p in ref.instance_paths(pi)[0]}:
            kids.pop(fqn, None)
            branches = [b for b in branches if b[0] != fqn]
            continue
        if pi is not None and rng.random() < o.instantiate_false:
            a["instantiate"] = False
        kids[parent].add(name)
        nodes[fqn] = decorate(rng, o, a)
    # branches without children are legal but say little
    for b, _ in branches:
        if not kids[b] and rng.random() >= o.empty_branch:
            a = leaf_attrs(rng, o)
            nm = "IsSet" if a["datatype"] == "boolean" else "Leaf"
            nodes[f"{b}.{nm}"] = decorate(rng, o, a)
    if rng.random() < o.deep:
        # a long way down
        fqn = rng.choice([b for b, _ in branches if not inst_depth[b]])
        for j in range(rng.randint(6, 20)):
            name = pick_name(rng, kids.get(fqn, set()), names)
            fqn = f"{fqn}.{name}"
            kids[fqn] = set()
            nodes[fqn] = decorate(rng, o, {"type": "branch"})
            if rng.random() < 0.2:
                a = leaf_attrs(rng, o, dt="uint8" if o.scalars == ref.SCALARS else None)
                nodes[f"{fqn}.IsSide"] = decorate(rng, o, a)
                kids[fqn].add("IsSide")
        nodes[f"{fqn}.IsLast"] = decorate(rng, o, leaf_attrs(rng, o))
    order = [root] + [f for f in nodes if f != root]
    return {f: nodes[f] for f in order}


# ------------------------------------------------------------------ YAML
class _D(yaml.SafeDumper):
    def ignore_aliases(self, data):
        return True


class _Alias(yaml.SafeDumper):
    pass


def shared(value, pool):
    """The same content, equal mappings and lists being one object, which YAML writes as anchor and aliases."""
    if isinstance(value, dict):
        value = {k: shared(v, pool) for k, v in value.items()}
    elif isinstance(value, list):
        value = [shared(v, pool) for v in value]
    else:
        return value
    if not value:
        return value
    # True == 1 == 1.0, but they are not the same content
    return pool.setdefault(repr(value) if isinstance(value, list) else repr(sorted((k, repr(v)) for k, v in value.items())), value)


def alias_chunks(nodes, rng):
    text = yaml.dump(shared(nodes, {}), Dumper=_Alias, sort_keys=False, allow_unicode=False, width=rng.choice([80, 10000]),
                     default_flow_style=rng.choice([False, None]))
    chunks = []
    for line in text.splitlines(keepends=True):
        if line[0] in " \n" or not chunks:
            chunks.append(line) if not chunks else chunks.__setitem__(-1, chunks[-1] + line)
        else:
            chunks.append(line)
    return chunks if len(chunks) == len(nodes) and yaml.safe_load(text) == nodes else None


def dump(data, rng=None):
    kw = {"sort_keys": False, "allow_unicode": True, "width": 10000}
    if rng is not None:
        kw["allow_unicode"] = rng.random() < 0.7
        kw["default_flow_style"] = rng.choice([False, False, False, None])
        kw["width"] = rng.choice([80, 10000])
        kw["indent"] = rng.choice([2, 4])
    text = yaml.dump(data, Dumper=_D, **kw)
    if "\x85" in text:  # PyYAML does not read back its own unescaped NEL
        text = yaml.dump(data, Dumper=_D, **{**kw, "allow_unicode": False})
    return text


def file_text(nodes, includes=(), rng=None, aliases=0.15):
    """nodes: {key: attrs}; includes: [(target, prefix or None)], interleaved between nodes."""
    chunks = None
    if rng is not None and nodes and rng.random() < aliases:
        chunks = alias_chunks(nodes, rng)
    if chunks is None:
        chunks = [dump({k: a}, rng) for k, a in nodes.items()]
    lines = [f"#include {t}" + (f" {p}" if p else "") for t, p in includes]
    if rng is not None and rng.random() < 0.5:
        chunks.insert(0, "# a comment line\n#  #included text is not a statement\n")
    if not lines:
        return "\n".join(chunks)
    pos = sorted((rng.randint(0, len(chunks)) if rng else len(chunks)) for _ in lines)
    out = []
    j = 0
    for i in range(len(chunks) + 1):
        while j < len(lines) and pos[j] == i:
            ind = rng.choice(["", "", "  "]) if rng else ""
            out.append(ind + lines[j] + "\n")
            j += 1
        if i < len(chunks):
            out.append(chunks[i])
    return "\n".join(out)


UNITS = [("km", ["numeric"]), ("m", ["uint8", "uint16", "float"]), ("percent", ["uint32", "int32", "float", "double"]),
         ("s", ["uint64", "int64"]), ("txt", ["string"]), ("flag", ["boolean"]), ("i8", ["int8"]), ("mix", ["int16", "string"])]


def units_files(case, units=UNITS, dirname=""):
    """Writes quantities.yaml and units.yaml; returns CLI arguments."""
    q = {"length": {"definition": "len"}, "other": {"definition": "o", "comment": "c"}}
    u = {}
    for i, (n, dts) in enumerate(units):
        u[n] = {"definition": f"def {n}", "unit": f"{n} unit name", "quantity": "length" if i % 2 else "other", "allowed-datatypes": dts}
    case.write(dirname + "quantities.yaml", dump(q))
    case.write(dirname + "units.yaml", dump(u))
    return ["-q", dirname + "quantities.yaml", "-u", dirname + "units.yaml"]
