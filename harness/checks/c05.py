"""C05: a model is accepted exactly when every attribute value is consistent."""
import copy
import datetime

import gen
import ref
from common import *

N_QUICK, N_THOROUGH = 2600, 25000
RULE = ("A random accepted model with one probed node (base, overlay, below an instance, on an instance path, struct property) whose "
        "attributes are drawn near the borders of the rules: every datatype and misspelled ones, exact integer bounds +-1, booleans, "
        "floats, texts and lists for every datatype, sizes, allowed/min/max combinations, units, constant UIDs, missing or non-text "
        "descriptions. Oracle: independent predicate over the merged attributes; exit code and output must agree. "
        "Non-trivial: the probed node carries at least one value constraint or an intended violation; distinct by its attributes.")
NEED = {"accepted_models": 200, "rejected_models": 200}
UNITS = {n: d for n, d in gen.UNITS}
ODD_TYPES = ["uint8 ", "UINT8", "int", "uint", "uint8[][]", "uint8[", "[]", "string[5]", "uint128", "bool", "str", "", "None", "float32",
             "uint8[]x", "Uint8", "int8[3]", "uint8]", "arr", "struct"]


def border_values(rng):
    v = []
    for lo, hi in ref.INT_RANGE.values():
        v += [lo, hi, lo - 1, hi + 1]
    v += [0, 1, -1, 0.0, 1.0, 1.5, -0.5, 1e30, True, False, "", "x", "1", "true", "RED", "0"]
    v += [float("inf"), float("-inf"), float("nan"), datetime.date(2024, 2, 29), "2024-02-29"]
    return v


def probe_attrs(rng, o):
    r = rng.random()
    dt = rng.choice(ref.SCALARS + ["numeric"])
    if r < 0.07:
        dt = rng.choice(ODD_TYPES)
    if rng.random() < 0.35 and not dt.endswith("]"):
        dt += "[]"
    a = {"type": rng.choice(gen.LEAF_TYPES), "datatype": dt, "description": "probe"}
    base = dt[:-2] if dt.endswith("[]") else dt
    arr = dt.endswith("[]")
    vals = border_values(rng)

    def good():
        if base in ref.SCALARS:
            return gen.value(rng, base)
        return rng.choice([1, 2.5])

    def val():
        if rng.random() < 0.55:
            return good()
        if base in ref.INT_RANGE and rng.random() < 0.6:
            lo, hi = ref.INT_RANGE[base]
            return rng.choice([lo, hi, lo - 1, hi + 1, lo + 1, hi - 1])
        return rng.choice(vals)

    if rng.random() < 0.3:
        a["arraysize"] = rng.choice([0, 1, 2, 3, 4])
    k = rng.random()
    if k < 0.4:
        a["allowed"] = gen.distinct([good() if rng.random() < 0.85 else val() for _ in range(rng.randint(1, 4))])
    if rng.random() < (0.15 if "allowed" in a else 0.3):
        a["min"] = rng.choice([0, 1, -5, 0.0, 2.5, 10])
    if rng.random() < (0.1 if "allowed" in a else 0.3):
        a["max"] = rng.choice([0, 100, 0.0, 99.5])
    if rng.random() < 0.6:
        if "allowed" in a and rng.random() < 0.7:
            one = lambda: rng.choice(a["allowed"])
        else:
            one = val
        if arr if rng.random() < 0.85 else not arr:
            n = a.get("arraysize", rng.randint(0, 3))
            if rng.random() < 0.2:
                n += rng.choice([-1, 1])
            a["default"] = [one() for _ in range(max(0, n))]
        else:
            a["default"] = one()
    if rng.random() < 0.3:
        a["unit"] = rng.choice(list(UNITS) + [n + " unit name" for n in UNITS] + ["furlong", "KM"])
    if rng.random() < 0.12:
        a["constUID"] = rng.choice(["0x12345678", "0xABCDEF01", "0xabcdef0a", "0x1234567", "0x123456789", "12345678", "0xGGGGGGGG", "0X12345678",
                                    "0x12345678\n", " 0x12345678", "", 305419896])
    m = rng.random()
    if m < 0.03:
        del a["description"]
    elif m < 0.05:
        a["description"] = rng.choice([5, ["x"], None, {"a": "b"}, True, datetime.date(2024, 2, 29)])
    elif m < 0.07:
        del a["datatype"]
    elif m < 0.10:
        a["type"] = rng.choice(["Sensor", "signal", "", "sensors", None, "attribut", "branches"])
    elif m < 0.12:
        del a["type"]
    elif m < 0.14:
        a["comment"] = rng.choice([5, ["x"], {"a": 1}, datetime.date(2024, 2, 29)])
    elif m < 0.16:
        a["deprecation"] = rng.choice([2.0, ["x"], datetime.date(2024, 2, 29)])
    elif m < 0.18:
        a[rng.choice(["min", "max"])] = rng.choice(["abc", [1], {"a": 1}, float("inf"), float("nan"), datetime.date(2024, 2, 29)])
    elif m < 0.2:
        a["allowed"] = rng.choice(["RED", 5, {"a": 1}])
    elif m < 0.22:
        a[rng.choice(["instances", "aggregate"])] = "Left"
    elif m < 0.24:
        a["delete"] = "maybe"
    elif m < 0.26:
        a["instantiate"] = [1]
    return a


def near_valid(rng, o):
    """Valid attributes with exactly one thing broken, at a random place."""
    dt = rng.choice(ref.SCALARS)
    arr = rng.random() < 0.65
    a = {"type": rng.choice(gen.LEAF_TYPES), "datatype": dt + ("[]" if arr else ""), "description": "probe"}
    n = rng.randint(1, 5)
    enum = dt != "boolean" and rng.random() < 0.6
    if enum:
        a["allowed"] = gen.distinct([gen.value(rng, dt, 0.1) for _ in range(rng.randint(2, 6))])
    one = (lambda: rng.choice(a["allowed"])) if enum else (lambda: gen.value(rng, dt, 0.1))
    a["default"] = [one() for _ in range(n)] if arr else one()
    if arr and rng.random() < 0.5:
        a["arraysize"] = n
    wrong = [x for x in border_values(rng) if not ref.value_fits(x, dt)]
    f = rng.choice(["none", "default-element", "allowed-element", "not-allowed", "size", "minmax"])
    if f == "default-element" and arr:
        a["default"][rng.randrange(n)] = rng.choice(wrong)
    elif f == "allowed-element" and enum:
        a["allowed"].insert(rng.randint(0, len(a["allowed"])), rng.choice(wrong))
    elif f == "not-allowed" and enum:
        c = [x for x in [gen.value(rng, dt, 0.1) for _ in range(8)] if x not in a["allowed"]]
        if c:
            if arr:
                a["default"][rng.randrange(n)] = c[0]
            else:
                a["default"] = c[0]
    elif f == "size" and arr:
        a["arraysize"] = n + rng.choice([-1, 1, 3])
    elif f == "minmax" and dt in ref.INT_RANGE:
        a[rng.choice(["min", "max"])] = 0
    return a


def errors(a, structs=()):
    e = []
    x = dict(a)
    if x.get("delete") == "maybe":
        e.append("delete no boolean")
    if x.get("instantiate") == [1]:
        e.append("instantiate no boolean")
    for k in ("min", "max"):
        if k in x and x[k] is not None and not isinstance(x[k], (int, float)):
            e.append(f"{k} no number")
    if "allowed" in x and x["allowed"] is not None and not isinstance(x["allowed"], list):
        return e + ["allowed no list"]
    return e + ref.node_errors(x, UNITS_ALL, structs)


UNITS_ALL = {**UNITS, **{n + " unit name": d for n, d in UNITS.items()}}


def random_case(case, i):
    rng = case.rng
    o = gen.Opts(hostile=0.05, max_nodes=5, instances=0.0, units=gen.UNITS)
    m = gen.model(rng, o)
    m = {f: a for f, a in m.items()}
    rootn = next(iter(m))
    a = probe_attrs(rng, o) if rng.random() < 0.7 else near_valid(rng, o)
    where = rng.choice(["base", "base", "overlay", "instance", "override", "override-partial", "property", "branch"])
    uargs = gen.units_files(case)
    args = ["-s", "m.vspec", *uargs, "--extend-all-attributes"]
    layers = [m]
    types = None
    merged = a
    if where == "base":
        m[f"{rootn}.Probe"] = a
    elif where == "overlay":
        start = {k: v for k, v in a.items() if rng.random() < 0.5}
        if rng.random() < 0.4:
            start = {"type": "sensor", "datatype": "uint8", "description": "before"}
        m[f"{rootn}.Probe"] = start
        late = {k: v for k, v in a.items() if k not in start or not same(start[k], v)}
        layers = [m, {f"{rootn}.Probe": late}]
        merged = ref.layer(layers)[f"{rootn}.Probe"]
    elif where in ("instance", "override", "override-partial"):
        m[f"{rootn}.Inst"] = {"type": "branch", "description": "i", "instances": rng.choice([["Left", "Right"], "Row[1,2]"])}
        first = "Left" if isinstance(m[f"{rootn}.Inst"]["instances"], list) else "Row1"
        if where == "instance":
            m[f"{rootn}.Inst.Probe"] = a
        else:
            base = rng.choice([{"type": "sensor", "datatype": "uint8", "description": "base probe"},
                               {"type": "sensor", "datatype": "uint8[]", "arraysize": rng.randint(1, 3), "description": "base probe"},
                               {"type": "actuator", "datatype": "string", "allowed": ["a", "b"], "description": "base probe"},
                               {"type": "sensor", "datatype": "int16", "min": -1, "max": 2, "description": "base probe"}])
            m[f"{rootn}.Inst.Probe"] = base
            ov = a if where == "override" else {k: v for k, v in a.items() if rng.random() < 0.6}
            if "instances" in ov or "aggregate" in ov:
                ov.pop("instances", None)
                ov.pop("aggregate", None)
            if "datatype" not in ov and rng.random() < 0.6:
                # constraints of the expanded node and a default stated for one instance only
                e = {"uint8": [1, 300], "string": ["a", "c"], "int16": [0, 40000], "uint8[]": [[1] * base.get("arraysize", 1), [1] * rng.randint(1, 4)]}[base["datatype"]]
                ov["default"] = rng.choice(e)
            if rng.random() < 0.5:
                m[f"{rootn}.Inst.{first}.Probe"] = ov
            else:
                layers = [m, {f"{rootn}.Inst.{first}.Probe": ov}]
            merged = ref.layer([{"x": base}, {"x": ov}])["x"]
            # the statement is typed on its own, too, when it is complete: same rules, so nothing more can fail
    elif where == "property":
        if a.get("type") in gen.LEAF_TYPES:
            a["type"] = "property"
        types = {"Types": {"type": "branch", "description": "t"}, "Types.S": {"type": "struct", "description": "s"}, "Types.S.P": a}
        case.write("t.vspec", gen.file_text(types, (), rng))
        args += ["-t", "t.vspec"]
    else:
        b = {"type": "branch", "description": "b"}
        k = rng.choice(sorted(ref.DATA_FIELDS) + ["constUID", "comment", "custom"])
        b[k] = {"datatype": "uint8", "arraysize": 2, "min": 0, "max": 1, "unit": "km", "allowed": ["a"], "default": 0,
                "constUID": rng.choice(["0x12345678", "0x1"]), "comment": rng.choice(["c", 4]), "custom": 1}[k]
        m[f"{rootn}.Probe"] = merged = b
    errs = errors(merged)
    if where == "property" and not errs:
        # type files know no unlisted attributes, and a property belongs to a struct
        if merged.get("type") != "property":
            errs = ["type in struct"]
    # a second, independent leaf keeps the rest of the model valid and large
    case.write("m.vspec", gen.file_text(layers[0], (), rng))
    for j, la in enumerate(layers[1:]):
        case.write(f"o{j}.vspec", gen.file_text(la, (), rng))
        args += ["-l", f"o{j}.vspec"]
    case.sig = model_sig([where, merged])
    case.nontrivial = bool(errs) or any(k in merged for k in ("allowed", "default", "min", "max", "unit", "arraysize", "constUID"))
    case.note = {"where": where, "probe": merged, "errors": errs}
    case.state(where, errs[0][:30] if errs else "ok", str(merged.get("datatype")) if not errs else "")
    r = case.export("yaml", *args, "-o", "out.yaml")
    if errs:
        case.count("rejected_models")
        kind = errs[0].split(" ")[0]
        expect_reject(case, r, f"invalid-accepted-{kind}", {"where": where, "attrs": merged, "errors": errs})
    else:
        case.count("accepted_models")
        case.check(r.ok, "valid-rejected", lambda: {"where": where, "attrs": merged, **r.brief()})
