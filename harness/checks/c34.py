"""C34: a rejection, and every warning about the model, names its cause."""
import re

import gen
import ref
from checks import c05, c10
from common import *
from core import Skip

TECHNIQUE = "runtime monitoring: online reading of the log of each run; the nodes it names are compared with independently computed sets of violating nodes"
N_QUICK, N_THOROUGH = 1600, 40000
RULE = ("Random models with one to four offenders of one class at random places (names, unknown attributes, attribute values, orphans, wrongly placed nodes, roots, includes, units, quantities, statements that are no mapping, "
        "properties of types), stated in the base, an overlay, an included file or for one instance, are exported. Every model node named in the log file at level WARNING or above is collected: names, unknown attributes, "
        "orphans and misplaced nodes must be named completely and no other node; for rejected values at least one offender and nothing else. Distinct by model and options.")
KINDS = ["names", "names", "extras", "extras", "values", "values", "values", "orphans", "orphans", "placement", "roots", "include", "units", "quantities", "mapping", "property", "type-extras"]
NEED = {"names_reported": 300, "extras_reported": 200, "values_reported": 80, "orphans_reported": 20, "placement_reported": 20, "instance_placements": 10, "others_reported": 100, "clean_runs": 30}
LEAF = {"type": "sensor", "datatype": "uint8", "description": "d"}
BR = {"type": "branch", "description": "d"}


def named(text, names):
    return {f for f in names if re.search(r"(?<![\w.-])" + re.escape(f) + r"(?![\w.-])", text)}


def run(case, fmt, args, level="WARNING"):
    r = case.export(fmt, *args, "-o", "out", loglevel=level) if level == "-" else case.vspec("--log-level", level, "--log-file", "log.txt", "export", fmt, *args, "-o", "out")
    text = "\n".join(l for l in case.read("log.txt").splitlines() if " file" not in l or "Default not existing" not in l)
    return r, text


def spread(case, rng, nodes):
    """Writes the statements over main, included and overlay files; returns arguments."""
    if not nodes:
        raise Skip("nothing to state")
    files = {"m.vspec": {}, "inc.vspec": {}, "o.vspec": {}}
    w = rng.choice([(1, 0, 0), (3, 1, 0), (3, 0, 1), (2, 1, 1)])
    for f, a in nodes.items():
        files[rng.choices(list(files), w)[0]][f] = a
    case.write("inc.vspec", gen.file_text(files["inc.vspec"], (), rng) or "# nothing\n")
    case.write("m.vspec", gen.file_text(files["m.vspec"], [("inc.vspec", None)] if files["inc.vspec"] else (), rng) or "# nothing\n")
    args = ["-s", "m.vspec"]
    if files["o.vspec"]:
        case.write("o.vspec", gen.file_text(files["o.vspec"], (), rng))
        args += ["-l", "o.vspec"]
    return args


def base(rng, inst=None, **kw):
    o = gen.Opts(hostile=0.0, hostile_values=0.0, max_nodes=rng.choice([5, 10, 20]), instances=rng.choice([0, 0.4]) if inst is None else inst, units=[], strict_names=True, extras=0, **kw)
    m = gen.model(rng, o)
    return o, {f: {k: v for k, v in a.items() if k != "unit"} for f, a in m.items()}, next(iter(m))


def plain(m):
    """Branches below which a statement can be added."""
    return [f for f, a in m.items() if a.get("type") == "branch" and not any(m.get(p, a).get("instances") for p in [f.rsplit(".", k)[0] for k in range(f.count(".") + 1)])]


def broken(rng):
    """Leaf attributes with one clear fault."""
    return {**LEAF, **rng.choice([
        {"datatype": "uint9"}, {"datatype": "Uint8"}, {"datatype": "uint8[3]"}, {"description": None}, {"unit": "nosuchunit"}, {"default": 300}, {"default": "x"}, {"datatype": "string", "allowed": ["a"], "default": "b"},
        {"allowed": ["a"]}, {"allowed": [1], "min": 0}, {"arraysize": 3}, {"datatype": "uint8[]", "arraysize": 2, "default": [1]}, {"min": "low"}, {"constUID": "0x12"},
        {"type": "sensors"}, {"type": None}, {"datatype": None}, {"allowed": "a"}, {"datatype": "Types.NoSuch"}])}


def random_case(case, i):
    rng = case.rng
    kind = KINDS[i % len(KINDS)]
    globals()["kind_" + kind.replace("-", "_")](case, rng)
    if case.note:
        case.state(kind, case.note["exit"], len(case.note["offenders"]))


def done(case, kind, m, offenders, r):
    case.sig = model_sig([kind, m, r.args])
    case.nontrivial = True
    case.note = {"kind": kind, "offenders": sorted(map(str, offenders))[:6], "exit": r.code}


def kind_names(case, rng):
    o, m, root = base(rng)
    for _ in range(rng.randint(0, 3)):
        bad = rng.choice(["speed", "Speed_x", "1Row", "_A", "is", "aB", "Is_Open", "x1"])
        p = rng.choice([f for f, a in m.items() if a.get("type") == "branch"])
        k = rng.random()
        if k < 0.5:
            m[f"{p}.{bad}"] = {**LEAF, "datatype": rng.choice(["uint8", "boolean", "boolean[]"])}
        elif k < 0.75:
            m[f"{p}.{bad}"] = dict(BR)
            m[f"{p}.{bad}.Leaf"] = dict(LEAF)
        else:
            m[f"{p}.Flag{rng.randint(0, 9)}"] = {**LEAF, "datatype": "boolean"}
    if rng.random() < 0.3:
        m[f"{root}.Ins"] = {**BR, "instances": rng.choice([["left", "Right"], "row[1,3]", [["Row1", "x"], ["Left", "Right"]], ["Row_[1,2]", ["A", "b"]]])}
        m[f"{root}.Ins.Leaf"] = {**LEAF, "datatype": rng.choice(["uint8", "boolean"])}
    if rng.random() < 0.25:
        f = rng.choice([f for f in m if "." in f])
        m[f] = {**m[f], "delete": True}
    tree = ref.resolve([m], True)
    if ref.tree_errors(tree):
        raise Skip("invalid")
    want = {f for f, _ in c10.name_violations(tree)}
    args = spread(case, rng, m) + rng.choice([["--strict"], ["-a", "name-style"], ["--aborts", "unknown-attribute", "-a", "name-style"]])
    r, text = run(case, rng.choice(["json", "csv", "yaml", "binary", "tree"]), args)
    got = named(text, {f for f, _ in tree.walk()} | set(m))
    case.count("names_reported", len(want))
    case.count("clean_runs", not want)
    case.check((r.code != 0) == bool(want), "names-verdict", lambda: {"want": sorted(want), **r.brief()})
    case.check(got == want, "names-reported", lambda: {"not_named": sorted(want - got), "wrongly_named": sorted(got - want), "log": text[-1500:]})
    done(case, "names", m, want, r)


def kind_extras(case, rng):
    o, m, root = base(rng)
    pool = ["source", "quality", "x-info", "dbc", "max_quality", "other"]
    white = [e for e in pool if rng.random() < 0.3]
    for f in rng.sample(list(m), min(len(m), rng.randint(0, 4))):
        m[f] = {**m[f], **{k: rng.choice([1, "text", [1, 2], False, {"a": 1}]) for k in rng.sample(pool, rng.randint(1, 2))}}
    if rng.random() < 0.2:
        f = rng.choice([f for f in m if "." in f])
        m[f] = {**m[f], "delete": True}
    tree = ref.resolve([m], True)
    if ref.tree_errors(tree):
        raise Skip("invalid")
    pairs = c10.extra_violations(tree, set(white))
    want = {f for f, _ in pairs}
    strict = rng.choice([[], [], ["--strict"], ["-a", "unknown-attribute"]])
    if "--strict" in strict and c10.name_violations(tree):
        strict = ["-a", "unknown-attribute"]
    args = spread(case, rng, m) + strict + [x for e in white for x in ("-e", e)]
    r, text = run(case, rng.choice(["json", "csv", "yaml", "binary", "tree"]), args)
    case.check((r.code != 0) == bool(strict and want), "extras-verdict", lambda: {"want": pairs, **r.brief()})
    got = named(text, {f for f, _ in tree.walk()} | set(m))
    lines = text.splitlines()
    missing = [(f, k) for f, k in pairs if not any(named(x, [f]) and named(x, [k]) for x in lines)]
    case.count("extras_reported", len(pairs))
    case.count("clean_runs", not pairs)
    case.check(got == want and not missing, "extras-reported", lambda: {"not_named": missing, "wrongly_named": sorted(got - want), "log": text[-1500:]})
    allowed = named(text, white)
    case.check(not allowed, "whitelisted-reported", lambda: {"attributes": sorted(allowed), "log": text[-800:]})
    done(case, "extras", m, pairs, r)


def kind_values(case, rng):
    o, m, root = base(rng)
    bad, known = set(), set()
    for j in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < 0.3:
            # one instance is stated wrongly
            m[f"{root}.Ins{j}"] = {**BR, "instances": rng.choice([["Left", "Right"], ["Row[1,2]", ["Left", "Right"]]])}
            m[f"{root}.Ins{j}.Leaf"] = {**LEAF}
            at = f"{root}.Ins{j}.{'Left' if 'Left' in m[f'{root}.Ins{j}']['instances'] else 'Row2.Left'}.Leaf"
            m[at] = rng.choice([{"default": 400}, {"unit": "nosuchunit"}, {"default": "x"}, {"constUID": "12"}, {"datatype": "uint99"}])
            if rng.random() < 0.5:
                m[at] = {**LEAF, **m[at]}
            bad.add(at)
        else:
            at = f"{rng.choice(plain(m))}.Bad{j}"
            m[at] = {k: v for k, v in broken(rng).items() if v is not None}
            bad.add(at)
    args = spread(case, rng, m)
    r, text = run(case, rng.choice(["json", "csv", "yaml", "binary", "tree"]), args)
    if not case.check(r.code != 0, "values-accepted", lambda: {"offenders": sorted(bad), **r.brief()}):
        return
    tree = ref.resolve([m], True)
    got = named(text, {f for f, _ in tree.walk()} | set(m))
    case.count("values_reported", len(got))
    case.check(bool(got), "values-unnamed", lambda: {"offenders": sorted(bad), "log": text[-1500:], **r.brief()})
    case.check(got <= bad, "values-wrongly-named", lambda: {"offenders": {f: m[f] for f in bad}, "wrongly_named": sorted(got - bad), "log": text[-1500:]})
    done(case, "values", m, bad, r)


def kind_orphans(case, rng):
    o, m, root = base(rng, 0)
    far, near = set(), set()   # below a root that is not stated; below a missing node of the tree
    many = rng.random() < 0.4
    for j in range(rng.randint(2, 8) if many else rng.randint(1, 3)):
        p = f"{'Other' if many else rng.choice([*plain(m), root, 'Other', 'Other'])}.Gone{j}" + "Far" * rng.choice([0, 0, 30])
        top = f"{p}.In"
        leaf = rng.random() < 0.5
        m[top] = dict(LEAF if leaf else BR)
        (far if p.startswith("Other.") else near).add(top)
        if not leaf:
            m[top + ".Below"] = dict(LEAF)
    args = spread(case, rng, m)
    r, text = run(case, rng.choice(["json", "csv", "yaml", "binary", "tree"]), args)
    done(case, "orphans", m, far | near, r)
    if not case.check(r.code != 0, "orphans-accepted", lambda: {"offenders": sorted(far | near), **r.brief()}):
        return
    got = named(text, {*m, *(f.rsplit(".", 1)[0] for f in far | near)})
    case.count("orphans_reported", len(far or near))
    if far:
        case.check(got == far, "orphans-reported", lambda: {"orphans": sorted(far), "named": sorted(got), "log": text[-1500:]})
    else:
        may = near | {f.rsplit(".", 1)[0] for f in near}
        case.check(got and got <= may, "missing-parent-reported", lambda: {"orphans": sorted(near), "named": sorted(got), "log": text[-1500:]})


def kind_placement(case, rng):
    o, m, root = base(rng, 0)
    want = set()
    leaves = [f for f, a in m.items() if a["type"] in gen.LEAF_TYPES]
    for j in range(rng.randint(1, 3)):
        k = rng.random()
        if k < 0.5 and leaves:
            f = f"{rng.choice(leaves)}.Below{j}"
            m[f] = rng.choice([dict(LEAF), dict(BR)])
        else:
            f = f"{rng.choice(plain(m))}.Prop{j}"
            m[f] = {**LEAF, "type": "property"}
        want.add(f)
    if rng.random() < 0.3:
        m[f"{root}.Str"] = {"type": "struct", "description": "d"}
        m[f"{root}.Str.Leaf"] = rng.choice([dict(LEAF), dict(BR)])
        want.add(f"{root}.Str.Leaf")
    others = set(m)
    if rng.random() < 0.4:
        # below a branch with instances they are reported for each of them, by expanded path
        decl, labels = rng.choice([("Row[1,2]", ["Row1", "Row2"]), (["Left"], ["Left"]), ([["A", "B"], "Q[3,4]"], [f"{a}.Q{q}" for a in "AB" for q in "34"])])
        top = f"{root}.Inst"
        m[top] = {**BR, "instances": decl}
        path = rng.choice([[], ["Sub"], ["Sub", "Deep"]])
        for j in range(len(path)):
            m[".".join([top] + path[:j + 1])] = dict(BR)
        m[".".join([top] + path + ["Sig"])] = dict(LEAF)
        bad = path + rng.choice([["Prop"], ["Sig", "Below"], ["Sig", "Below"]])
        m[".".join([top] + bad)] = {**LEAF, "type": "property"} if bad[-1] == "Prop" else rng.choice([dict(LEAF), dict(BR)])
        inst = {".".join([top, lab] + bad) for lab in labels}
        want |= inst
        others |= inst | {".".join([top, lab] + path + ["Sig"]) for lab in labels} | {f for f in m if f.startswith(top)}
        case.count("instance_placements")
    args = spread(case, rng, m)
    r, text = run(case, rng.choice(["json", "csv", "yaml", "binary", "tree"]), args)
    if not case.check(r.code != 0, "placement-accepted", lambda: {"offenders": sorted(want), **r.brief()}):
        return
    got = named(text, others)
    case.count("placement_reported", len(want))
    case.check(got == want, "placement-reported", lambda: {"not_named": sorted(want - got), "wrongly_named": sorted(got - want), "log": text[-1500:]})
    done(case, "placement", m, want, r)


def everything(case, r, text):
    return r.out + "\n" + text


def expect_named(case, kind, r, text, what, m):
    case.count("others_reported")
    if case.check(r.code != 0, f"{kind}-accepted", lambda: {"offenders": what, **r.brief()}):
        t = everything(case, r, text)
        case.check(all(x in t for x in what), f"{kind}-unnamed", lambda: {"offenders": [x for x in what if x not in t], "log": text[-1000:], **r.brief()})
    done(case, kind, m, what, r)


def kind_roots(case, rng):
    o, m, root = base(rng, 0)
    second = rng.choice(["Second", "Q7"])
    m[second] = dict(BR)
    if rng.random() < 0.5:
        m[second + ".X"] = dict(LEAF)
    r, text = run(case, "json", spread(case, rng, m))
    expect_named(case, "roots", r, text, [root, second], m)


def kind_include(case, rng):
    o, m, root = base(rng, 0)
    args = spread(case, rng, m)
    f = rng.choice([a for a in ("m.vspec", "inc.vspec", "o.vspec") if case.exists(a) and (a != "inc.vspec" or "#include inc.vspec" in case.read("m.vspec")) and (a != "o.vspec" or "-l" in args)])
    stmt, what = rng.choice([("#include nosuch/file.vspec", "nosuch/file.vspec"), ("#include away.vspec V.Prefix", "away.vspec"), ("#include", "#include")])
    t = case.read(f)
    case.write(f, rng.choice([t + f"\n{stmt}\n", f"{stmt}\n{t}"]))
    r, text = run(case, "json", args)
    expect_named(case, "include", r, text, [what], m)


def kind_units(case, rng):
    o, m, root = base(rng, 0)
    args = spread(case, rng, m)
    uargs = gen.units_files(case, gen.UNITS)
    key = rng.choice(["zzq", "furlong"])
    k, add = rng.choice([("no definition", f"{key}:\n  unit: zz\n  quantity: length\n"), ("quantity", f"{key}:\n  definition: d\n  unit: zz\n  quantity: nosuchquantity\n  allowed-datatypes: [numeric]\n"),
                         ("null", f"{key}:\n"), ("extra", f"{key}:\n  definition: d\n  unit: zz\n  quantity: length\n  nonsense: 1\n")])
    if k == "extra":
        raise Skip("unknown attributes of units are let through")
    case.write("more.yaml", f"ok1:\n  definition: d\n  unit: okay one\n  quantity: {quantity(case)}\n  allowed-datatypes: [numeric]\n" + add)
    r, text = run(case, "json", args + uargs + ["-u", "more.yaml"])
    expect_named(case, "units", r, text, [key], m)


def quantity(case):
    return next(iter(load_yaml(case.read("quantities.yaml"))))


def kind_quantities(case, rng):
    o, m, root = base(rng, 0)
    args = spread(case, rng, m)
    uargs = gen.units_files(case, gen.UNITS)
    q = quantity(case)
    key, add = rng.choice([("zzq", "zzq:\n  comment: c\n"), ("zzq", "zzq:\n"), (q, f"{q}:\n  definition: again\n")])
    case.write("moreq.yaml", "okq:\n  definition: d\n" + add)
    r, text = run(case, "json", args + uargs + ["-q", "moreq.yaml"])
    expect_named(case, "quantities", r, text, [key], m)


def kind_mapping(case, rng):
    o, m, root = base(rng, 0)
    args = spread(case, rng, m)
    key = f"{rng.choice(plain(m))}.NoMap"
    f = rng.choice([a for a in ("m.vspec", "o.vspec") if case.exists(a) and (a != "o.vspec" or "-l" in args)])
    case.write(f, case.read(f) + "\n" + key + ": " + rng.choice(["text", "5", "[a, b]", "true", "2020-01-01"]) + "\n")
    r, text = run(case, "json", args)
    expect_named(case, "mapping", r, text, [key], m)


def types(rng):
    t = {"Types": dict(BR), "Types.A": dict(BR)}
    for j in range(rng.randint(1, 4)):
        s = f"{rng.choice(['Types', 'Types.A'])}.S{j}"
        t[s] = {"type": "struct", "description": "d"}
        for k in range(rng.randint(1, 3)):
            t[f"{s}.p{k}"] = {**LEAF, "type": "property", "datatype": rng.choice(["uint8", "string", "float[]"])}
    return t


def kind_property(case, rng):
    o, m, root = base(rng, 0)
    t = types(rng)
    s = rng.choice([f for f, a in t.items() if a["type"] == "struct"])
    b = {k: v for k, v in broken(rng).items() if v is not None}
    if b.get("type") == "sensor":
        b["type"] = "property"
    t[f"{s}.bad"] = b
    case.write("t.vspec", gen.file_text(t, (), rng))
    r, text = run(case, "json", spread(case, rng, m) + ["-t", "t.vspec"])
    case.count("others_reported")
    if case.check(r.code != 0, "property-accepted", lambda: {"attrs": b, **r.brief()}):
        got = named(text, set(t) | set(m))
        case.check(got == {f"{s}.bad"}, "property-reported", lambda: {"offender": f"{s}.bad", "attrs": b, "named": sorted(got), "log": text[-1200:], **r.brief()})
    done(case, "property", [m, t], [f"{s}.bad"], r)


def kind_type_extras(case, rng):
    o, m, root = base(rng, 0)
    t = types(rng)
    pool = ["source", "quality", "other"]
    white = [e for e in pool if rng.random() < 0.3]
    for f in rng.sample(list(t), rng.randint(0, min(3, len(t)))):
        t[f] = {**t[f], rng.choice(pool): 1}
    want = {f for f, a in t.items() if any(e in a and e not in white for e in pool)}
    case.write("t.vspec", gen.file_text(t, (), rng))
    r, text = run(case, "json", spread(case, rng, m) + ["-t", "t.vspec"] + [x for e in white for x in ("-e", e)])
    case.count("extras_reported", len(want))
    case.check((r.code != 0) == bool(want), "type-extras-verdict", lambda: {"want": sorted(want), **r.brief()})
    got = named(text, set(t) | set(m))
    case.check(got == want, "type-extras-reported", lambda: {"not_named": sorted(want - got), "wrongly_named": sorted(got - want), "log": text[-1500:]})
    done(case, "type-extras", [m, t], want, r)


PROBES = {}
