"""C19: identifier validation reports every change with the right class."""
import re

import gen
import ids
import ref
from common import *
from core import Skip
from world import World

FOREIGN_SHARE = 0.08
TECHNIQUE = "runtime monitoring: reference classifier over recorded change histories and the validation log"
N_QUICK, N_THOROUGH = 700, 8000
RULE = ("A random model (instances, overlays, units, types, former names, fixed identifiers) is exported as id; then a random history of edits (texts, deprecations, every identity field, "
        "additions, deletions, renames and moves with and without announcement by fka or constUID, whole-branch renames, re-use of a freed path, changes outside the export) is applied and the result "
        "validated against that export, with and without --case-sensitive, --strict and --validate-only. The (class, node) records in the log must be exactly those of an independent classifier, "
        "and the written file must be the identifier export of the current model. Non-trivial: at least one record expected or a deliberate no-change case; distinct by both models.")
NEED = {"records_expected": 800, "class_BREAKING": 60, "class_ADDED": 100, "class_DELETED": 100, "class_SEMANTIC": 80, "class_DESCRIPTION": 60, "class_DEPRECATION": 40, "unchanged": 20}
LINE = re.compile(r"^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d,\d+:[A-Z]+:(.*)$")
CLASSES = [("BREAKING", "BREAKING CHANGE", r"change for '([^']+)'"), ("ADDED", "ADDED ATTRIBUTE", r"node '([^']+)' was added"), ("DELETED", "DELETED ATTRIBUTE", r"'([^']+)' was not matched"),
           ("SEMANTIC", "SEMANTIC NAME CHANGE", r"for '([^']+)', it used to be '([^']+)'"), ("DESCRIPTION", "DESCRIPTION MISMATCH", r"description of (.+?) has changed"),
           ("DEPRECATION", "DEPRECATION MSG CHANGE", r"for '([^']+)' was")]


def records(log):
    out = []
    for line in log.split("\n"):
        m = LINE.match(line)
        if not m or not m.group(1).startswith("[Validation]"):
            continue
        t = m.group(1)
        for c, key, rx in CLASSES:
            if key in t:
                x = re.search(rx, t)
                out.append((c,) + (x.groups() if x else ("?", t)))
                break
        else:
            out.append(("UNKNOWN", t))
    return sorted(out)


def classify(e1, e2, cs):
    """(required records, optional records) of the documented comparison."""
    by = {d["staticUID"]: f for f, d in e1.items()}
    cur = {d["staticUID"] for d in e2.values()}
    req, opt = set(), set()
    used = set()
    for f, d in e2.items():
        p = by.get(d["staticUID"])
        if p is not None:
            used.add(p)
            if p != f and any(ids.hashed(k, d, cs) == d["staticUID"] for k in ids.former(d)):
                req.add(("SEMANTIC", f, p))
            if d["description"] != e1[p]["description"]:
                req.add(("DESCRIPTION", f))
            if d.get("deprecation") != e1[p].get("deprecation"):
                req.add(("DEPRECATION", f))
    for f, d in e2.items():
        if d["staticUID"] in by:
            continue
        old = [by[u] for u in (ids.hashed(k, d, cs) for k in ids.former(d)) if u in by]
        if old:
            used.add(old[-1])
            req.add(("SEMANTIC", f, old[-1]))
            if len(old) > 1:
                raise Skip("several former names match")
        elif f in e1:
            if e1[f]["staticUID"] in cur:
                # the old owner of the path kept its identifier elsewhere: a changed path or a new node, both are breaking
                opt.add(("BREAKING|ADDED", f))
            else:
                used.add(f)
                req.add(("BREAKING", f))
        else:
            req.add(("ADDED", f))
    for f in e1:
        if f not in used:
            req.add(("DELETED", f))
    return req, opt


def edit(rng, w, m, old, kinds):
    """One random edit of the flat model m; `old` are untouched original paths. Returns its kind."""
    leaves = [f for f in old if f in m and m[f]["type"] != "branch"]
    branches = [f for f in m if m[f]["type"] == "branch" and f.count(".")]
    if not leaves:
        return None
    f = rng.choice(leaves)
    a = m[f]
    k = rng.choice(kinds)
    par = f.rsplit(".", 1)[0]

    def fresh(parent):
        j = 0
        while f"{parent}.New{j}" in m or f"{parent}.New{j}" in old:
            j += 1
        return f"{parent}.New{j}"
    if k == "text":
        d = a["description"]
        m[f] = dict(a, description=rng.choice([d + ".", d + " changed", d + "\nnew line", d + "'s", d + " ", " " + d, d + "\n", "", d.swapcase(), d.replace(" ", "  ")]))
    elif k == "deprecation":
        if a.get("deprecation") and rng.random() < 0.5:
            m[f] = {x: y for x, y in a.items() if x != "deprecation"}
        elif rng.random() < 0.15:
            m[f] = dict(a, deprecation="")
        else:
            m[f] = dict(a, deprecation=(a.get("deprecation") or "") + "v9 gone")
    elif k == "type":
        m[f] = dict(a, type=rng.choice([t for t in ("sensor", "actuator", "attribute") if t != a["type"]]))
    elif k == "unit":
        base = a["datatype"].replace("[]", "")
        ok = [u for u, dts in gen.UNITS if base in ref.SCALARS and any(base in ref.NARROWER[d] for d in dts) and u != a.get("unit")]
        if a.get("unit") and rng.random() < 0.4:
            m[f] = {x: y for x, y in a.items() if x != "unit"}
        elif ok:
            m[f] = dict(a, unit=rng.choice(ok))
        else:
            return None
    elif k == "limits":
        if a["datatype"] in ref.INT_RANGE and "allowed" not in a and "default" not in a:
            b = dict(a)
            x = rng.choice(["min", "max"])
            if x in b and rng.random() < 0.4:
                del b[x]
            else:
                b[x] = 0 if b.get(x) != 0 and (x == "min" and b.get("max", 1) >= 0 or x == "max" and b.get("min", -1) <= 0) else ref.INT_RANGE[a["datatype"]][x == "max"]
            m[f] = b
        else:
            return None
    elif k == "allowed":
        if a["datatype"] == "string":
            b = dict(a)
            if b.get("allowed") and rng.random() < 0.5:
                if "default" in b:
                    b.pop("default")
                b["allowed"] = b["allowed"][:-1] if len(b["allowed"]) > 1 else b["allowed"] + ["MORE"]
            else:
                b["allowed"] = list(b.get("allowed") or ([b["default"]] if b.get("default") is not None else [])) + ["MORE"]
            m[f] = b
        else:
            return None
    elif k == "datatype":
        if a["datatype"] in ("uint8", "int8", "uint16", "float") and "unit" not in a:
            m[f] = dict(a, datatype={"uint8": "uint16", "int8": "int16", "uint16": "uint32", "float": "double"}[a["datatype"]])
        else:
            return None
    elif k == "outside":
        b = dict(a, comment="other comment")
        if "default" in b and rng.random() < 0.5:
            del b["default"]
        m[f] = b
    elif k == "delete":
        del m[f]
    elif k == "add":
        m[fresh(rng.choice([par] + branches))] = gen.decorate(rng, w.o, gen.leaf_attrs(rng, w.o, dt=rng.choice(["uint8", "string", "float"])))
    elif k == "constuid":
        m[f] = dict(a, constUID="0x%08X" % rng.getrandbits(32))
    elif k in ("rename", "rename-fka", "rename-fka-list", "rename-fka-change", "rename-text", "reuse"):
        del m[f]
        g = fresh(par if rng.random() < 0.6 else rng.choice([par] + branches))
        if rng.random() < 0.15:
            # another spelling of the same name
            h = f"{par}.{f[len(par) + 1]}{f[len(par) + 2:].swapcase()}"
            if h not in m and h not in old and h != f:
                g = h
        was = ids.former(a)
        b = dict(a)
        if k == "rename":
            pass
        elif k == "rename-fka-list":
            b["fka"] = ["Never.There", f] if not was else was[::-1]
        else:
            b["fka"] = (was or [f]) + ([f] if was else [])
            if len(b["fka"]) == 1 and rng.random() < 0.4:
                b["fka"] = b["fka"][0]
        if k == "rename-fka-change":
            b["type"] = "sensor" if b["type"] != "sensor" else "actuator"
        if k == "rename-text":
            b["description"] += " renamed"
        if rng.random() < 0.2:
            b["deprecation"] = "v1 renamed"
        m[g] = b
        if k == "reuse":
            if w.flat[f].attrs.get("constUID"):
                return None
            m[f] = {"type": a["type"], "datatype": "int64", "description": "another signal", "min": -987654321}
    elif k == "branch":
        if not branches:
            return None
        f = rng.choice(branches)
        g = fresh(f.rsplit(".", 1)[0])
        fka = rng.random() < 0.7
        for x in [x for x in m if x == f or x.startswith(f + ".")]:
            b = dict(m.pop(x))
            if fka:
                b["fka"] = ids.former(b) or [x]
            m[g + x[len(f):]] = b
            old.discard(x)
        return k
    old.discard(f)
    return k


ALL = ["text", "deprecation", "type", "unit", "limits", "allowed", "datatype", "outside", "delete", "add", "constuid", "rename", "rename-fka", "rename-fka-list", "rename-fka-change", "rename-text", "reuse", "branch"]


def random_case(case, i):
    rng = case.rng
    w = World(case, types=0.2, expand=True, hostile=0.3, hostile_values=0.2, max_nodes=rng.choice([8, 16, 25]), instances=rng.choice([0, 0, 0.4]))
    cs = rng.random() < 0.4
    flag = ["--case-sensitive"] if cs else []
    m1 = {f: {k: v for k, v in n.attrs.items() if k not in ("instances", "instantiate", "delete")} for f, n in w.flat.items()}
    args1 = list(w.args)
    if rng.random() < 0.4:
        # some nodes have a history already
        ov = {}
        for f in rng.sample([f for f in sorted(w.leaves)], min(len(w.leaves), 2)):
            a = dict(m1[f])
            if rng.random() < 0.5:
                a["constUID"] = "0x" + "".join(rng.choice("0123456789ABCDEFabcdef") for _ in range(8))
            else:
                a["fka"] = rng.choice([f + "Old", [f + "Old", f + "Older"]])
            m1[f] = ov[f] = a
        case.write("ids.vspec", gen.file_text(ov, (), rng))
        args1 += ["-l", "ids.vspec"]
        try:
            m1 = {f: {k: v for k, v in n.attrs.items() if k not in ("instances", "instantiate", "delete")} for f, n in ref.resolve(w.layers + [ov], True).walk()}
        except ref.Bad as e:
            raise Skip(str(e))
    e1 = ids.export(m1, cs)
    if ids.collisions(e1):
        raise Skip("identifier collision")
    r = case.export("id", *args1, *flag, "-o", "v1.yaml")
    if not r.ok:
        case.fail("export-rejected", r.brief())
        return
    m2 = {f: dict(a) for f, a in m1.items()}
    done = []
    if i % 12:
        old = set(m1)
        for f in m1:  # paths whose identity others refer to stay out of the editing
            if any(g != f and f in ids.former(a) for g, a in m1.items()):
                old.discard(f)
        kinds = ALL if rng.random() < 0.7 else [rng.choice(ALL)]
        for _ in range(rng.randint(1, 6)):
            pool = sorted(old)
            rng.shuffle(pool)
            done.append(edit(rng, w, m2, old, kinds))
    done = [d for d in done if d]
    try:
        root = ref.to_tree(m2)
        root = root[0] if isinstance(root, tuple) else root
    except ref.Bad as e:
        raise Skip(str(e))
    if ref.tree_errors(root, {**dict(gen.UNITS), **{u + " unit name": d for u, d in gen.UNITS}}, w.structs):
        raise Skip("edit made the model invalid")
    e2 = ids.export(m2, cs)
    if ids.collisions(e2):
        raise Skip("identifier collision")
    if any(f in e1 and f not in e2 and any(f.lower() == g.lower() for g in e2) for f in e1):
        raise Skip("names differ by case only")
    order = list(m2)
    if rng.random() < 0.5:
        rng.shuffle(order)
    case.write("m2.vspec", gen.file_text({f: m2[f] for f in order}, (), rng))
    req, opt = classify(e1, e2, cs)
    only = rng.random() < 0.25
    # --strict also demands Is/Has names for booleans
    strict = rng.random() < 0.3 and all(n.get("datatype") != "boolean" or f.rsplit(".", 1)[1].startswith(("Is", "Has")) for f, n in m2.items())
    strict = strict and all(re.fullmatch(r"[A-Z][A-Za-z0-9]*", p) for f in [*m1, *m2] for p in f.split("."))
    args = ["-s", "m2.vspec", *w.targs, *w.uargs, *flag, "--validate-static-uid", "v1.yaml", "-o", "v2.yaml"]
    args += (["--validate-only"] if only else []) + (["--strict", "-e", "staticUID"] if strict else [])
    case.note = {"edits": done, "args": args, "expected": sorted(req)[:12]}
    case.sig, case.nontrivial = model_sig([m1, m2, args]), True
    r = case.vspec("--log-file", "log.txt", "export", "id", *args)
    case.count("export_id")
    if not case.check(r.ok, "validation-rejected", lambda: {**r.brief(), "edits": done}):
        return
    got = records(case.read("log.txt"))
    for d in done:
        case.state("edit", d, cs)
    case.count("records_expected", len(req) + len(opt))
    for q in req:
        case.count("class_" + q[0])
    if not req and not opt:
        case.count("unchanged")
    case.check(len(got) == len(set(got)), "reported-twice", lambda: {"got": got[:20], "edits": done})
    g = set(got)
    for _, f in opt:
        either = {("BREAKING", f), ("ADDED", f)}
        case.check(len(g & either) == 1, "path-reuse", lambda: {"node": f, "got": sorted(g)[:20]})
        g -= either
    missing, extra = req - g, g - req
    # descriptions and deprecations of nodes found by a former name alone are not compared by definition
    extra = {x for x in extra if not (x[0] in ("DESCRIPTION", "DEPRECATION") and any(y[0] == "SEMANTIC" and y[1] == x[1] for y in req))}
    case.check(not missing, "unreported-" + "-".join(sorted({x[0] for x in missing})), lambda: {"missing": sorted(missing)[:10], "got": got[:20], "edits": done})
    case.check(not extra, "misreported-" + "-".join(sorted({x[0] for x in extra})), lambda: {"extra": sorted(extra)[:10], "expected": sorted(req)[:20], "edits": done})
    if only:
        case.check(not case.exists("v2.yaml"), "validate-only-wrote", {})
        return
    doc = load_yaml(case.read("v2.yaml"))
    case.check(same(doc, e2), "current-ids", lambda: diff(e2, doc))


def probe_self(case):
    """Comparing a model with its own export reports nothing."""
    nodes = {"V": {"type": "branch", "description": "d"}, "V.A": {"type": "sensor", "datatype": "uint8", "description": "d", "min": 0, "max": 0, "unit": "m", "deprecation": "x"},
             "V.B": {"type": "sensor", "datatype": "string[]", "description": "", "allowed": ["a", "0"], "fka": ["V.C", "V.D"]},
             "V.K": {"type": "actuator", "datatype": "boolean", "description": "d\n", "constUID": "0x0000000A"},
             "V.E": {"type": "sensor", "datatype": "float", "description": "d", "min": -0.5, "allowed": None}}
    nodes["V.E"].pop("allowed")
    case.write("m.vspec", gen.file_text(nodes))
    u = gen.units_files(case)
    for j, flag in enumerate([[], ["--case-sensitive"]]):
        r = case.export("id", "-s", "m.vspec", *u, *flag, "-o", f"v{j}.yaml")
        r2 = case.vspec("--log-file", "log.txt", "export", "id", "-s", "m.vspec", *u, *flag, "-o", "w.yaml", "--validate-static-uid", f"v{j}.yaml")
        if case.check(r.ok and r2.ok, "self-rejected", lambda: [r.brief(), r2.brief()]):
            case.check(records(case.read("log.txt")) == [], "self-reported", lambda: {"log": case.read("log.txt")})
            case.check(case.read("w.yaml") == case.read(f"v{j}.yaml"), "self-output", {})
    case.count("unchanged", 2)
    case.sig, case.nontrivial, case.note = "self", True, nodes


PROBES = {"self": probe_self}
