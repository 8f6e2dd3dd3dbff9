"""C32: the common options mean the same to every exporter, however they are written."""
import os
import shutil

import gen
import readers
import ref
from checks import c10, c20
from common import *
from core import Skip
from world import World

TECHNIQUE = "runtime monitoring: one model and one set of options through all fourteen exporters, verdicts compared with an independent reference and outputs byte for byte with a first run"
N_QUICK, N_THOROUGH = 110, 3000
RULE = ("A random model, split over main file, included file found only by -I, overlay, types, units and quantities, is exported by every exporter with a full set of options (first run) and then with variations: an option "
        "left out, added or changed (strictness, whitelist, overlays in either order, include directory, unit and type files, defaults beside the vspec), or only written differently (long, short, joined, reordered, absolute, other log level, log file). "
        "Reference rules give the verdict of each variation; where the options mean the same, the output must be that of the first run byte for byte. Exporters refusing the first run are left out. Distinct by model and variation.")
NEED = {"first_runs": 900, "verdicts": 4000, "rejections_expected": 1000, "same_outputs": 1500, "strict_rejections": 150, "spellings": 800, "log_files": 150}
FORMATS = sorted(readers.READ) + ["samm"]
LONG = {"s": "--vspec", "I": "--include-dirs", "e": "--extended-attributes", "a": "--aborts", "l": "--overlays", "q": "--quantities", "u": "--units", "t": "--types"}
PATHS = set("sIlqut")
REFUSE = {"protobuf", "go", "graphql", "id", "ddsidl", "apigear", "samm", "binary", "franca"}


def render(opts, rng=None, style="short", cwd=None):
    """Command line of [(key, value)]; value None is a flag."""
    out = []
    for k, v in opts:
        if v is None:
            out.append(k)
            continue
        if cwd and k in PATHS:
            v = os.path.join(cwd, v)
        st = style if style != "mixed" else rng.choice(["short", "long", "joined", "equals"])
        out += {"short": ["-" + k, v], "long": [LONG[k], v], "joined": ["-" + k + v], "equals": [LONG[k] + "=" + v]}[st]
    return out


def reorder(rng, opts):
    """Any order of the options that keeps the order of each one's values."""
    keys = [k for k, _ in opts]
    rng.shuffle(keys)
    left = {k: [v for x, v in opts if x == k] for k in set(keys)}
    return [(k, left[k].pop(0)) for k in keys]


def without(opts, key, value=...):
    return [(k, v) for k, v in opts if not (k == key and (value is ... or v == value))]


def tree_bytes(case, d):
    out = {}
    for root, _, fs in os.walk(case.path(d)):
        for f in fs:
            p = os.path.join(root, f)
            out[os.path.relpath(p, case.path(d))] = open(p, "rb").read()
    return out


def used_units(*trees):
    return {a["unit"] for t in trees for a in t.values() if a.get("unit")}


def build(case, i):
    """The files and the full set of options; returns what the variations need."""
    rng = case.rng
    names = rng.random() < 0.5
    w = World(case, types=0.6, expand=True, nested_structs=0.0, hostile=0.1, hostile_values=0.1, sub="spec/", overlays=0.5, inst_over=0, max_nodes=rng.choice([5, 9, 14]), extras=rng.choice([0, 0.15, 0.3]),
              instances=rng.choice([0, 0.4]), type_refs=0.7)
    if len(w.flat) > 120 or w.types and c20.package_cycle(w.types):
        raise Skip("large or cyclic packages")
    m = w.layers[0]
    r = w.root.name
    d = "description"
    kind = "none"
    if names:
        kind = rng.choice(["leaf", "branch", "bool", "label", "attribute", "attribute"])
        bad = rng.choice(["speed", "row2", "aB", "Aa_b", "xAxis"])
        if kind == "leaf":
            m[f"{r}.{bad}"] = {"type": "sensor", "datatype": "uint8", d: "d"}
        elif kind == "branch":
            m[f"{r}.{bad}"] = {"type": "branch", d: "d"}
            m[f"{r}.{bad}.Leaf"] = {"type": "sensor", "datatype": "uint8", d: "d"}
        elif kind == "bool":
            m[f"{r}.Flagged"] = {"type": "sensor", "datatype": "boolean", d: "d"}
        elif kind == "label":
            m[f"{r}.Ins"] = {"type": "branch", d: "d", "instances": ["Left", bad]}
            m[f"{r}.Ins.Leaf"] = {"type": "sensor", "datatype": "uint8", d: "d"}
        else:
            m[rng.choice(list(m))][rng.choice(w.o.extra_names)] = rng.choice([1, "x", [1], {"a": 1}])
    # a leaf whose validity hangs on overlays, one that needs a certain units file
    m[f"{r}.Hang"] = {"type": "attribute", "datatype": "uint8", "default": 7, d: "d"}
    m[f"{r}.Measured"] = {"type": "sensor", "datatype": "float", "unit": "m", d: "d"}
    part = {f: m[f] for f in m if m[f]["type"] != "branch" and rng.random() < 0.5}
    part.setdefault(f"{r}.Hang", m[f"{r}.Hang"])
    case.write("inc/part.vspec", gen.file_text(part, (), rng))
    case.write("spec/m.vspec", gen.file_text({f: m[f] for f in m if f not in part}, [("part.vspec", None)], rng))
    case.write("spec/bad.vspec", gen.file_text({f"{r}.Hang": {"type": "attribute", "datatype": "uint8", "default": 300}}))
    case.write("spec/good.vspec", gen.file_text({f"{r}.Hang": {"type": "attribute", "datatype": "uint8", "default": 7}}))
    case.write("inc/viaover.vspec", gen.file_text({f"{r}.Hang": {"type": "attribute", "datatype": "uint8", "default": 7}}))
    case.write("spec/over.vspec", "#include viaover.vspec\n")
    case.write("spec/style.vspec", gen.file_text({f"{r}.lower": {"type": "sensor", "datatype": "uint8", d: "d"}}))
    case.write("spec/styled.vspec", gen.file_text({f"{r}.lower": {"type": "sensor", "datatype": "uint8", "delete": True}}))
    case.write("spec/attr.vspec", gen.file_text({f"{r}.Hang": {"type": "attribute", "datatype": "uint8", "x-added": 3}}))
    # units in two files and nowhere else for the bare copy
    u = load_yaml(case.read("spec/units.yaml"))
    keys = sorted(u)
    first = [k for k in keys if rng.random() < 0.5 and k != "m"]
    case.write("u/u1.yaml", gen.dump({k: u[k] for k in first}) if first else "zzz:\n  definition: z\n  unit: zzz unit\n  quantity: length\n")
    case.write("u/u2.yaml", gen.dump({k: u[k] for k in keys if k not in first}))
    shutil.copy(case.path("spec/quantities.yaml"), case.path("u/q.yaml"))
    q = load_yaml(case.read("u/q.yaml"))
    case.write("u/q1.yaml", gen.dump({"length": q["length"]}))
    case.write("u/q2.yaml", gen.dump({k: v for k, v in q.items() if k != "length"}))
    os.makedirs(case.path("bare"))
    shutil.copy(case.path("spec/m.vspec"), case.path("bare/m.vspec"))
    opts = [("s", "spec/m.vspec"), ("I", "inc"), ("q", "u/q1.yaml"), ("q", "u/q2.yaml"), ("u", "u/u1.yaml"), ("u", "u/u2.yaml")]
    if rng.random() < 0.3:
        os.makedirs(case.path("empty"))
        opts.insert(rng.randint(0, 1), ("I", "empty"))
    if w.types:
        opts.append(("t", "spec/t.vspec"))
        troot = next(iter(w.types)).split(".")[0]
        tb = {troot: {"type": "branch", d: w.types[troot].get(d, "d")}}
        case.write("spec/t2.vspec", gen.file_text({**tb, f"{troot}.Later": {"type": "struct", d: "d"}, f"{troot}.Later.p": {"type": "property", "datatype": "uint8", d: "d"}}))
        case.write("spec/t2bad.vspec", gen.file_text({**tb, f"{troot}.Later": {"type": "struct", d: "d"}, f"{troot}.Later.p": {"type": "property", "datatype": "uint9", d: "d"}}))
        case.write("spec/t2attr.vspec", gen.file_text({**tb, f"{troot}.Later": {"type": "struct", d: "d", "x-added": 1}, f"{troot}.Later.p": {"type": "property", "datatype": "uint8", d: "d"}}))
        case.write("inc/tpart.vspec", case.read("spec/t2.vspec"))
        case.write("spec/t2inc.vspec", "#include tpart.vspec\n" + gen.file_text(tb))
    if len(w.layers) > 1:
        opts.append(("l", "spec/o.vspec"))
    w.root = ref.resolve(w.layers)
    if ref.tree_errors(w.root, {**{x: dt for x, dt in gen.UNITS}, **{x + " unit name": dt for x, dt in gen.UNITS}}, w.structs):
        raise Skip("the additions made the model invalid")
    extras = sorted({k for _, k in c10.extra_violations(w.root, set())} | {k for _, k in c10.extra_violations(ref.resolve(w.layers, False), set())})
    white = [e for e in extras if rng.random() < rng.choice([0.3, 1])]
    opts += [("e", e) for e in white]
    return w, opts, kind, extras, white, u, first


def random_case(case, i):
    rng = case.rng
    w, opts, kind, extras, white, u, first = build(case, i)
    r = w.root.name
    roots = {True: w.root, False: ref.resolve(w.layers, False)}
    bad_names = {x: bool(c10.name_violations(roots[x])) for x in roots}
    bad_attrs = {x: bool(c10.extra_violations(roots[x], set(white))) for x in roots}
    flat = {f: n.attrs for f, n in w.flat.items()}
    units = used_units(flat)
    tunits = used_units(w.types or {})
    first_units = set(first) | {u[k]["unit"] for k in first}
    declared = any("." in str(a.get("datatype", "")) for la in w.layers for a in la.values())
    SAME, NO, YES = "same", False, True
    V = {}   # name: (options, verdict(expanded, takes types), more arguments)

    def strictness(n, a, add=()):
        return lambda x, t: SAME if not ((n and (bad_names[x] or "name" in add)) or (a and (bad_attrs[x] or "attr" in add))) else NO

    V["strict"] = (opts + [("--strict", None)], strictness(1, 1))
    V["no-strict"] = (opts + [("--no-strict", None)], strictness(0, 0))
    V["strict-undone"] = (opts + [("--strict", None), ("--no-strict", None)], strictness(0, 0))
    V["abort-name"] = (opts + [("a", "name-style")], strictness(1, 0))
    V["abort-attribute"] = (opts + [("a", "unknown-attribute")], strictness(0, 1))
    V["abort-both"] = (opts + [("a", "unknown-attribute"), ("a", "name-style")], strictness(1, 1))
    V["style-overlay"] = (opts + [("l", "spec/style.vspec"), ("a", "name-style")], lambda x, t: NO)
    V["style-overlay-other"] = (opts + [("l", "spec/style.vspec")] + ([("a", "unknown-attribute")] if not any(bad_attrs.values()) else []), lambda x, t: YES)
    V["style-deleted"] = (opts + [("l", "spec/style.vspec"), ("l", "spec/styled.vspec"), ("a", "name-style")], strictness(1, 0))
    V["attribute-overlay"] = (opts + [("l", "spec/attr.vspec"), ("a", "unknown-attribute")], lambda x, t: NO)
    V["attribute-overlay-listed"] = (opts + [("l", "spec/attr.vspec"), ("a", "unknown-attribute"), ("e", "x-added")], lambda x, t: NO if bad_attrs[x] else YES)
    V["attribute-overlay-lenient"] = (opts + [("l", "spec/attr.vspec")] + ([("a", "name-style")] if not any(bad_names.values()) else []), lambda x, t: YES)
    if white:
        drop = rng.choice(white)
        V["whitelist-short"] = (without(opts, "e", drop) + [("a", "unknown-attribute")], lambda x, t: NO if c10.extra_violations(roots[x], set(white) - {drop}) else YES)
    V["whitelist-comma"] = (opts + [("e", "x-a,x-b")], lambda x, t: NO)
    V["whitelist-core"] = (opts + [("e", rng.choice(["datatype", "min", "description", "unit", "allowed"]))], lambda x, t: NO)
    V["overlay-bad"] = (opts + [("l", "spec/bad.vspec")], lambda x, t: NO)
    V["overlay-repaired"] = (opts + [("l", "spec/bad.vspec"), ("l", "spec/good.vspec")], lambda x, t: SAME)
    V["overlay-spoiled"] = (opts + [("l", "spec/good.vspec"), ("l", "spec/bad.vspec")], lambda x, t: NO)
    V["overlay-include"] = (opts + [("l", "spec/over.vspec")], lambda x, t: SAME)
    V["overlay-missing"] = (opts + [("l", "spec/nosuch.vspec")], lambda x, t: NO)
    V["no-include-dir"] = (without(opts, "I", "inc"), lambda x, t: NO)
    V["include-dir-missing"] = (opts + [("I", "nosuch")], lambda x, t: NO)
    V["default-units"] = (without(without(opts, "u"), "q"), lambda x, t: SAME)
    V["default-quantities"] = (without(opts, "q"), lambda x, t: SAME)
    V["one-units-file"] = (without(opts, "u", "u/u2.yaml"), lambda x, t: NO)
    if not (used_units(*w.layers) - units) & first_units:  # a unit may be stated where it is deleted or replaced
        V["other-units-file"] = (without(opts, "u", "u/u1.yaml"), lambda x, t: NO if (units | (tunits if t else set())) & first_units else SAME)
    bare = [("s", "bare/m.vspec")] + without(opts, "s")
    V["elsewhere"] = (bare, lambda x, t: SAME)
    V["elsewhere-no-units"] = (without(without(bare, "u"), "q"), lambda x, t: NO)
    V["elsewhere-no-quantities"] = (without(bare, "q"), lambda x, t: NO)
    V["units-missing"] = (opts + [("u", "u/nosuch.yaml")], lambda x, t: NO)
    if w.types:
        V["types-left-out"] = (without(opts, "t"), lambda x, t: (NO if declared else YES) if t else SAME)
        V["types-twice"] = (opts + [("t", "spec/t2.vspec")], lambda x, t: YES if t else SAME)
        V["types-bad"] = (opts + [("t", "spec/t2bad.vspec")], lambda x, t: NO if t else SAME)
        V["types-attribute"] = (opts + [("t", "spec/t2attr.vspec")], lambda x, t: NO if t else SAME)
        V["types-attribute-listed"] = (opts + [("t", "spec/t2attr.vspec"), ("e", "x-added")], lambda x, t: YES)
        V["types-include"] = (opts + [("t", "spec/t2inc.vspec")], lambda x, t: YES if t else SAME)
    # a units file whose quantity is not defined is refused
    dropped, lost = rng.choice([("u/q1.yaml", "length"), ("u/q2.yaml", "other")])
    V["one-quantities-file"] = (without(opts, "q", dropped), lambda x, t: NO if any(a["quantity"] == lost for a in u.values()) else SAME)
    spell = {"long": lambda: render(opts, style="long"), "joined": lambda: render(opts, style="joined"), "equals": lambda: render(opts, style="equals"),
             "reordered": lambda: render(reorder(rng, opts), rng, "mixed"), "absolute": lambda: render(opts, style="long", cwd=case.dir), "log-level": lambda: render(opts), "log-file": lambda: render(opts)}
    chosen = rng.sample(sorted(V), 7)
    for must in (["strict", "abort-name"] if kind in ("leaf", "branch", "bool", "label") else ["strict", "abort-attribute"] if kind == "attribute" else []):
        if must not in chosen and rng.random() < 0.7:
            chosen.append(must)
    case.sig = model_sig([case.sig, opts, sorted(chosen)])
    case.nontrivial = True
    case.note = {"options": opts, "variations": chosen, "injected": kind, "nodes": len(flat)}

    def run(fmt, args, pre=("--log-level", "WARNING")):
        if fmt not in readers.TYPES and fmt != "samm":
            args = [a for j, a in enumerate(args) if not (a in ("-t", "--types") or a.startswith("--types=") or (a.startswith("-t") and len(a) > 2) or (j and args[j - 1] in ("-t", "--types")))]
        if os.path.isdir(case.path("out")):
            shutil.rmtree(case.path("out"))
        os.makedirs(case.path("out"))
        oargs = ["-tf", "out/samm"] if fmt == "samm" else readers.out_args(fmt, "out/o", w.types if fmt in readers.TYPES else None)
        case.count("export_" + fmt)
        res = case.vspec(*pre, "export", fmt, *args, *oargs)
        return res, tree_bytes(case, "out")

    for fmt in FORMATS:
        takes = fmt in readers.TYPES or fmt == "samm"
        expanded = fmt != "samm"
        if declared and not takes:
            continue
        r0, good = run(fmt, render(opts))
        if not r0.ok:
            # refused for names that clash in the format: then in one plain file, too
            case.write("plain/m.vspec", gen.file_text(ref.layer(w.layers)))
            shutil.copy(case.path("spec/units.yaml"), case.path("plain/units.yaml"))
            shutil.copy(case.path("spec/quantities.yaml"), case.path("plain/quantities.yaml"))
            r1, _ = run(fmt, ["-s", "plain/m.vspec", *(["-t", "spec/t.vspec"] if w.types else [])])
            case.check(fmt in REFUSE and not r1.ok, f"{fmt}-first-rejected", lambda: r0.brief())
            case.count("refused_first_runs")
            continue
        case.count("first_runs")
        for name in chosen:
            o, verdict = V[name]
            want = verdict(expanded, takes)
            res, got = run(fmt, render(o, rng, "mixed" if rng.random() < 0.5 else "short"))
            ctx = lambda: {"format": fmt, "variation": name, "injected": kind, **res.brief()}  # noqa: E731
            case.count("verdicts")
            case.state(fmt, name, str(want))
            if want is NO:
                case.count("rejections_expected")
                case.count("strict_rejections", name in ("strict", "abort-name", "abort-attribute", "abort-both"))
                case.check(res.code != 0, f"{fmt}-accepts-{name}", ctx)
            elif want is SAME:
                if case.check(res.ok, f"{fmt}-rejects-{name}", ctx):
                    case.count("same_outputs")
                    case.check(got == good, f"{fmt}-differs-{name}", lambda: {"files": sorted(k for k in got.keys() | good.keys() if got.get(k) != good.get(k))[:4], **ctx()})
            else:
                case.check(res.ok or fmt in REFUSE and not res.crashed, f"{fmt}-rejects-{name}", ctx)
        for name in rng.sample(sorted(spell), 2):
            pre = ("--log-level", "WARNING")
            if name == "log-level":
                pre = rng.choice([(), ("--log-level", "DEBUG"), ("--log-level", "debug"), ("--log-level=ERROR",), ("--log-level", "CRITICAL"), ("--log-level", "INFO")])
            elif name == "log-file":
                pre = rng.choice([("--log-file", "run.log"), ("--log-level", "DEBUG", "--log-file=run.log")])
            res, got = run(fmt, spell[name](), pre)
            ctx = lambda: {"format": fmt, "spelling": name, **res.brief()}  # noqa: E731
            case.count("spellings")
            case.state(fmt, "spelling", name)
            if case.check(res.ok, f"{fmt}-rejects-{name}", ctx):
                case.count("same_outputs")
                case.check(got == good, f"{fmt}-differs-{name}", lambda: {"files": sorted(k for k in got.keys() | good.keys() if got.get(k) != good.get(k))[:4], **ctx()})
            if name == "log-file":
                case.count("log_files")
                case.check(os.path.isfile(case.path("run.log")) and os.path.getsize(case.path("run.log")) > 0 or not pre[0] == "--log-level", "no-log-file", ctx)
                if os.path.exists(case.path("run.log")):
                    os.unlink(case.path("run.log"))


def probe_usage(case):
    """Unknown formats, unknown options, missing required ones: refused without output."""
    case.write("m.vspec", gen.file_text({"V": {"type": "branch", "description": "d"}, "V.X": {"type": "sensor", "datatype": "uint8", "description": "d"}}))
    for args in (["nosuch", "-s", "m.vspec", "-o", "out"], ["json", "-s", "m.vspec", "--nosuch", "-o", "out"], ["json", "-o", "out"], ["json", "-s", "m.vspec", "-o"], ["yaml", "-s", "nosuch.vspec", "-o", "out"],
                 ["yaml", "-s", "m.vspec", "-a", "nosuch", "-o", "out"], ["csv", "-s", "m.vspec", "-o", "out", "stray"]):
        r = case.vspec("export", *args)
        case.check(r.code != 0, "usage-accepted", lambda: {"args": args, **r.brief()})
        case.check(not case.exists("out"), "usage-wrote", lambda: {"args": args})
    for fmt in FORMATS:
        r = case.vspec("export", fmt)
        case.check(r.code != 0, "usage-accepted", lambda: {"args": [fmt], **r.brief()})
        r = case.vspec("export", fmt, "--help")
        case.check(r.ok, "no-help", lambda: {"args": [fmt], **r.brief()})
    case.sig, case.nontrivial, case.note = "usage", True, "unknown formats and options"


PROBES = {"usage": probe_usage}
