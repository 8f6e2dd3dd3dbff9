"""C30: all exporters describe the same set of signals."""
from collections import Counter

import gen
import ref
import readers
from checks import c20, c22
from common import *
from core import Skip
from samm import Models
from world import World

TECHNIQUE = "runtime monitoring: one model through all fourteen exporters, each output read back independently and the multisets of signals compared with each other and with the model"
N_QUICK, N_THOROUGH = 260, 6000
RULE = ("Random models (instances, overlays, structs, deprecation, falsy and missing metadata, repeated and prefix-related names, empty branches) go through every exporter; fourteen readers recover the multiset of "
        "leaves and branches of each output. All must equal the model's; then metadata of some nodes is changed by an overlay that adds no node, and every format must show the same multiset again. "
        "Distinct by model and options.")
NEED = {"formats_read": 2500, "leaves_seen": 20000, "branches_seen": 8000, "metadata_changed": 150, "deprecated_leaves": 100, "with_structs": 40, "samm_nodes": 800}
setup = c22.setup
ALL = sorted(readers.READ)


def has_leaf(n):
    return n.attrs["type"] != "branch" or any(has_leaf(k) for k in n.kids.values())


def random_case(case, i):
    rng = case.rng
    kw = [{}, {"names": ["A", "AB", "B", "ABC", "BC", "C", "Door", "DoorLeft", "Left", "Row", "Row1", "Row1Left"]},
          {"names": ["Speed", "IsOn", "Left", "Right", "Window", "Door", "Row1", "Position"]}][i % 3]
    inst = rng.random() < 0.5
    w = World(case, types=0.35, expand=True, nested_structs=0.0, hostile=0.3, hostile_values=0.3, deprecation=rng.choice([0.05, 0.5]), empty_branch=rng.choice([0.05, 0.4]),
              instances=rng.choice([0, 0.4, 0.6]), inst_over=0.9 if inst else 0, max_nodes=rng.choice([8, 16, 30]), extras=0, **kw)
    if not has_leaf(w.root) or len(w.flat) > 250:
        raise Skip("no leaf or too large")
    declared = any("." in str(a.get("datatype", "")) for la in w.layers for a in la.values())
    flat = {f: n.attrs for f, n in w.flat.items()}
    joined = [f.replace(".", "") for f in w.branches] + [f.replace(".", "") for f, a in (w.types or {}).items() if a["type"] == "struct"]
    clash = len(set(joined)) < len(joined)
    short = [f.replace(".", "") for f, n in ref.resolve(w.layers, False).walk() if n.attrs["type"] == "branch"]
    go_clash = clash or len(set(short)) < len(short) or any(f.rsplit(".", 1)[-1].startswith("I") for f in w.branches)
    gq = [f.rsplit(".", 1)[0] + "." + c21key(f) for f in w.flat if "." in f]
    gq_clash = len(set(gq)) < len(gq) or len({f.replace(".", "_") for f in w.flat}) < len(w.flat)
    base = [a for a in w.args if a not in ("--no-expand", "--uuid")]
    notypes = [a for j, a in enumerate(base) if a != "-t" and (j == 0 or base[j - 1] != "-t")]
    leaves = {f for f in w.leaves}
    branches = {f for f in w.branches}
    shown = {f for f, n in w.flat.items() if has_leaf(n)}
    case.note = {"args": base, "leaves": len(leaves), "branches": len(branches)}
    case.count("deprecated_leaves", sum(bool(n.attrs.get("deprecation")) for n in w.leaves.values()))
    case.count("with_structs", declared)

    def run(fmt, more, what):
        if declared and fmt not in readers.TYPES:
            return
        if fmt == "protobuf" and w.types and c20.package_cycle(w.types):
            return
        out = f"{what}.{readers.EXT[fmt]}"
        r = case.export(fmt, *(base if fmt in readers.TYPES else notypes), *more, *readers.out_args(fmt, out, w.types))
        if not r.ok and (fmt == "protobuf" and clash or fmt == "go" and go_clash or fmt == "graphql" and gq_clash):
            case.count("refused_for_names")
            return
        if not case.check(r.ok, f"{fmt}-rejected", lambda: r.brief()):
            return
        try:
            le, br, al = readers.READ[fmt](case, out, w)
        except Exception as e:
            case.fail(f"{fmt}-unreadable", {"error": f"{type(e).__name__}: {e}"[:500], "when": what})
            return
        case.count("formats_read")
        case.state(fmt, what, bool(w.types))
        wb = {"graphql": branches & shown, "protobuf": branches, "go": branches}.get(fmt, branches)
        for kind, got, want in (("leaf", le, leaves), ("branch", br, wb), ("node", al, leaves | wb)):
            if got is None:
                continue
            case.count("leaves_seen", sum(got.values()) if kind == "leaf" else 0)
            case.count("branches_seen", sum(got.values()) if kind == "branch" else 0)
            ctx = lambda g=got, wa=want: {"format": fmt, "missing": sorted(wa - g.keys())[:5], "extra": sorted(g.keys() - wa)[:5], "twice": [f for f, k in g.items() if k > 1][:5], "when": what}  # noqa: E731
            case.check(not want - got.keys(), f"{fmt}-{kind}-dropped", ctx)
            case.check(not got.keys() - want, f"{fmt}-{kind}-added", ctx)
            case.check(all(k == 1 for k in got.values()), f"{fmt}-{kind}-twice", ctx)
    for fmt in ALL:
        run(fmt, [], "first")
    if not inst:
        samm_nodes(case, w, base)
    # the same nodes with other metadata
    ov = {}
    o = gen.Opts(hostile=0.5, hostile_values=0.5, instances=0)
    o.units = gen.UNITS
    for f, n in w.flat.items():
        if rng.random() < 0.3:
            a = {"type": n.attrs["type"], **({"datatype": n.attrs["datatype"]} if "datatype" in n.attrs else {})}
            for k, v in [("description", gen.text(rng, 0.5)), ("comment", gen.text(rng, 0.5)), ("deprecation", "V9.9 use another"), ("fka", ["Old." + f])]:
                if rng.random() < 0.5:
                    a[k] = v
            if "datatype" not in a:
                a.pop("fka", None)
            if a["type"] not in ("branch",) and "unit" not in n.attrs and a["datatype"] in ref.SCALARS and a["datatype"] not in ("string", "boolean") and not n.attrs.get("allowed") and rng.random() < 0.5:
                a["unit"] = "km/h" if "km/h" in dict(gen.UNITS) else gen.UNITS[0][0]
            ov[f] = a
    if not ov:
        return
    case.write("meta.vspec", gen.file_text(ov))
    errs = None
    try:
        root = ref.resolve(w.layers + [ov], True)
        errs = ref.tree_errors(root, {**dict(gen.UNITS), **{u + " unit name": d for u, d in gen.UNITS}} if w.uargs else {}, w.structs)
        if errs or {f for f, _ in root.walk()} != set(w.flat):
            return
    except ref.Bad:
        return
    case.count("metadata_changed")
    w.flat = {f: n for f, n in root.walk()}
    for fmt in rng.sample(ALL, 5) if case.tier == "quick" else ALL:
        run(fmt, ["-l", "meta.vspec"], "second")


def samm_nodes(case, w, base):
    """The aspect model knows every node that is not deprecated, by its payload path."""
    r = case.export("samm", *base, "--no-split", "-tf", "samm")
    if not case.check(r.ok, "samm-rejected", lambda: r.brief()):
        return
    dep = [f for f, n in w.flat.items() if n.attrs.get("deprecation")]
    want = Counter(f.split(".", 1)[1].casefold() for f in w.flat if "." in f and not any(f == d or f.startswith(d + ".") for d in dep))
    m = Models(case, "samm", "urn:samm:com.covesa.vss.spec:1.0.0#")
    if not m.files:
        case.check(w.root.name in dep or not want, "samm-no-output", lambda: {"missing": sorted(want)[:5]})
        return
    try:
        got = Counter(".".join(p) for p, k in m.paths(m.aspects()[m.names[0]][0]).items() for _ in range(k) if p)
    except Exception as e:
        case.fail("samm-unreadable", {"error": f"{type(e).__name__}: {e}"[:500]})
        return
    case.count("formats_read")
    case.count("samm_nodes", sum(want.values()))
    case.check(got == want, "samm-nodes", lambda: {"missing": sorted(want - got)[:5], "extra": sorted(got - want)[:5]})


def c21key(f):
    return f.rsplit(".", 1)[1].lower().replace("_", "")


def everywhere(case, m, what, fmts=ALL):
    """The model of file text m through all formats."""
    case.write("m.vspec", m)

    class W:
        root = ref.resolve([load_yaml(m)], True)
        types = None
    w = W()
    w.flat = {f: n for f, n in w.root.walk()}
    w.leaves = {f: n for f, n in w.flat.items() if n.attrs["type"] != "branch"}
    w.branches = {f: n for f, n in w.flat.items() if n.attrs["type"] == "branch"}
    for fmt in fmts:
        out = "p." + readers.EXT[fmt]
        r = case.export(fmt, "-s", "m.vspec", *readers.out_args(fmt, out, None))
        if case.check(r.ok, f"{fmt}-rejected", lambda: r.brief()):
            le, _, al = readers.READ[fmt](case, out, w)
            case.count("formats_read")
            got = le if le is not None else al
            want = set(w.leaves) if le is not None else set(w.flat)
            case.check(set(got) == want and all(k == 1 for k in got.values()), f"{fmt}-{what}", lambda: {"format": fmt, "missing": sorted(want - set(got))[:5], "extra": sorted(set(got) - want)[:5], "twice": [f for f, k in got.items() if k > 1][:5]})


def probe_scale(case):
    """A chain of a hundred branches, branches of 250 leaves and a branch of 60 x 4 instances."""
    leaf, br = {"type": "sensor", "datatype": "uint8", "description": "d"}, {"type": "branch", "description": "d"}
    m, at = {"V": br, "V.Deep": br}, "V.Deep"
    for k in range(100):
        at += f".L{k}"
        m[at] = br
        m[at + ".X"] = {**leaf, "datatype": ["uint8", "string", "float[]"][k % 3]}
    for b in "ABCDEF":
        m[f"V.{b}"] = br
        m.update({f"V.{b}.{b}{k}": leaf for k in range(250)})
    m["V.Many"] = {**br, "instances": ["Row[1,60]", ["A", "B", "C", "D"]]}
    m["V.Many.X"] = leaf
    m["V.Many.Sub"] = br
    m["V.Many.Sub.Y"] = {**leaf, "type": "actuator"}
    everywhere(case, gen.file_text(m), "scale")
    case.sig, case.nontrivial, case.note = "scale", True, {"nodes": len(m)}


def probe_plain(case):
    """Names that contain each other, a leaf below the root, an instance and a branch of equal name."""
    m = gen.file_text({"V": {"type": "branch", "description": "d"}, "V.Speed": {"type": "sensor", "datatype": "float", "description": "d"}, "V.SpeedLimit": {"type": "branch", "description": "d"},
                       "V.SpeedLimit.Speed": {"type": "actuator", "datatype": "uint8", "description": "d", "deprecation": "V5"},
                       "V.Row": {"type": "branch", "description": "d", "instances": ["Row1", "Row"]}, "V.Row.V": {"type": "attribute", "datatype": "string", "description": "d", "default": ""}})
    everywhere(case, m, "plain")
    case.sig, case.nontrivial, case.note = "plain", True, m


PROBES = {"plain": probe_plain, "scale": probe_scale}
