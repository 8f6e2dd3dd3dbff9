"""C06: only well-formed trees are accepted."""
import gen
import ref
from common import *
from core import Skip

N_QUICK, N_THOROUGH = 1600, 16000
RULE = ("Random arrangements of branches, signals, structs and properties over random tree shapes, with zero, one or several roots, missing "
        "or incomplete intermediate nodes, every kind of node below every kind, statements in any order and split over overlays or two type files, in the signal tree and in type trees. Oracle: "
        "an independent well-formedness predicate; accepted arrangements must be exported with exactly the stated nodes, independent of the "
        "statement order, others rejected without output. Non-trivial: at least three nodes.")
NEED = {"accepted_models": 150, "rejected_models": 150, "shuffles": 100, "pairs": 120, "second_type_files": 60}


def attrs(rng, t):
    a = {"type": t, "description": "d"}
    if t in ("sensor", "actuator", "attribute", "property"):
        a["datatype"] = rng.choice(ref.SCALARS)
    return a


def random_case(case, i):
    rng = case.rng
    types_tree = rng.random() < 0.25
    wild = rng.choice([0, 0, 0.08, 0.25])
    names = ["A", "B", "C", "AB", "Left"]
    rootname = "Types" if types_tree else "V"
    nodes = {rootname: attrs(rng, "branch")}
    n = rng.randint(2, 14)
    for _ in range(n):
        p = rng.choice(list(nodes))
        pt = nodes[p]["type"]
        if rng.random() < wild:
            t = rng.choice(["branch", "sensor", "actuator", "attribute", "struct", "property"])
        elif pt == "branch":
            t = rng.choice(["branch", "branch", "struct"] if types_tree else ["branch", "sensor", "actuator", "attribute", "sensor", "struct"])
        elif pt == "struct":
            t = rng.choice(["property", "property", "struct"])
        else:
            continue
        f = f"{p}.{rng.choice(names)}"
        if f in nodes:
            continue
        nodes[f] = attrs(rng, t)
    r = rng.random()
    odd = "none"
    if r < 0.12 and len(nodes) > 2:
        # a missing node
        f = rng.choice([k for k in nodes if k != rootname])
        if any(k.startswith(f + ".") for k in nodes):
            odd = "missing-inner"
        del nodes[f]
    elif r < 0.18:
        nodes["Second"] = attrs(rng, "branch")
        odd = "two-roots"
        if rng.random() < 0.5:
            nodes["Second.X"] = attrs(rng, "sensor")
    elif r < 0.24:
        nodes["Other.X"] = attrs(rng, "sensor")
        odd = "orphan"
    elif r < 0.28:
        nodes = {k: v for k, v in nodes.items() if k != rootname}
        odd = "no-root"
        if not nodes:
            raise Skip("empty")
    elif r < 0.32:
        nodes[f"{rootname}.P.Q.R"] = attrs(rng, "sensor" if not types_tree else "struct")
        odd = "missing-two"
    elif r < 0.36:
        nodes[f"{rootname}.Inst"] = {"type": "branch", "description": "i", "instances": ["Left", "Right"]}
        nodes[f"{rootname}.Inst.L"] = attrs(rng, "sensor")
        nodes[f"{rootname}.Inst.Left.M"] = attrs(rng, "sensor")
        odd = "instance-generated"
        if types_tree:
            raise Skip("instances in types")
    elif r < 0.4:
        nodes[f"{rootname}.Inst"] = {"type": "branch", "description": "i", "instances": ["Left", "Right"]}
        nodes[f"{rootname}.Inst.L"] = attrs(rng, "sensor")
        nodes[f"{rootname}.Inst.Middle.M"] = attrs(rng, "sensor")
        odd = "no-such-instance"
        if types_tree:
            raise Skip("instances in types")
    elif r < 0.44:
        k = rng.choice(list(nodes))
        nodes[k] = {kk: v for kk, v in nodes[k].items() if kk != rng.choice(["type", "description"])}
        odd = "incomplete"
    elif r < 0.58 and rootname in nodes:
        # every kind of node below every kind, at a random place
        kinds = ["branch", "struct", "property"] * 2 if types_tree else ["branch", "sensor", "actuator", "attribute", "struct", "property"]
        up, down = kinds[i % 6], kinds[i // 6 % 6]
        free = [k for k in nodes if f"{k}.Upper" not in nodes and nodes[k]["type"] in ("branch", *(["struct"] if up in ("struct", "property") else []))]
        base = rng.choice(free)
        if up == "property" and nodes[base]["type"] != "struct":
            nodes[f"{base}.Around"] = attrs(rng, "struct")
            base += ".Around"
        nodes[f"{base}.Upper"] = attrs(rng, up)
        nodes[f"{base}.Upper.Lower"] = attrs(rng, down)
        odd = f"{down}-below-{up}"
        case.count("pairs")
    items = list(nodes.items())
    rng.shuffle(items)
    nodes = dict(items)
    layers = [nodes]
    if types_tree and rng.random() < 0.4:
        # a second type file adds nodes, restating what is above them
        part = {k for k in nodes if rng.random() < 0.4}
        a = {k: v for k, v in nodes.items() if k not in part or any(o.startswith(k + ".") for o in nodes if o not in part)}
        b = {k: v for k, v in nodes.items() if k in part}
        for k in list(b):
            while "." in k and (rng.random() < 0.97 or k.count(".") == 1):
                k = k.rsplit(".", 1)[0]
                if k in nodes:
                    b[k] = nodes[k]
        if a and b:
            layers = [a, b]
            case.count("second_type_files")
    # expected verdict
    try:
        root = ref.resolve([nodes])
        errs = ref.tree_errors(root)
        if types_tree:
            # every file of a type tree states all nodes above those it states
            for la in layers:
                for f in la:
                    p = f.rsplit(".", 1)[0]
                    if "." in f and p not in la:
                        errs.append(f"orphan {f}")
                if not any("." not in f for f in la):
                    errs.append("file without root")
    except ref.Bad as e:
        errs = [str(e)]
        root = None
    case.sig = model_sig(sorted((k, v.get("type")) for k, v in nodes.items()))
    case.nontrivial = len(nodes) >= 3
    case.note = {"nodes": {k: v.get("type") for k, v in nodes.items()}, "odd": odd, "errors": errs[:3]}
    case.state("types" if types_tree else "signals", odd, (errs[0].split(": ")[-1][:24] if errs else "ok"), len(nodes) // 4)
    if rng.random() < 0.3 and not types_tree:
        b = {k: v for k, v in nodes.items() if rng.random() < 0.6}
        layers = [b, {k: v for k, v in nodes.items() if k not in b}]

    # options that ask for other things
    options = rng.choice([(), (), (), ("-a", "unknown-attribute"), ("-e", "source"), ("--extend-all-attributes",), ("-I", ".")])

    def run(layers, out):
        for j, la in enumerate(layers):
            case.write(f"m{j}.vspec", gen.file_text(la, ()) or "# empty\n")
        if types_tree:
            case.write("v.vspec", gen.file_text({"V": attrs(rng, "branch"), "V.S": {"type": "sensor", "datatype": "uint8", "description": "d"}}))
            args = ["-s", "v.vspec", *(x for j in range(len(layers)) for x in ("-t", f"m{j}.vspec")), "--types-output", "types.yaml"]
        else:
            args = ["-s", "m0.vspec"]
            for j in range(1, len(layers)):
                args += ["-l", f"m{j}.vspec"]
        return case.export("yaml", *args, *options, "-o", out)
    r1 = run(layers, "out.yaml")
    if errs:
        case.count("rejected_models")
        expect_reject(case, r1, f"malformed-{odd}", {"nodes": nodes, "errors": errs})
        if types_tree:
            case.check(not case.exists("types.yaml"), "malformed-types-output", lambda: {"nodes": nodes})
        return
    case.count("accepted_models")
    data = None
    if r1.ok:
        data = load_yaml(case.read("types.yaml" if types_tree else "out.yaml"))
    if not expect_model(case, r1, data, ref.shown(root), "wellformed", {"nodes": nodes, "layers": len(layers)}):
        return
    items = list(nodes.items())
    rng.shuffle(items)
    first = case.read("types.yaml" if types_tree else "out.yaml")
    r2 = run([dict(items)], "out.yaml")
    if case.check(r2.ok, "shuffled:rejected", r2.brief):
        case.count("shuffles")
        case.check(case.read("types.yaml" if types_tree else "out.yaml") == first, "statement-order-matters", lambda: {"order": [k for k, _ in items]})


def probe_no_mapping(case):
    for j, t in enumerate(["", "# only a comment\n", "- a\n- b\n", "text\n", "5\n", "A: 5\n", "A:\n  - x\n", "A: text\n", "5:\n  type: branch\n  description: d\n",
                           "A:\n", "A:\n  type: branch\n  description: d\nA.B:\n", "A: {type: branch, description: d\n", "\tA: x\n"]):
        case.write("m.vspec", t)
        r = case.export("yaml", "-s", "m.vspec", "-o", f"o{j}.yaml")
        expect_reject(case, r, "no-mapping", {"text": t}, out=f"o{j}.yaml")
    case.sig, case.nontrivial, case.note = "nomap", True, "files that are no mapping of nodes"


PROBES = {"no-mapping": probe_no_mapping}
