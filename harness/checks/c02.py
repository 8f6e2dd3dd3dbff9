"""C02: overlays merge per attribute, later wins, nothing else changes."""
import copy

import gen
import ref
from common import *

FOREIGN_SHARE = 0.08
N_QUICK, N_THOROUGH = 800, 9000
RULE = ("A random base model and 1..6 random overlays (attribute changes incl. falsy values, null, nested extra attributes, datatype and "
        "type changes, added nodes and branches, partial statements). Oracle: independent per-attribute merge; if the merged model "
        "breaks a documented rule the run must be rejected, else every exported node and attribute must match. Also: neutral overlays "
        "change nothing, an overlay split attribute by attribute is equivalent, order matters exactly for keys stated twice. "
        "Non-trivial: at least one overlay states something the base does not.")
NEED = {"accepted_models": 100, "overlays_applied": 500, "aliases": 60, "deep_updates": 60}
UNITS = {n: d for n, d in gen.UNITS}


def mutate(rng, o, cur, nodes_by_now):
    """One overlay over the currently merged model."""
    ov = {}
    keys = list(nodes_by_now)
    for _ in range(rng.randint(1, 6)):
        r = rng.random()
        f = rng.choice(keys)
        a = nodes_by_now[f]
        e = ov.setdefault(f, {})
        leaf = a.get("type") not in ("branch", None)
        if r < 0.2:
            e["description"] = gen.text(rng, 0.4)
        elif r < 0.3:
            e["comment"] = rng.choice(["overlay comment", "", None, gen.text(rng)])
        elif r < 0.36:
            e["deprecation"] = rng.choice(["v9", "", None])
        elif r < 0.5:
            k = rng.choice(o.extra_names)
            e[k] = rng.choice([0, False, "", "v", {"k": rng.randint(0, 5)}, {"l": {"m": rng.randint(0, 5)}}, [1, 2], {"l": {"n": 1}}, 2.5, [], {}, [3]])
        elif r < 0.56 and leaf:
            # an empty list is a statement like any other
            k = rng.choice(["allowed", "default"])
            if k == "allowed" or (str(a.get("datatype")).endswith("[]") and not a.get("arraysize")):
                e[k] = []
        elif r < 0.58 and not leaf:
            e["instances"] = rng.choice([[], gen.instances(rng), None])
        elif r < 0.72 and leaf:
            new = gen.leaf_attrs(rng, o, dt=a.get("datatype") if rng.random() < 0.7 else None)
            for k in list(new):
                if rng.random() < 0.5:
                    new.pop(k)
            # resetting what would clash, sometimes
            if rng.random() < 0.6:
                if "allowed" in new and "min" not in new:
                    new["min"] = None
                    new["max"] = None
                elif ("min" in new or "max" in new) and a.get("allowed"):
                    new["allowed"] = None
                if a.get("default") is not None and "default" not in new:
                    new["default"] = None
            e.update(new)
        elif r < 0.82:
            branches = [k for k in keys if nodes_by_now[k].get("type") == "branch"]
            if branches:
                b = rng.choice(branches)
                n = f"{b}.New{rng.randint(0, 9)}"
                ov[n] = gen.decorate(rng, o, gen.leaf_attrs(rng, o))
        elif r < 0.9:
            branches = [k for k in keys if nodes_by_now[k].get("type") == "branch"]
            if branches:
                b = rng.choice(branches)
                n = f"{b}.NewB{rng.randint(0, 9)}"
                ov[n] = gen.decorate(rng, o, {"type": "branch"})
                ov[n + ".Leaf"] = gen.decorate(rng, o, gen.leaf_attrs(rng, o))
        else:
            e["type"] = rng.choice(["sensor", "actuator", "attribute"]) if leaf else "branch"
    ov = {k: v for k, v in ov.items() if v or rng.random() < 0.3}
    items = list(ov.items())
    rng.shuffle(items)
    return dict(items)


def conflict_instance(m, layers):
    # nodes stated on generated instance paths are the subject of C04
    merged = ref.layer([m] + layers)
    for f, a in merged.items():
        inst = a.get("instances")
        if inst:
            first = {p[0] for p in ref.instance_paths(inst)[0]}
            for g in merged:
                if g.startswith(f + ".") and g[len(f) + 1:].split(".")[0] in first:
                    return True
    return False


def random_case(case, i):
    rng = case.rng
    o = gen.Opts(hostile=0.15, instances=rng.choice([0, 0.3]), max_nodes=rng.choice([6, 12, 25]), extras=0.3,
                 units=gen.UNITS if rng.random() < 0.7 else [])
    m = gen.model(rng, o)
    nested = None
    if rng.random() < 0.3:
        # nodes with the same content, which the files then state by YAML aliases
        leaves = [f for f, a in m.items() if a["type"] != "branch" and a["datatype"] != "boolean"]
        nested = rng.choice(o.extra_names) if leaves and rng.random() < 0.5 else None
        if nested:
            m[leaves[0]] = {**m[leaves[0]], nested: {"l": {"m": 1, "n": {"o": 2}}}}
        for f in rng.sample(leaves, min(len(leaves), rng.randint(2, 6)))[1:]:
            m[f] = copy.deepcopy(m[leaves[0] if nested else rng.choice(leaves)])
    uargs = gen.units_files(case)
    layers = []
    for _ in range(rng.randint(1, 6) if rng.random() < 0.8 else 1):
        layers.append(mutate(rng, o, None, ref.layer([m] + layers)))
        if nested and rng.random() < 0.5:
            # only one of those nodes gets another value deep inside
            f = rng.choice([f for f, a in m.items() if nested in a])
            layers[-1].setdefault(f, {})[nested] = rng.choice([{"l": {"m": 7}}, {"l": {"n": {"o": 7}}}, {"l": {"n": {"p": 7}}}])
            case.count("deep_updates")
    again = None
    if len(layers) > 1 and rng.random() < 0.2:
        # the same file once more: what it states is stated last
        again = rng.randrange(len(layers) - 1)
        layers.append(copy.deepcopy(layers[again]))
    if conflict_instance(m, layers):
        from core import Skip
        raise Skip("instance override")
    case.write("base.vspec", gen.file_text(m, (), rng, 0.4))
    case.count("aliases", sum(l.rstrip().split(": ")[-1].startswith("*id0") for l in case.read("base.vspec").splitlines()))
    args = ["-s", "base.vspec", *uargs, "--extend-all-attributes"]
    ovargs = []
    written = []
    for j, ov in enumerate(layers):
        if again is not None and j == len(layers) - 1:
            ovargs += [rng.choice(["-l", "--overlays"]), written[again]]
            case.count("overlay_repeated")
            break
        d, more = "", {}
        if rng.random() < 0.3:
            # in a directory of its own, partly in an included file; the base has another file of that name beside it
            d = f"od{j}/"
            more = {f: a for f, a in ov.items() if rng.random() < 0.5}
            case.write(d + "more.vspec", gen.file_text(more, (), rng) or "# nothing\n")
            case.write("more.vspec", gen.file_text({f: {"description": "decoy"} for f in list(m)[:3]}))
            case.count("overlay_includes")
        case.write(f"{d}o{j}.vspec", gen.file_text({f: a for f, a in ov.items() if f not in more}, [("more.vspec", None)] if d else (), rng))
        written.append(f"{d}o{j}.vspec")
        ovargs += [rng.choice(["-l", "--overlays"]), written[-1]]
    merged = ref.layer([m] + layers)
    case.count("overlays_applied", len(layers))
    case.nontrivial = True
    case.sig = model_sig([m, layers])
    case.note = {"overlays": layers[:2], "base_nodes": len(m)}
    root = ref.resolve([m] + layers)
    errs = ref.tree_errors(root, UNITS)
    r, data = export_yaml(case, *args, *ovargs)
    if errs:
        case.count("rejected_models")
        case.state("rejected", errs[0].split(": ")[-1][:20])
        expect_reject(case, r, "invalid-merge", {"errors": errs[:5]})
        return
    case.count("accepted_models")
    case.state("overlays", len(layers), "nodes", len(merged) // 5)
    if not expect_model(case, r, data, ref.shown(root), "overlay", {"overlays": layers}):
        return
    # nodes no overlay mentions are as without overlays
    r0, base = export_yaml(case, *args, out="base.yaml")
    if case.check(r0.ok, "base:rejected", r0.brief):
        touched = {k for la in layers for k in la}
        inst = any(a.get("instances") for x in (m, merged) for a in x.values())
        if not inst:
            un = {f: a for f, a in base.items() if f not in touched}
            d = diff(un, {f: a for f, a in data.items() if f in un})
            case.check(not d, "untouched-changed", {"diff": d})
    # neutral overlays
    k = rng.random()
    if k < 0.35:
        neutral = rng.choice([{}, {f: copy.deepcopy(m[f]) for f in rng.sample(list(m), min(3, len(m)))},
                              {f: {} for f in rng.sample(list(m), min(2, len(m)))}])
        case.write("neutral.vspec", gen.file_text(neutral) or "# nothing\n")
        r1, _ = export_yaml(case, *args, "-l", "neutral.vspec", out="neutral.yaml")
        if case.check(r1.ok, "neutral:rejected", r1.brief):
            case.check(case.read("neutral.yaml") == case.read("base.yaml"), "neutral-changes", {"neutral": neutral})
            case.count("neutral_overlays")
    elif k < 0.7:
        # the last overlay, one attribute at a time
        parts = [(f, kk, v) for f, a in layers[-1].items() for kk, v in a.items() if f in ref.layer([m] + layers[:-1])]
        rest = {f: a for f, a in layers[-1].items() if f not in ref.layer([m] + layers[:-1])}
        rng.shuffle(parts)
        a2 = list(ovargs[:-2])
        if len(parts) <= 12:
            for j, (f, kk, v) in enumerate(parts):
                case.write(f"p{j}.vspec", gen.file_text({f: {kk: v}}))
                a2 += ["-l", f"p{j}.vspec"]
            if rest:
                case.write("prest.vspec", gen.file_text(rest))
                a2 += ["-l", "prest.vspec"]
            r1, _ = export_yaml(case, *args, *a2, out="parts.yaml")
            if case.check(r1.ok, "parts:rejected", r1.brief):
                case.check(case.read("parts.yaml") == case.read("out.yaml"), "attribute-wise-differs", {"parts": parts})
                case.count("split_overlays")
