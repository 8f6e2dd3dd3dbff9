"""C04: an override of one expanded instance changes that instance only."""
import gen
import ref
from common import *
from core import Skip

FOREIGN_SHARE = 0.08
N_QUICK, N_THOROUGH = 1000, 10000
RULE = ("A random model with (nested) instance branches and 1..6 statements on expanded instance paths, placed in the base, in an include "
        "or in overlays: partial and complete statements on leaves, attributes taken back with null or an empty list, on instance branches at every level, new leaves and new branches below "
        "one instance. Oracle: independent expansion with precedence of the instance statements; differential: removing one statement may "
        "change nothing outside its instance. Non-trivial: at least one statement names a generated path.")
NEED = {"instance_statements": 800, "nodes_compared": 5000, "isolation_comparisons": 100, "default_statements": 100, "taken_back": 100, "mapping_statements": 20}


def partial(rng, m):
    """Nodes of the model with only some of its instance branches expanded; what stays unexpanded may have statements below it."""
    some = {f: ({k: v for k, v in a.items() if k != "instances"} if a.get("instances") and rng.random() < 0.5 else a) for f, a in m.items()}
    return ref.flat(ref.resolve([some]))


def random_case(case, i):
    rng = case.rng
    o = gen.Opts(hostile=0.1, instances=0.7, max_nodes=rng.choice([8, 14, 20]), extras=0.2, allowed=0.2, default=0.2, deprecation=0.2)
    nested = rng.random() < 0.4
    for _ in range(16):
        m = gen.model(rng, o)
        inst = [f for f, a in m.items() if a.get("instances")]
        if any(f.startswith(g + ".") for f in inst for g in inst) if nested else inst:
            break
    else:
        raise Skip("no instances")
    for a in m.values():
        if "datatype" in a and rng.random() < 0.15:
            a[rng.choice(o.extra_names)] = {"k": rng.randint(0, 3), "deep": {"a": 1, "b": [2], "c": {}}}
    root = ref.resolve([m])
    nodes = ref.flat(root)
    if len(nodes) > 800:
        raise Skip("too large")
    gens = [f for f in nodes if f not in m]
    if not gens:
        raise Skip("nothing generated")
    nover = rng.randint(1, 6)
    semi = [f for f in partial(rng, m).items() if f[0] not in nodes and f[0] not in m] if rng.random() < 0.6 else []
    nodes = {**nodes, **dict(semi)}
    if semi:
        # statements on paths of partly expanded models meet those on completely expanded ones
        case.count("partial_paths")
        gens = [f for f, _ in semi] * rng.randint(1, 4) + gens
    layers = [{} for _ in range(rng.choice([1, 1, 2, 3]))]
    stated = []
    for _ in range(nover):
        f = rng.choice(gens)
        n = nodes[f]
        la = rng.choice(layers)
        r = rng.random()
        if n.attrs["type"] == "branch" and r < 0.35:
            e = {"description": gen.text(rng, 0.2)}
            if rng.random() < 0.6:
                e["type"] = "branch"
            if rng.random() < 0.3:
                e["quality"] = rng.randint(0, 9)
            la.setdefault(f, {}).update(e)
        elif n.attrs["type"] == "branch" and r < 0.7:
            nm = f"{f}.New{rng.randint(1, 3)}"
            la[nm] = gen.decorate(rng, o, gen.leaf_attrs(rng, o))
            if rng.random() < 0.15:
                la[nm]["instantiate"] = rng.random() < 0.3
            f = nm
        elif n.attrs["type"] == "branch":
            nm = f"{f}.NewB{rng.randint(1, 3)}"
            la[nm] = gen.decorate(rng, o, {"type": "branch"})
            la[nm + ".In"] = gen.decorate(rng, o, gen.leaf_attrs(rng, o))
            f = nm
        else:
            base = n.attrs["datatype"].replace("[]", "")
            if rng.random() < 0.25 and base in ref.SCALARS:
                # a default that has to suit what the instance inherits
                one = (lambda: rng.choice(n.attrs["allowed"])) if n.attrs.get("allowed") else (lambda: gen.value(rng, base))
                size = max(0, (n.attrs.get("arraysize") or 2) + (rng.choice([-1, 1]) if rng.random() < 0.3 else 0))
                e = {"default": [one() for _ in range(size)] if n.attrs["datatype"].endswith("[]") else one() if rng.random() < 0.95 else "no such value"}
                if e["default"] == []:
                    e["default"] = [one()]
                if rng.random() < 0.4:
                    e.update(type=n.attrs["type"], datatype=n.attrs["datatype"], description="complete")
                case.count("default_statements")
            elif rng.random() < 0.5:
                e = {"description": gen.text(rng, 0.2)}
                if rng.random() < 0.4:
                    e["comment"] = "only here"
                if rng.random() < 0.4:
                    e["source"] = rng.choice([0, False, "s", {"k": 1}])
                for k, v in n.attrs.items():
                    # part of a mapping
                    if isinstance(v, dict) and rng.random() < 0.8:
                        e[k] = {x: {"b": 5} if isinstance(y, dict) else 7 for x, y in v.items() if rng.random() < 0.5}
                        if rng.random() < 0.5:
                            e[k]["only"] = {"here": 1}
                        case.count("mapping_statements")
                if rng.random() < 0.3 and n.attrs["datatype"] in ref.INT_RANGE and "allowed" not in n.attrs:
                    e["max"] = 100
                # taken back for this instance
                for k in n.attrs:
                    if k not in e and k not in ("instantiate", "delete") and rng.random() < (0.3 if k not in ("type", "datatype", "description") else 0.02):
                        e[k] = [] if k in ("allowed", "fka") and rng.random() < 0.5 else None
                        case.count("taken_back")
            else:
                # a complete statement with other constraints
                e = {k: v for k, v in n.attrs.items() if k in ("type", "datatype")}
                e["description"] = "complete"
                if rng.random() < 0.5:
                    e["type"] = rng.choice(gen.LEAF_TYPES)
                if rng.random() < 0.3:
                    e["deprecation"] = "v1"
            la.setdefault(f, {}).update(e)
        stated.append(f)
    # statements inside the base file or as overlays
    base_over = layers.pop() if rng.random() < 0.4 else {}
    base = dict(m)
    for k, v in base_over.items():
        base[k] = v
    if rng.random() < 0.3:
        items = list(base.items())
        rng.shuffle(items)
        base = dict(items)
    alll = [base] + layers
    root2 = ref.resolve(alll)
    errs = ref.tree_errors(root2)
    case.write("m.vspec", gen.file_text(base, (), rng))
    args = ["-s", "m.vspec", "--extend-all-attributes"]
    for j, la in enumerate(layers):
        case.write(f"o{j}.vspec", gen.file_text(la, (), rng))
        args += ["-l", f"o{j}.vspec"]
    case.count("instance_statements", len(stated))
    case.sig = model_sig([alll])
    case.nontrivial = True
    case.note = {"stated": stated, "instances": [a["instances"] for a in m.values() if a.get("instances")]}
    case.state("layers", len(layers), "in-base", bool(base_over), "depth", max(f.count(".") for f in stated), "stmts", len(stated))
    r, data = export_yaml(case, *args)
    if errs:
        case.count("rejected_models")
        expect_reject(case, r, "invalid-override", {"errors": errs[:5]})
        return
    if not expect_model(case, r, data, ref.shown(root2), "override", {"stated": stated, "layers": alll[1:], "base": base_over}):
        return
    # isolation: without the statements, everything outside the stated paths is the same
    case.write("plain.vspec", gen.file_text(m, (), rng))
    r0, plain = export_yaml(case, "-s", "plain.vspec", "--extend-all-attributes", out="plain.yaml")
    wide = {f for f, _ in semi} & {f[:k] for f in stated for k in range(len(f) + 1)}
    if case.check(r0.ok, "plain:rejected", r0.brief) and not wide:
        # a statement on a not yet expanded inner instance branch reaches what is copied from it
        exact = set(stated)
        outside = {f: a for f, a in plain.items() if not any(f == s or f.startswith(s + ".") for s in exact)}
        d = diff(outside, {f: a for f, a in data.items() if f in outside})
        # an instance branch's own attributes are copied to the instances below it (nested instances): allowed by the reference
        case.count("isolation_comparisons")
        case.check(not d, f"isolation:{diffkind(d)}", lambda: {"diff": d, "stated": stated})
    # not expanded: the combination of stated paths
    plainroot = ref.resolve(alll, do_expand=False)
    errs = ref.tree_errors(plainroot)
    rn, dn = export_yaml(case, *args, "--no-expand", out="noexp.yaml")
    if errs:
        expect_reject(case, rn, "no-expand-incomplete", {"errors": errs[:3]}, out="noexp.yaml")
    else:
        expect_model(case, rn, dn, ref.shown(plainroot, expanded=False), "no-expand", {"stated": stated})
