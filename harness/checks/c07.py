"""C07: deleting a node removes exactly its subtree."""
import gen
import ref
from common import *
from core import Skip

FOREIGN_SHARE = 0.08
N_QUICK, N_THOROUGH = 1000, 10000
RULE = ("A random model with instances and 1..5 deletion marks on leaves, branches, instance branches, generated instances and their "
        "children, nested marks included, in the base or in overlays, some revoked by a later overlay, some restated with a complete "
        "statement. Oracle: independent expansion and pruning; YAML, JSON and CSV must show exactly the remaining nodes; and the "
        "difference to the model without marks is exactly the marked subtrees. Non-trivial: at least one effective mark.")
NEED = {"effective_marks": 500, "unexpanded_exports": 200, "nodes_removed": 500}


def random_case(case, i):
    rng = case.rng
    o = gen.Opts(hostile=0.1, instances=rng.choice([0, 0.3, 0.6]), max_nodes=rng.choice([8, 15, 25]), extras=0.15)
    m = gen.model(rng, o)
    if rng.random() < 0.1:
        # far below
        f = rng.choice([f for f, a in m.items() if a["type"] == "branch"])
        for j in range(rng.randint(8, 24)):
            f += f".Deep{j}"
            m[f] = {"type": "branch", "description": "d"}
        m[f + ".Leaf"] = gen.decorate(rng, o, gen.leaf_attrs(rng, o))
        case.count("deep_models")
    nodes = ref.flat(ref.resolve([m]))
    if len(nodes) > 900:
        raise Skip("too large")
    rootn = next(iter(m))
    cand = [f for f in set(m) | set(nodes) if f != rootn]
    cand.sort()
    layers = [{} for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    base = {k: dict(v) for k, v in m.items()}
    marks = []
    for _ in range(rng.randint(1, 5)):
        f = rng.choice(cand)
        val = True
        where = rng.randint(-1, len(layers) - 1)
        tgt = base if where < 0 else layers[where]
        tgt.setdefault(f, {})["delete"] = val
        marks.append((f, where))
        if rng.random() < 0.25 and where + 1 < len(layers):
            w2 = rng.randint(where + 1, len(layers) - 1)
            layers[w2].setdefault(f, {})["delete"] = False
        elif rng.random() < 0.3 and where + 1 < len(layers):
            # a later overlay that says nothing about deletion does not revoke it
            layers[-1].setdefault(f, {})["description"] = "described again"
        if rng.random() < 0.3:
            # a complete statement of one instance does not revoke the mark either
            if f in m:
                gens = [g for g in nodes if g not in m and g.rsplit(".", 1)[-1] == f.rsplit(".", 1)[-1] and nodes[g].attrs.get("type") != "branch"
                        and all(nodes[g].attrs.get(k) == m[f].get(k) for k in ("datatype", "type"))]
                if gens:
                    g = rng.choice(gens)
                    base.setdefault(g, {}).update({"type": nodes[g].attrs["type"], "datatype": nodes[g].attrs["datatype"], "description": "one"})
                    if rng.random() < 0.3:
                        base[g]["delete"] = False
    alll = [base] + layers
    root = ref.resolve(alll)
    # everything must be valid before the removal
    full = ref.to_tree(ref.layer(alll))
    ref.expand(full)
    errs = ref.tree_errors(full)
    left = ref.shown(root)
    effective = [f for f, n in full.walk() if n.attrs.get("delete")]
    args = ["-s", "m.vspec", "--extend-all-attributes"]
    case.write("m.vspec", gen.file_text(base, (), rng))
    for j, la in enumerate(layers):
        case.write(f"o{j}.vspec", gen.file_text(la, (), rng))
        args += ["-l", f"o{j}.vspec"]
    case.sig = model_sig(alll)
    case.note = {"marks": marks, "nodes": sum(1 for _ in full.walk()), "left": len(left)}
    case.nontrivial = bool(effective)
    case.count("effective_marks", len(effective))
    case.state("marks", len(effective) if len(effective) < 10 else "10+", "layers", len(layers), "left", len(left) // 10)
    r, data = export_yaml(case, *args)
    if errs:
        case.count("rejected_models")
        expect_reject(case, r, "invalid-marked", {"errors": errs[:3]})
        return
    case.count("nodes_removed", sum(1 for _ in full.walk()) - len(left))
    if not expect_model(case, r, data, left, "deleted", {"marks": marks, "effective": effective}):
        return
    rj = case.export("json", *args, "-o", "out.json")
    if case.check(rj.ok, "json:rejected", rj.brief):
        fl, prob = json_flat(load_json(case.read("out.json")))
        d = diff(left, fl)
        case.check(not d, f"json:{diffkind(d)}", lambda: {"diff": d, "marks": marks})
    rc = case.export("csv", *[a for a in args if a != "--extend-all-attributes"], "-o", "out.csv")
    if case.check(rc.ok, "csv:rejected", rc.brief):
        names = sorted(row[0] for row in read_csv(case.read("out.csv"))[1:])
        case.check(names == sorted(left), "csv:paths", lambda: {"marks": marks, "extra": sorted(set(names) - set(left))[:5], "missing": sorted(set(left) - set(names))[:5]})
    # the same marks without instance expansion
    plain = ref.to_tree(ref.layer(alll))
    if ref.tree_errors(plain):
        return
    rn, dn = export_yaml(case, *args, "--no-expand", out="noexp.yaml")
    case.count("unexpanded_exports")
    pruned = ref.resolve(alll, do_expand=False)
    expect_model(case, rn, dn, ref.shown(pruned, expanded=False), "no-expand-deleted", {"marks": marks})
