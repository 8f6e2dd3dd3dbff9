"""C03: instance expansion creates exactly the specified set of instance paths."""
import gen
import ref
from common import *

FOREIGN_SHARE = 0.08
N_QUICK, N_THOROUGH = 1000, 10000
RULE = ("A random model with instance branches (string, list, list of lists, ranges with prefix and suffix, mixtures, numbers, up to three "
        "nested instance levels, children excluded from instantiation, instances on the root). Oracle: independent expansion; the YAML and "
        "JSON exports must contain exactly the expected paths, each with the expected attributes; without expansion exactly the stated "
        "ones plus the instance declaration. Non-trivial: at least one instance branch; distinct by model.")
NEED = {"instance_paths": 1000, "nodes_compared": 5000, "malformed_declarations": 25}


def declaration(rng):
    r = rng.random()
    if r < 0.6:
        return gen.instances(rng)
    if r < 0.7:
        return [rng.randint(1, 3), rng.randint(4, 6)]
    if r < 0.78:
        a = rng.randint(0, 12)
        return f"{rng.choice(['', 'P'])}Row[{a},{a + rng.choice([0, 1, 2, 9])}]{rng.choice(['', 'Z', '_x'])}"
    if r < 0.86:
        ls = rng.sample(gen.LABELS, 4)
        return rng.choice([[ls[0], ls[1], "Row[1,2]"], ["Row[1,2]", ls[0], ls[1]], [[ls[0]], "Row[2,3]", [ls[1], ls[2]]],
                           ["Row[1,1]", ls[0]], [["Row[1,2]", ls[0]], ls[1]], [ls[0], [ls[1], ls[2]], ls[3]]])
    if r < 0.95:
        return [["A", "B"], ["A", "B"], rng.choice([["C"], ["A"], "Pos[1,2]"])]
    return []


def random_case(case, i):
    rng = case.rng
    o = gen.Opts(hostile=0.1, instances=0.0, max_nodes=rng.choice([6, 12, 20]), extras=0.2, max_depth=5, allowed=0.15, default=0.2)
    m = gen.model(rng, o)
    branches = [f for f, a in m.items() if a["type"] == "branch"]
    k = 0
    for f in rng.sample(branches, len(branches)):
        depth = sum(1 for g in branches if (f.startswith(g + ".")) and m[g].get("instances"))
        below = any(m[g].get("instances") for g in branches if g.startswith(f + "."))
        if k >= 3 or depth >= 2 or (depth and below):
            continue
        if f == branches[0] and rng.random() < 0.85:
            continue
        d = declaration(rng)
        kids = [g for g in m if g.startswith(f + ".") and "." not in g[len(f) + 1:]]
        first = {p[0] for p in ref.instance_paths(d)[0]} if d else set()
        if any(g[len(f) + 1:] in first for g in kids):
            continue
        if d and len(ref.instance_paths(d)[0]) > 24:
            continue
        m[f]["instances"] = d
        k += 1
        for g in kids:
            if rng.random() < 0.2:
                m[g]["instantiate"] = False
    root = ref.resolve([m])
    n = sum(1 for _ in root.walk())
    if n > 1500:
        from core import Skip
        raise Skip("too large")
    decl = [a["instances"] for a in m.values() if a.get("instances")]
    case.nontrivial = bool(decl)
    case.sig = model_sig(m)
    case.note = {"instances": decl, "stated": len(m), "expanded": n}
    case.state("decls", len(decl), "growth", min(20, n // max(1, len(m))))
    case.write("m.vspec", gen.file_text(m, (), rng))
    args = ["-s", "m.vspec", "--extend-all-attributes"]
    r, data = export_yaml(case, *args)
    expected = ref.shown(root)
    case.count("instance_paths", max(0, n - len(m)))
    if not expect_model(case, r, data, expected, "expanded", {"instances": decl}):
        return
    rj = case.export("json", *args, "-o", "out.json")
    if case.check(rj.ok, "json:rejected", rj.brief):
        fl, prob = json_flat(load_json(case.read("out.json")))
        d = diff(expected, fl)
        case.check(not prob and not d, f"json:{diffkind(d)}", lambda: {"diff": d, "problems": prob})
        # a flattened document cannot hide a node that appears twice: count the rows, too
    rc = case.export("csv", *args[:2], "-o", "out.csv")
    if case.check(rc.ok, "csv:rejected", rc.brief):
        names = [row[0] for row in read_csv(case.read("out.csv"))[1:]]
        case.check(sorted(names) == sorted(expected), "csv:paths",
                   lambda: {"twice": [x for x in set(names) if names.count(x) > 1][:5], "missing": [x for x in expected if x not in names][:5]})
    # not expanded: as stated
    rn, plain = export_yaml(case, *args, "--no-expand", out="plain.yaml")
    exp2 = ref.shown(ref.resolve([m], do_expand=False), expanded=False)
    expect_model(case, rn, plain, exp2, "no-expand", {"instances": decl})
    if rng.random() < 0.15:
        bad = malformed(rng)
        where = rng.choice([p for p, a in m.items() if a["type"] == "branch"])
        wrong = {p: {**a, "instances": bad} if p == where else a for p, a in m.items()}
        case.write("bad.vspec", gen.file_text(wrong, (), rng))
        rb = case.export("yaml", "-s", "bad.vspec", "-o", "bad.yaml", *rng.choice([[], ["--no-expand"]]), "--extend-all-attributes")
        expect_reject(case, rb, "no-label", {"node": where, "instances": bad}, out="bad.yaml")
        case.count("malformed_declarations")


# entries which are no label: nested too deep, empty, no text, or with the separator of paths
NO_LABELS = [["Left", ["A", ["B"]]], [["Left", ["A", "B"]]], [[["A"]]], [{"a": 1}], ["A", {"a": 1}], [None], ["Left", None],
             [["A", None]], [""], "", ["A", ""], ["A.B"], "A.B", ["A", "B.C"], [["A.B", "C"], "Row[1,2]"], [[], "A"],
             ["Row[1,2]", [], ["L"]], [["A"], []], [1.5], ["A", 2.5], [[1.5]], "Row[1,2].X", [["A", {"B": None}]]]


def malformed(rng):
    """a declaration of several levels with one entry that is no label"""
    levels = [rng.choice([f"R{j}[1,{rng.randint(1, 3)}]", [f"L{j}", f"M{j}"], [f"K{j}"]]) for j in range(rng.randint(1, 3))]
    bad = rng.choice([None, "", "A.B", {"a": 1}, {"A": ["B"]}, ["A", "B"], [], 1.5, "."])
    j = rng.randrange(len(levels))
    if isinstance(levels[j], list):
        levels[j].insert(rng.randint(0, len(levels[j])), bad)
    elif bad == ["A", "B"]:
        levels[j] = [bad]
    else:
        levels[j] = bad if rng.random() < 0.5 else [bad] if bad != [] else bad
    return levels


def _invalid(case, inst, what):
    for j, v in enumerate(inst):
        m = {"V": {"type": "branch", "description": "d"}, "V.B": {"type": "branch", "description": "d", "instances": v},
             "V.B.L": {"type": "sensor", "datatype": "uint8", "description": "d"}}
        case.write("m.vspec", gen.file_text(m))
        r = case.export("yaml", "-s", "m.vspec", "-o", f"o{j}.yaml")
        expect_reject(case, r, what, {"instances": v}, out=f"o{j}.yaml")


def probe_invalid(case):
    _invalid(case, ["Row[3,1]", ["Row[2,1]", ["Left"]], [["A", "Row[9,8]"]]], "descending-range")
    _invalid(case, [5, {"a": 1}, 1.5, True], "instances-type")
    _invalid(case, NO_LABELS, "no-label")
    case.note, case.sig, case.nontrivial = "descending ranges and non-list instances", "inv", True


PROBES = {"invalid-declarations": probe_invalid}
