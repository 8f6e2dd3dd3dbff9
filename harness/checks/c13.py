"""C13: CSV and tree exports list every node once with its own attributes."""
import ast
import re

import gen
import ref
from common import *
from world import World, uuid5

FOREIGN_SHARE = 0.08
N_QUICK, N_THOROUGH = 1200, 12000
RULE = ("Random models (hostile text with separators, quotes, line breaks and unicode in every column, falsy values, arrays, structs, instances, "
        "overlays) exported as CSV (with and without --uuid, --no-expand, --types-output) and as tree with random --attr lists. Oracle: an RFC 4180 "
        "reader plus the reference model, column by column; parents precede children and subtrees are contiguous. Tree lines are parsed back into depth, "
        "name and attributes. Non-trivial: more than two nodes; distinct by model and options.")
NEED = {"rows_compared": 5000, "tree_nodes": 3000}
HEAD = ["Type", "DataType", "Deprecated", "Unit", "Min", "Max", "Desc", "Comment", "Allowed", "Default"]
KEYS = ["type", "datatype", "deprecation", "unit", "min", "max", "description", "comment", "allowed", "default"]


def cell_ok(cell, v):
    if v is None:
        return cell == ""
    if isinstance(v, (list, dict)):
        if cell == "" and v == []:
            return True
        try:
            return same(ast.literal_eval(cell), v)
        except (ValueError, SyntaxError):
            return False
    return cell == str(v)


def rows_check(case, rows, expected, uuid, inst, first, what):
    """rows without header against {fqn: attrs}."""
    head = [first] + HEAD + (["Id"] if uuid else []) + (["Instances"] if inst else [])
    if not case.check(rows and rows[0] == head, what + "-header", lambda: {"header": rows[:1], "expected": head}):
        return
    return head


def body(case, rows, expected, uuid_of, inst, what):
    names = [r[0] for r in rows]
    case.check(len(set(names)) == len(names), what + "-duplicate-row", lambda: {"names": [n for n in names if names.count(n) > 1][:5]})
    case.check(set(names) == set(expected), what + "-rows", lambda: {"missing": sorted(set(expected) - set(names))[:5], "extra": sorted(set(names) - set(expected))[:5]})
    order(case, names, what)
    for r in rows:
        a = expected.get(r[0])
        if a is None:
            continue
        case.count("rows_compared")
        for i, k in enumerate(KEYS):
            case.check(cell_ok(r[i + 1], a.get(k)), what + "-column-" + k, lambda: {"row": r, "column": k, "expected": a.get(k)})
        j = 11
        if uuid_of is not None:
            case.check(r[j] == uuid_of(r[0]), what + "-uuid", lambda: {"row": r, "expected": uuid_of(r[0])})
            j += 1
        if inst:
            v = a.get("instances")
            case.check(cell_ok(r[j], v) if v else r[j] in ("", "[]"), what + "-instances", lambda: {"row": r, "expected": v})


def order(case, names, what):
    """Depth first: a node follows its parent, inside the parent's contiguous block."""
    stack = []
    for n in names:
        while stack and not n.startswith(stack[-1] + "."):
            stack.pop()
        par = n.rsplit(".", 1)[0] if "." in n else None
        if not case.check((stack[-1] if stack else None) == par, what + "-order", lambda: {"node": n, "below": stack[-3:]}):
            return
        stack.append(n)


TREE = re.compile(r"^((?:\u2502   |    )*)(\u251c\u2500\u2500 |\u2514\u2500\u2500 )(.*)$")


def tree_parse(text, roots, attrs):
    """[(fqn, {attr: text})] read back from the rendering; single-line attribute values only."""
    out = []
    stack = []
    for line in text.split("\n"):
        m = TREE.match(line)
        if m:
            depth, name = len(m.group(1)) // 4 + 1, m.group(3)
            stack = stack[:depth] + [name]
            out.append((".".join(stack), {}))
            continue
        depth0 = re.match(r"^((?:\u2502   |    )*)(.*)$", line)
        body_ = depth0.group(2)
        hit = next((a for a in attrs if body_.startswith(a + "=")), None)
        if hit and out:
            # the attribute block is indented like the children of its node
            if len(depth0.group(1)) // 4 != len(stack) - 1:
                raise ValueError(f"attribute at wrong depth: {line!r}")
            out[-1][1][hit] = body_[len(hit) + 1:]
        elif line in roots:
            stack = [line]
            out.append((line, {}))
        else:
            raise ValueError(f"unexpected line {line!r}")
    return out


def text_value(v):
    return f"'{v}'" if isinstance(v, str) else str(v)


def random_case(case, i):
    rng = case.rng
    tree_mode = i % 3 == 2
    w = World(case, types=0.4, uuid=0.3, extras=0.2 if tree_mode else 0, hostile=0.0 if tree_mode else 0.5, hostile_values=0 if tree_mode else 0.3)
    args = list(w.args)
    case.state("expand", w.expand, "uuid", w.uuid, "types", w.types is not None, "tree", tree_mode)
    case.note = {"args": args, "nodes": len(w.flat)}
    shown = w.shown(None)
    if tree_mode:
        attrs = rng.sample(["description", "datatype", "unit", "min", "max", "default", "comment", "deprecation", "quality", "source"], rng.randint(0, 4))
        r = case.export("tree", *args, *[x for a in attrs for x in ("--attr", a)], "-o", "out.txt")
        if not case.check(r.ok, "tree-rejected", r.brief):
            return
        expected = dict(shown)
        roots = [w.root.name]
        if w.types is not None:
            expected.update(w.types_shown())
            roots.append(next(iter(w.types)).split(".")[0])
        try:
            got = tree_parse(case.read("out.txt"), roots, attrs)
        except ValueError as e:
            case.fail("tree-malformed", {"error": str(e), "text": case.read("out.txt")[:1500]})
            return
        names = [n for n, _ in got]
        case.check(sorted(names) == sorted(expected), "tree-nodes", lambda: {"missing": sorted(set(expected) - set(names))[:5], "extra": sorted(set(names) - set(expected))[:5],
                                                                           "twice": [n for n in names if names.count(n) > 1][:5]})
        order(case, names, "tree")
        for n, a in got:
            case.count("tree_nodes")
            e = {k: text_value(expected[n][k]) for k in attrs if expected.get(n, {}).get(k) is not None and expected[n][k] != []} if n in expected else {}
            case.check(a == e, "tree-attributes", lambda: {"node": n, "expected": e, "got": a})
        return
    types_out = w.types is not None and rng.random() < 0.5
    if types_out:
        args += ["--types-output", "types.csv"]
    r = case.export("csv", *args, "-o", "out.csv")
    if not case.check(r.ok, "csv-rejected", r.brief):
        return
    rows = read_csv(case.read("out.csv"))
    generic = w.types is not None and not types_out
    head = rows_check(case, rows, None, w.uuid, not w.expand, "Node" if generic else "Signal", "csv")
    if head is None:
        return
    case.check(all(len(r) == len(head) for r in rows), "csv-ragged", lambda: {"rows": [r for r in rows if len(r) != len(head)][:3]})
    body1 = [r for r in rows[1:] if len(r) == len(head)]
    if generic:
        cut = next((j for j, r in enumerate(body1) if r[0] not in shown), len(body1))
        tb, body1 = body1[cut:], body1[:cut]
        body(case, tb, w.types_shown(), None, False, "types")
    body(case, body1, shown, uuid5 if w.uuid else None, not w.expand, "csv")
    if types_out:
        rows = read_csv(case.read("types.csv"))
        if rows_check(case, rows, None, w.uuid, not w.expand, "Node", "types"):
            body(case, rows[1:], w.types_shown(), None, False, "types")


def probe_quoting(case):
    nodes = {"V": {"type": "branch", "description": "d"}}
    for j, t in enumerate(gen.HOSTILE + ["a\rb", "a\r\nb", '"', '","', "\n", ";", "a\tb", "=1+1", '"x', 'x"', "', '"]):
        nodes[f"V.S{j}"] = {"type": "attribute", "datatype": "string", "description": t, "comment": t, "deprecation": t, "allowed": [t, "o"], "default": t}
    case.write("m.vspec", gen.file_text(nodes))
    r = case.export("csv", "-s", "m.vspec", "-o", "out.csv")
    if case.check(r.ok, "quoting-rejected", r.brief):
        rows = read_csv(case.read("out.csv"))
        case.check(all(len(x) == 11 for x in rows), "quoting-ragged", {"rows": [x for x in rows if len(x) != 11][:3]})
        body(case, rows[1:], nodes, None, False, "quoting")
    case.sig, case.nontrivial, case.note = "quoting", True, f"{len(nodes)} hostile strings"


def probe_falsy(case):
    nodes = {"V": {"type": "branch", "description": "d"},
             "V.A": {"type": "sensor", "datatype": "int8", "description": "d", "min": 0, "max": 0, "default": 0},
             "V.B": {"type": "sensor", "datatype": "float", "description": "d", "min": 0.0, "max": 0.0, "default": 0.0},
             "V.C": {"type": "sensor", "datatype": "boolean", "description": "d", "default": False},
             "V.D": {"type": "sensor", "datatype": "int8[]", "description": "d", "default": [0, 0]}}
    case.write("m.vspec", gen.file_text(nodes))
    r = case.export("csv", "-s", "m.vspec", "-o", "out.csv")
    if case.check(r.ok, "falsy-rejected", r.brief):
        body(case, read_csv(case.read("out.csv"))[1:], nodes, None, False, "falsy")
    r = case.export("tree", "-s", "m.vspec", "-o", "out.txt", "--attr", "default", "--attr", "min")
    if case.check(r.ok, "falsy-tree-rejected", r.brief):
        got = dict(tree_parse(case.read("out.txt"), ["V"], ["default", "min"]))
        exp = {f: {k: text_value(a[k]) for k in ("default", "min") if k in a} for f, a in nodes.items()}
        case.check(got == exp, "falsy-tree", {"got": got, "expected": exp})
    case.sig, case.nontrivial, case.note = "falsy", True, nodes


PROBES = {"quoting": probe_quoting, "falsy": probe_falsy}
