"""Workload and oracle shared by the checks of the C and the Go binary parser."""
from __future__ import annotations

import json

import binfmt
import gen
from common import load_json
from core import Skip
from world import World, uuid5

TYPES = {"sensor": 1, "actuator": 2, "attribute": 3, "branch": 4, "struct": 5, "property": 6}
VALID = {"": 0, "write-only": 1, "read-write": 2, "write-only+consent": 11, "read-write+consent": 12}
INNER = ("branch", "struct")


# ------------------------------------------------------------------ trees
def rnd_text(rng, n):
    return "".join(rng.choice("abc XYZ09_\u00e9\u65e5\"\\{}") for _ in range(n))


def synthetic(rng, shape):
    """A tree in the documented format that stresses one dimension."""
    def leaf(name, t=None):
        n = {"name": name, "type": t or rng.choice(["sensor", "actuator", "attribute"]), "uuid": "", "description": rnd_text(rng, rng.randint(0, 12)),
             "datatype": rng.choice(["uint8", "string", "float[]", "boolean", "Types.A.S"]), "min": "", "max": "", "unit": "", "allowed": [], "default": "",
             "validate": "", "children": []}
        if rng.random() < 0.3:
            n["min"], n["max"] = str(rng.randint(-99, 0)), str(rng.randint(0, 99))
        if rng.random() < 0.3:
            n["unit"] = rng.choice(["km", "percent", "m/s"])
        if rng.random() < 0.4:
            n["allowed"] = [rnd_text(rng, rng.randint(0, 9)) for _ in range(rng.randint(1, 6))]
        if rng.random() < 0.3:
            n["default"] = rnd_text(rng, rng.randint(1, 9))
        if rng.random() < 0.3:
            n["validate"] = rng.choice(list(VALID))
        return n

    def branch(name, kids=()):
        n = {f: "" for f in binfmt.FIELDS}
        n.update(name=name, type="branch", description=rnd_text(rng, rng.randint(0, 12)), allowed=[], children=list(kids))
        if rng.random() < 0.2:
            n["validate"] = rng.choice(list(VALID))
        return n

    pool = ["A", "B", "C", "AB", "Door", "DoorX", "Row1", "Row2", "IsOpen", "X"]
    if shape == "deep":
        d = rng.choice([15, 19, 20, 21, 22, 30, 60, 85])
        long_names = rng.random() < 0.2
        n = leaf("L")
        for i in range(d):
            nm = "N" * rng.choice([1, 40, 200]) if long_names else rng.choice("ABC")
            kids = [n]
            if rng.random() < 0.3:
                kids.insert(rng.randint(0, 1), leaf("S%d" % i))
            n = branch(nm, kids)
        return branch("V", [n, leaf("Z")])
    if shape == "limit":
        # paths of about the longest the parser holds (511 characters)
        def chain(total, end):
            left, names = total - 1, []
            while left > 0:
                k = min(rng.choice([60, 100, 200, 254]), left - 1)
                if left - 1 - k == 1:
                    k -= 1
                names.append(end + "N" * (k - 1))
                left -= k + 1
            n = leaf(names.pop()) if rng.random() < 0.7 else branch(names.pop())
            while names:
                n = branch(names.pop(), [n, leaf("Q")])
            return n
        return branch("V", [chain(rng.choice([509, 510, 511, 512, 513, 514]), e) for e in rng.sample("ABC", rng.randint(1, 3))] + [leaf("Z")])
    if shape == "wide":
        k = rng.choice([250, 254, 255])
        names = ["K%d" % i for i in range(k)]
        kids = [leaf(x) for x in names]
        if rng.random() < 0.5:
            kids[rng.randrange(k)] = branch("Inner", [leaf("K%d" % j) for j in range(rng.choice([3, 255]))])
        return branch("V", kids)
    if shape == "many":
        # more nodes than a search returns
        n = rng.choice([1480, 1499, 1500, 1501, 1600])
        return branch("V", [branch("B%d" % b, [leaf("K%d" % j) for j in range(b, n, 7)]) for b in range(7)])
    if shape == "sizes":
        kids = []
        a = leaf("A")
        a["allowed"] = [rnd_text(rng, 80)[:80] if rng.random() < 0.5 else "x" * rng.choice([0, 1, 61, 62, 63, 64, 65, 127, 128, 200, 255]) for _ in range(rng.choice([1, 3, 20]))]
        a["allowed"] = [x.encode()[:255].decode("utf-8", "ignore") for x in a["allowed"]]
        kids.append(a)
        b = leaf("B")
        b["allowed"] = ["%d" % j for j in range(rng.choice([100, 254, 255, 256, 257, 300, 512, 700]))]
        kids.append(b)
        c = leaf("N" * rng.choice([98, 99, 100, 101, 200, 254, 255]))
        kids.append(c)
        d = leaf("D")
        d["description"] = "y" * rng.choice([0, 255, 256, 257, 1000, 40000, 65535])
        for f in ("datatype", "min", "max", "unit", "default"):
            d[f] = "z" * rng.choice([0, 1, 127, 128, 255])
        kids.append(d)
        e = leaf("E")
        e["validate"] = rng.choice(list(VALID))
        kids.append(e)
        rng.shuffle(kids)
        return branch("V", [branch("Sub", kids), leaf("Z"), branch("Empty")])
    if shape == "types":
        st = branch("S", [leaf("P%d" % i, "property") for i in range(rng.randint(1, 4))])
        st["type"] = "struct"
        return branch("Types", [branch("N", [st, branch("Inner", [])])])

    def rec(d):
        kids = []
        for nm in rng.sample(pool, rng.randint(1, 5)):
            kids.append(branch(nm, rec(d + 1) if rng.random() < 0.92 else []) if rng.random() < (0.6 if d < 4 else 0) else leaf(nm))
        return kids
    root = branch("V", rec(0))
    if rng.random() < 0.4:
        for f, n in binfmt.walk(root):
            n["uuid"] = uuid5(f)
    return root


def make(case, i):
    """A binary file the exporter produced (or one like it); returns the encoded tree and its bytes."""
    rng = case.rng
    shape = ["export", "plain", "deep", "plain", "sizes", "plain", "wide", "limit" if i % 20 == 7 else "many" if i % 40 == 17 else "plain", "types", "export"][i % 10]
    case.state("shape", shape)
    if shape == "export":
        w = World(case, types=0, expand=True, uuid=0.4, validate=rng.choice([0, 0.4]), hostile=0.4, hostile_values=0.35, overlays=0.1)
        r = case.export("binary", *w.args, "-e", "validate", "-o", "in.bin")
        if not r.ok:
            raise Skip("export refused (decided by C15)")
        data = open(case.path("in.bin"), "rb").read()
        try:
            tree = binfmt.decode(data)
        except binfmt.Malformed as e:
            raise Skip(f"malformed (decided by C15): {e}")
        return tree, data
    tree = synthetic(rng, shape)
    data = binfmt.encode(tree)
    assert binfmt.decode(data) == tree
    with open(case.path("in.bin"), "wb") as f:
        f.write(data)
    return tree, data


# ------------------------------------------------------------------ search
def combine(a, b):
    return max(a % 10, b % 10) + (10 if a >= 10 or b >= 10 else 0)


def search(root, path, any_depth, leaf_only, noscope=()):
    """([paths in tree order], highest access control) or (None, None) where the documentation leaves the result open."""
    segs = path.split(".")
    k = len(segs)
    if "" in segs or k > 90 or (any(ord(c) < 33 or ord(c) > 126 for c in path)):
        return None, None
    wild = [j for j, s in enumerate(segs) if s == "*"]
    first = wild[0] if wild else k
    tail_open = any_depth and segs[-1] == "*"
    out = []
    val = 0

    def seg_ok(n, d):
        if d < k:
            return segs[d] == "*" or segs[d] == n["name"]
        return tail_open

    def rec(n, d, prefix):
        """True if a complete match lies at or below n (at depth d, 0-based)."""
        nonlocal val
        f = prefix + n["name"]
        if len(f.encode()) > 511:
            raise OverflowError
        if not seg_ok(n, d):
            return False
        val = combine(VALID[n["validate"]], val)
        inner = n["type"] in INNER
        mark = len(out)
        if leaf_only:
            if not inner and d + 1 >= k:
                out.append(f)
        else:
            out.append(f)
        complete = d + 1 == k if not any_depth else (not n["children"] and d + 1 >= k)
        if f in noscope or (not any_depth and d + 1 == k):
            return complete
        for c in n["children"]:
            complete = rec(c, d + 1, f + ".") or complete
        if not leaf_only and d >= first and not complete:
            del out[mark:]
        return complete
    if not leaf_only:
        if noscope or (any_depth and wild and wild != [k - 1]):
            return None, None
    try:
        rec(root, 0, "")
    except OverflowError:
        return None, None
    return out, (val if not wild or wild == [k - 1] else None)


def paths(rng, names, tree_paths, leaves):
    """One search path, from well-aimed to hostile."""
    r = rng.random()
    p = rng.choice(tree_paths)
    segs = p.split(".")
    if r < 0.12:
        return rng.choice(leaves) if leaves else p
    if r < 0.2:
        return p
    if r < 0.32:
        return p + "." + rng.choice(["*", "*.*", "*.IsOpen", "X", "*.X", "*.*.*"])
    if r < 0.62:
        for _ in range(rng.randint(1, 3)):
            segs[rng.randrange(len(segs))] = "*"
        if rng.random() < 0.3:
            segs = segs[:rng.randint(1, len(segs))]
        if rng.random() < 0.25:
            segs.append(rng.choice(names + ["*"]))
        return ".".join(segs)
    if r < 0.72:
        segs[rng.randrange(len(segs))] = rng.choice(names)
        return ".".join(segs)
    if r < 0.76:
        return p[:rng.randint(1, len(p))]
    if r < 0.8:
        return p + rng.choice("xX1*")
    if r < 0.84:
        return ".".join(["*"] * rng.randint(1, 89))
    if r < 0.87:
        return (leaves and rng.choice(leaves) or p) + ".*"
    return rng.choice(["", ".", "..", "*", "*.", ".*", "." + p, p + ".", p.replace(".", ".."), "*" * 50, "N" * 99, "N" * 100, "N" * 101, segs[0] + "." + "N" * 300,
                       segs[0] + "." + "n" * 600, ".".join(["*"] * 150), ".".join([segs[0]] + ["*"] * 99), ".".join(["*"] * 120 + ["X"]), "A B", "caf\u00e9", "*.\u65e5", "V.*" + ".A" * 200,
                       "x" * 511, "x" * 512, "*." * 300])


def program(case, tree):
    """Random operation sequence: [(op, params)]."""
    rng = case.rng
    nodes = list(binfmt.walk(tree))
    idx = {id(n): j for j, (_, n) in enumerate(nodes)}
    names = sorted({n["name"] for _, n in nodes})
    inner = [j for j, (_, n) in enumerate(nodes) if n["children"]]
    ops = [("R", {}), ("D", {})]
    total = len(nodes)
    for j in range(rng.randint(8, 30)):
        r = rng.random()
        if r < 0.8:
            start = 0 if rng.random() < 0.8 or not inner else rng.choice(inner)
            sub = list(binfmt.walk(nodes[start][1]))
            p = paths(rng, names, [f for f, _ in sub], [f for f, n in sub if n["type"] not in INNER])
            any_, leaf = rng.random() < 0.6, rng.random() < 0.65
            ns = []
            if rng.random() < 0.15:
                ns = [rng.choice(sub)[0] for _ in range(rng.randint(1, 3))]
                ns = [x for x in ns if len(x.encode()) < 512]
            mx = rng.choice([1500, total + 5, total + 5, max(1, total // 2), rng.randint(1, 6), 1])
            ops.append(("S", {"root": start, "path": p, "any": any_, "leaf": leaf, "max": mx, "ns": ns}))
        elif r < 0.87:
            ops.append(("L", {"root": rng.choice([0, 0] + inner[:3])}))
        elif r < 0.94:
            ops.append(("U", {"root": rng.choice([0, 0] + inner[:3])}))
        elif r < 0.98:
            ops.append(("W", {"root": rng.choice([0, 0, 0] + inner[:3])}))
        else:
            ops += [("R", {}), ("D", {})]
    ops.append(("W", {"root": 0}))
    return ops, nodes


def script(case, ops):
    """Command file of the drivers; every written file is used again by later operations of its kind."""
    out = []
    for j, (o, p) in enumerate(ops):
        def h(s):
            return s.encode("utf-8", "surrogateescape").hex()
        if o == "R":
            out.append("R " + h("in.bin"))
        elif o == "D":
            out.append("D")
        elif o == "S":
            out.append(" ".join(["S", str(p["root"]), str(int(p["any"])), str(int(p["leaf"])), str(p["max"]), str(len(p["ns"])), "x" + h(p["path"])] + ["x" + h(x) for x in p["ns"]]))
        else:
            # "again": a file with previous (longer) content
            p["file"] = f"o{j}" if case.rng.random() < 0.5 else f"again{o}"
            out.append(f"{o} {p['root']} {h(p['file'])}")
            if p["file"].startswith("again"):
                p["file"] = None  # read only when it is the last of its kind
                p["again"] = f"again{o}"
    last = {}
    for o, p in ops:
        if p.get("again"):
            last[p["again"]] = p
    for f, p in last.items():
        p["file"] = f
        case.write(f, "previous content\n" * 5000)
    case.write("script", "\n".join(out) + "\n")


# ------------------------------------------------------------------ judging
def parse(text):
    """Driver output -> [(op, [lines])] and whether it ran to the end."""
    ops, end = [], False
    for line in text.split("\n"):
        if line.startswith("OP "):
            ops.append((line[3:], []))
        elif line == "END":
            end = True
        elif line:
            ops[-1][1].append(line.split(" "))
    return ops, end


def unhex(s):
    return None if s == "-" else bytes.fromhex(s[1:]).decode("utf-8", "surrogateescape")


def judge(case, ops, nodes, tree, data, text, what):
    got, end = parse(text)
    case.check(end and [o for o, _ in got] == [o for o, _ in ops], what + "-incomplete", lambda: {"ran": len(got), "of": len(ops), "last": got[-1:] and got[-1][0],
                                                                                        "op": repr(ops[len(got) - 1])[:600] if got else None})
    subs = {}
    for j, (o, lines) in enumerate(got[:len(ops)]):
        if o != ops[j][0]:
            return
        p = ops[j][1]
        ctx = {k: v for k, v in p.items()}
        case.count("op_" + o)
        panic = [x for x in lines if x[0] == "PANIC"]
        if panic:
            case.fail(what + "-panic", {"op": o, "params": repr(ctx)[:800], "panic": unhex(panic[0][1])})
            continue
        if o == "D":
            dump(case, lines, nodes, what)
            continue
        if o in "RW":
            if o == "W" and p.get("file"):
                b = open(case.path(p["file"]), "rb").read() if case.exists(p["file"]) else b""
                exp = data if p["root"] == 0 else binfmt.encode(nodes[p["root"]][1])
                if b != exp:
                    at = next((k for k in range(min(len(b), len(exp))) if b[k] != exp[k]), min(len(b), len(exp)))
                    case.fail(what + "-written", {"root": p["root"], "at": at, "got": b[max(0, at - 40):at + 40].hex(), "expected": exp[max(0, at - 40):at + 40].hex(),
                                                  "sizes": [len(b), len(exp)]})
                else:
                    case.count("files_compared")
            continue
        if end is False and j == len(got) - 1:
            return
        start = p["root"]
        if start not in subs:
            subs[start] = list(binfmt.walk(nodes[start][1]))
        sub = subs[start]
        fits = all(len(f.encode()) < 512 for f, _ in sub)
        leaves = [f for f, n in sub if n["type"] not in INNER]
        if o in "LU":
            if not fits:
                continue
            case.check(lines and lines[0] == ["F", str(len(leaves))], what + "-list-count", lambda: {"op": o, "got": lines, "leaves": len(leaves)})
            if not p.get("file"):
                continue
            try:
                doc = load_json(open(case.path(p["file"]), encoding="utf-8").read())
            except (ValueError, OSError) as e:
                case.fail(what + ("-leaf-list" if o == "L" else "-uuid-list"), {"error": str(e), "text": case.read(p["file"])[:600] if case.exists(p["file"]) else None})
                continue
            uu = {f: n["uuid"] for f, n in sub}
            exp = {"leafpaths": leaves} if o == "L" else {"leafuuids": [{"path": f, "uuid": uu[f]} for f in leaves]}
            case.check(doc == exp, what + ("-leaf-list" if o == "L" else "-uuid-list"), lambda: {"expected": json.dumps(exp)[:600], "got": json.dumps(doc)[:600]})
            case.count("lists_compared")
            continue
        # search
        found, val = int(lines[0][1]), int(lines[0][2])
        ms = [(unhex(x[1]), unhex(x[2]), int(x[3])) for x in lines[1:]]
        case.check(0 <= found <= p["max"] and found == len(ms), what + "-found-count", lambda: {"found": found, **ctx})
        flat = {f: k for k, (f, _) in enumerate(sub)}
        for f, name, k in ms:
            # every reported match is a node of the tree, under its own path
            real = f in flat and k == start + flat[f] and name == f.rsplit(".", 1)[-1]
            case.check(real, what + "-match-unreal", lambda: {"match": [f, name, k], **ctx})
        names = [f for f, _, _ in ms]
        case.check(len(set(names)) == len(names), what + "-match-twice", lambda: {"matches": names[:30], **ctx})
        if p["leaf"]:
            lv = set(leaves)
            case.check(all(f in lv for f in names), what + "-match-no-leaf", lambda: {"matches": names[:30], **ctx})
        exp, ev = search(nodes[start][1], p["path"], p["any"], p["leaf"], p["ns"])
        if exp is None:
            case.count("searches_safety_only")
            continue
        full = len(exp) <= p["max"]
        if full or p["leaf"]:
            case.count("searches_compared")
            case.count("matches_compared", len(exp))
            case.check(names == exp[:p["max"]], what + ("-search-leaves" if p["leaf"] else "-search-nodes"),
                       lambda: {"expected": exp[:20], "got": names[:20], "counts": [len(exp), len(names)], **ctx})
            case.state("search", p["any"], p["leaf"], bool(p["ns"]), full, "*" in p["path"], bool(exp))
        if full and ev is not None and exp and not p["ns"] and len(exp) < p["max"]:
            case.check(val == ev, what + "-validation", lambda: {"expected": ev, "got": val, **ctx})


def dump(case, lines, nodes, what):
    if not case.check(len(lines) == len(nodes), what + "-tree-size", lambda: {"got": len(lines), "expected": len(nodes), "first": lines[:3]}):
        return
    for k, (x, (f, n)) in enumerate(zip(lines, nodes)):
        inner = n["type"] in INNER
        case.count("nodes_compared")

        def opt(s, v):
            s = unhex(s)
            return (s in (None, "")) if inner or v == "" else s == v
        na = int(x[11])
        ok = (x[0] == "N" and int(x[1]) == k and int(x[2]) == f.count(".") and int(x[3]) == TYPES[n["type"]] and int(x[4]) == len(n["children"]) and
              int(x[5]) == VALID[n["validate"]] and unhex(x[6]) == n["name"] and unhex(x[7]) == n["uuid"] and unhex(x[8]) == n["description"] and
              opt(x[9], n["datatype"]) and opt(x[10], n["unit"]) and (inner and na == 0 or [unhex(y) for y in x[12:12 + na]] == n["allowed"]) and x[-1] == "P")
        case.check(ok, what + "-tree-node", lambda: {"node": f, "expected": {a: str(b)[:200] for a, b in n.items() if a != "children"}, "children": len(n["children"]), "got": [y[:200] for y in x[:40]]})
