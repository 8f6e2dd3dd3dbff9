"""C15: the binary export decodes to the same tree."""
import binfmt
import gen
from common import *
from world import World, uuid5

FOREIGN_SHARE = 0.08
TECHNIQUE = "runtime monitoring: independent decoder and reference model over recorded exports"
N_QUICK, N_THOROUGH = 900, 9000
RULE = ("Random models (hostile and non-ASCII text, falsy values, arrays, value lists of every datatype, access control markings, instances, overlays) "
        "exported to binary with and without --uuid and -e validate; an independent decoder of the documented layout must consume every byte and yield "
        "the reference tree field by field, siblings in the order of the CSV export. Capacity cases put one field at, just below and above the capacity "
        "of its length field, counted in bytes: up to it the file must decode to the value, above it the export must fail without output. "
        "Non-trivial: more than two nodes; distinct by model and options.")
NEED = {"nodes_decoded": 5000, "capacity_accepted": 30, "capacity_rejected": 30}


def decode(case, name, what, ctx=None):
    data = open(case.path(name), "rb").read()
    try:
        return binfmt.decode(data)
    except binfmt.Malformed as e:
        case.fail(what + "-malformed", {"error": str(e), "hex": data[:400].hex(), "ctx": ctx})


def compare(case, tree, flat, uuid, what):
    got = list(binfmt.walk(tree))
    names = [f for f, _ in got]
    case.check(len(set(names)) == len(names), what + "-duplicate", lambda: {"names": names[:50]})
    case.check(set(names) == set(flat), what + "-nodes", lambda: {"missing": sorted(set(flat) - set(names))[:5], "extra": sorted(set(names) - set(flat))[:5]})
    for f, n in got:
        if f not in flat:
            continue
        case.count("nodes_decoded")
        exp = binfmt.expected(flat[f], f.rsplit(".", 1)[-1], uuid5(f) if uuid else "")
        for k, v in exp.items():
            case.check(n[k] == v, what + "-" + k, lambda: {"node": f, "field": k, "expected": v, "got": n[k]})


def random_case(case, i):
    rng = case.rng
    if i % 5 == 0:
        return capacity(case)
    w = World(case, types=0, expand=True, uuid=0.4, validate=rng.choice([0, 0.4]), hostile=0.4, hostile_values=0.35)
    args = list(w.args)
    ext = rng.random() < 0.7
    if ext:
        args += ["-e", "validate"]
    case.state("uuid", w.uuid, "ext", ext)
    case.note = {"args": args, "nodes": len(w.flat)}
    r = case.export("binary", *args, "-o", "out.bin")
    if not case.check(r.ok, "rejected", r.brief):
        return
    t = decode(case, "out.bin", "binary")
    if t is None:
        return
    # data of nodes is shown whether or not its attribute is whitelisted, as in every exporter's warning-only mode
    flat = {f: dict(n.attrs) for f, n in w.flat.items()}
    if not ext:
        for f, n in binfmt.walk(t):
            if f in flat and n["validate"] == "":
                flat[f].pop("validate", None)
    compare(case, t, flat, w.uuid, "binary")
    if i % 4 == 1:
        r = case.export("csv", *[a for a in args if a not in ("-e", "validate")], "-o", "out.csv")
        if case.check(r.ok, "csv-rejected", r.brief):
            names = [x[0] for x in read_csv(case.read("out.csv"))[1:]]
            got = [f for f, _ in binfmt.walk(t)]
            case.check(names == got, "binary-order", lambda: {"csv": names[:40], "binary": got[:40]})
            case.count("orders_compared")


def sized(rng, n, ascii_only=False):
    """Text of exactly n bytes."""
    if ascii_only or rng.random() < 0.5:
        return "x" * n
    u = rng.choice(["\u00e9", "\u65e5", "\U0001f697"])
    k = len(u.encode())
    m = rng.randint(1, max(1, n // k)) if n >= k else 0
    return u * m + "x" * (n - m * k)


def capacity(case):
    rng = case.rng
    field = rng.choice(["description", "default", "allowed-one", "allowed-all", "children", "name", "default-list", "min"])
    leaf = {"type": "sensor", "datatype": "string", "description": "d"}
    nodes = {"V": {"type": "branch", "description": "d"}}
    delta = rng.choice([-1, 0, 0, 1, 1, 2, 256])
    ok = delta <= 0
    name = "S"
    if field == "description":
        leaf["description"] = sized(rng, 65535 + delta)
    elif field == "default":
        leaf["default"] = sized(rng, 255 + delta)
    elif field == "allowed-one":
        leaf["allowed"] = ["A", sized(rng, 255 + delta), "B"]
    elif field == "allowed-all":
        # 655 elements of 98 + 2 bytes, the last one fills up
        leaf["allowed"] = [f"{j:04d}" + "x" * 94 for j in range(655)] + [sized(rng, 35 - 2 + delta if delta < 250 else 200)]
    elif field == "children":
        delta = rng.choice([-1, 0, 1, 45])
        ok = delta <= 0
        for j in range(255 + delta - 1):
            nodes[f"V.N{j}"] = {"type": "sensor", "datatype": "uint8", "description": "d"}
    elif field == "name":
        name = "N" * (255 + delta)
    elif field == "default-list":
        # text form of a list with one element of n bytes: n + 4
        leaf.update(datatype="string[]", default=["x" * (251 + delta)])
    elif field == "min":
        delta = 0
        ok = True
        leaf.update(datatype="double", min=float("-1.7976931348623157e+308"), max=5e-324)
    nodes["V." + name] = leaf
    for j in range(rng.randint(0, 2)):
        nodes[f"V.Z{j}"] = {"type": "attribute", "datatype": "string", "description": "after"}
        if field == "children":
            del nodes[f"V.N{j}"]
    case.write("m.vspec", gen.file_text(nodes, (), rng))
    old = rng.random() < 0.5
    if old:
        case.write("out.bin", "previous")
    case.state("capacity", field, delta)
    case.sig, case.nontrivial = model_sig([nodes]), True
    case.note = {"capacity": field, "delta": delta}
    r = case.export("binary", "-s", "m.vspec", "-o", "out.bin")
    if ok:
        case.count("capacity_accepted")
        if case.check(r.ok, f"capacity-{field}-rejected", lambda: {"delta": delta, **r.brief()}):
            t = decode(case, "out.bin", f"capacity-{field}")
            if t is not None:
                compare(case, t, nodes, False, f"capacity-{field}")
        return
    case.count("capacity_rejected")
    if not case.check(r.code != 0, f"capacity-{field}-accepted", lambda: {"delta": delta}):
        return
    left = case.read("out.bin") if case.exists("out.bin") else None
    case.check(left == ("previous" if old else None), f"capacity-{field}-output", lambda: {"delta": delta, "left": (left or "")[:200]})


def probe_texts(case):
    nodes = {"V": {"type": "branch", "description": "d"}}
    for j, t in enumerate(gen.HOSTILE):
        nodes[f"V.S{j}"] = {"type": "attribute", "datatype": "string", "description": t, "allowed": [t, "o"], "default": t}
    case.write("m.vspec", gen.file_text(nodes))
    r = case.export("binary", "-s", "m.vspec", "-o", "out.bin", "--uuid")
    if case.check(r.ok, "texts-rejected", r.brief):
        t = decode(case, "out.bin", "texts")
        if t is not None:
            compare(case, t, nodes, True, "texts")
    case.sig, case.nontrivial, case.note = "texts", True, f"{len(nodes)} hostile strings"


def probe_values(case):
    nodes = {"V": {"type": "branch", "description": "d", "validate": "read-write"}}
    for j, (dt, vs) in enumerate([("int8", [0, -128, 127]), ("uint64", [2**64 - 1, 0]), ("float", [0.0, 1.5]), ("double", [1e300, -0.5]), ("string", ["", "a", "FF", "01A"])]):
        nodes[f"V.A{j}"] = {"type": "sensor", "datatype": dt, "description": "d", "allowed": vs, "default": vs[0]}
        nodes[f"V.L{j}"] = {"type": "sensor", "datatype": dt + "[]", "description": "", "allowed": vs, "default": vs}
    nodes["V.B"] = {"type": "sensor", "datatype": "boolean", "description": "d", "default": False}
    nodes["V.M"] = {"type": "sensor", "datatype": "int8", "description": "d", "min": 0, "max": 0, "default": 0}
    for j, v in enumerate(["write-only", "read-write", "write-only+consent", "read-write+consent"]):
        nodes[f"V.V{j}"] = {"type": "actuator", "datatype": "uint8", "description": "d", "validate": v}
    case.write("m.vspec", gen.file_text(nodes))
    r = case.export("binary", "-s", "m.vspec", "-e", "validate", "-o", "out.bin")
    if case.check(r.ok, "values-rejected", r.brief):
        t = decode(case, "out.bin", "values")
        if t is not None:
            compare(case, t, nodes, False, "values")
    case.sig, case.nontrivial, case.note = "values", True, nodes


PROBES = {"texts": probe_texts, "values": probe_values}
