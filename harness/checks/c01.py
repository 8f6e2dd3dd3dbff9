"""C01: includes and prefixes flatten to exactly the specified signal set."""
import os

import gen
import ref
from common import *
from core import Skip

N_QUICK, N_THOROUGH = 700, 8000
RULE = ("A random model is split over a random include graph (nested files, prefixes, the same fragment included under several "
        "prefixes, -I directories with decoys, sub directories, keys restated by later files); non-trivial: at least two files, "
        "distinct by content of all files. Oracle: independent flattening of the structured layout, compared node by node and "
        "attribute by attribute with the YAML export; every include graph is also compared with the single-file form.")
NEED = {"includes_followed": 500, "overlay_includes": 100, "nodes_compared": 2000, "byte_order_marks": 40, "decoys_above": 40, "included_again": 40}


class Layout:
    """files: name -> (nodes, [(statement target, prefix, resolved name)])"""

    def __init__(self):
        self.files = {}
        self.n = 0
        self.used = set()

    def new(self, rng, dirs):
        self.n += 1
        if rng.random() < 0.3:
            # the same name in several directories
            free = [f for f in (d + n for d in dirs if d for n in ("part.vspec", "deep/part.vspec")) if f not in self.used]
            if free:
                f = rng.choice(free)
                self.used.add(f)
                return f
        return f"{rng.choice(dirs)}f{self.n}{rng.choice(['.vspec'] * 6 + ['.yaml', '.inc', '', '.v2.vspec'])}"


def split(rng, lay, name, nodes, dirs, depth):
    """Moves parts of nodes (keys relative to this file) into included files."""
    incs = []
    nodes = dict(nodes)
    mydir = name.rsplit("/", 1)[0] + "/" if "/" in name else ""
    for _ in range(rng.randint(0, 3) if depth < 4 else 0):
        if len(nodes) < 2:
            break
        sub = lay.new(rng, dirs)
        if rng.random() < 0.65:
            # everything below a path goes to a file included with that prefix
            keys = [k for k in nodes if any(o.startswith(k + ".") for o in nodes)]
            # a prefix needs no node of its own
            keys += [k.rsplit(".", 1)[0] for k in nodes if "." in k]
            if not keys:
                continue
            pre = rng.choice(sorted(keys))
            moved = {k[len(pre) + 1:]: v for k, v in nodes.items() if k.startswith(pre + ".")}
            if rng.random() < 0.3:
                drop = {k for k in moved if rng.random() < 0.4}
                if len(drop) < len(moved):
                    for k in drop:
                        moved.pop(k)
            for k in moved:
                nodes.pop(f"{pre}.{k}")
        else:
            pre = None
            ks = [k for k in nodes if rng.random() < 0.4]
            moved = {k: nodes.pop(k) for k in ks}
        split(rng, lay, sub, moved, dirs, depth + 1)
        incs.append((sub, pre))
    lay.files[name] = (nodes, incs)


def flatten(files, name, prefix):
    nodes, incs = files[name]
    layers = [{(f"{prefix}.{k}" if prefix else k): v for k, v in nodes.items()}]
    order = [(name, prefix)]
    for sub, pre in incs:
        p = f"{prefix}.{pre}" if prefix and pre else (pre or prefix)
        la, o = flatten(files, sub, p)
        layers += la
        order += o
    return layers, order


def overlays(case, m, o, layers, maindir, files):
    """Overlays in directories of their own with includes of their own; a file of the same name lies beside the main file."""
    rng = case.rng
    args = []
    branches = [f for f in m if m[f]["type"] == "branch" and not m[f].get("instances")]
    for k in range(rng.randint(1, 2)):
        d = rng.choice(["", f"ov{k}/", f"ov{k}/deep/"])
        pre = rng.choice(branches)
        name = f"over{k}.vspec" if d == "" or maindir + "extra.vspec" in files else "extra.vspec"
        below = [f[len(pre) + 1:] for f in m if f.startswith(pre + ".")]
        part = {}
        for f in rng.sample(below, min(len(below), 2)):
            part[f] = {rng.choice(["description", "comment"]): f"from overlay {k}"}
        part["OvNew%d" % k] = gen.decorate(rng, o, gen.leaf_attrs(rng, o, dt="uint16"))
        top = {rng.choice(list(m)): {"description": f"top of overlay {k}"}} if rng.random() < 0.6 else {}
        case.write(d + name, gen.file_text(part, (), rng))
        if d and maindir + name not in files:
            case.write(maindir + name, gen.file_text({f: {"description": "decoy"} for f in part}))
        case.write(f"{d}main{k}.vspec", gen.file_text(top, [(name, pre)], rng))
        layers += [top, {f"{pre}.{f}": a for f, a in part.items()}]
        args += ["-l", f"{d}main{k}.vspec"]
        case.count("overlay_includes")
    return args


def random_case(case, i):
    rng = case.rng
    o = gen.Opts(hostile=0.15, instances=rng.choice([0, 0, 0.4]), max_nodes=rng.choice([8, 15, 30]), extras=0.15)
    if rng.random() < 0.4:
        # nodes named like what is above them
        o.roots = [rng.choice(o.roots)]
        o.names = o.names[:6] + o.roots * 4
    m = gen.model(rng, o)
    lay = Layout()
    dirs = ["", "sub/", "sub/deep/", "inc1/", "inc2/"]
    main = rng.choice(["main.vspec", "root/main.vspec"])
    split(rng, lay, main, m, dirs, 0)
    files = lay.files
    names = list(files)
    # a shared fragment included under several prefixes
    if rng.random() < 0.5:
        frag = {}
        for j in range(rng.randint(1, 3)):
            a = gen.leaf_attrs(rng, o, dt="uint8")
            frag[f"Shared{j}"] = gen.decorate(rng, o, a)
        if rng.random() < 0.5:
            frag["SharedB"] = gen.decorate(rng, o, {"type": "branch"})
            frag["SharedB.In"] = gen.decorate(rng, o, gen.leaf_attrs(rng, o, dt="float"))
        fn = lay.new(rng, dirs)
        files[fn] = (frag, [])
        brs = [f for f, a in m.items() if a["type"] == "branch"]
        for b in rng.sample(brs, min(len(brs), rng.randint(1, 3))):
            nodes, incs = files[main]
            incs.append((fn, b))
    # keys restated by another file: the last file wins per attribute
    restated = 0
    if rng.random() < 0.6:
        for _ in range(rng.randint(1, 3)):
            f = rng.choice(list(m))
            fn = lay.new(rng, dirs)
            files[fn] = ({f: rng.choice([{"description": f"restated {rng.randint(0, 99)}"},
                                         {"comment": "restated"}, {"quality": {"a": rng.randint(0, 9)}},
                                         {"quality": {"b": [rng.randint(0, 9)]}, "description": "again"}])}, [])
            nodes, incs = files[main]
            incs.insert(rng.randint(0, len(incs)), (fn, None))
            restated += 1
    # the same file once more, after others
    for n, (nodes, incs) in files.items():
        if incs and rng.random() < 0.15:
            incs.insert(rng.randint(1, len(incs)), rng.choice(incs))
            case.count("included_again")
    # where each include is found: -I directories in order, then the including file's directory
    incdirs = rng.sample(["inc1", "inc2", "."], 3) if rng.random() < 0.5 else ["."]
    stmts = {}
    for n, (nodes, incs) in files.items():
        mydir = n.rsplit("/", 1)[0] + "/" if "/" in n else ""
        out = []
        for sub, pre in incs:
            t = sub
            if mydir and sub.startswith(mydir) and rng.random() < 0.5:
                t = sub[len(mydir):]
            for d in incdirs:
                if d != "." and sub.startswith(d + "/") and rng.random() < 0.7:
                    t = sub[len(d) + 1:]
                    # a decoy in a directory searched later must not be used
                    later = [x for x in incdirs[incdirs.index(d) + 1:] if x != "."]
                    for x in later:
                        dec = f"{x}/{t}"
                        if dec not in files and rng.random() < 0.5:
                            case.write(dec, gen.dump({"Decoy": {"type": "branch", "description": "decoy"}}))
                    # nor shadow another file of the layout
            out.append((t, pre))
        stmts[n] = out

    def lookup(t, src):
        for d in incdirs + [src.rsplit("/", 1)[0] if "/" in src else "."]:
            p = t if d == "." else f"{d}/{t}"
            if p in files:
                return p
        return None
    for n, out in stmts.items():
        for j, (t, pre) in enumerate(out):
            if lookup(t, n) != files[n][1][j][0]:
                out[j] = (files[n][1][j][0], pre)  # full path from the root directory
                if lookup(out[j][0], n) != files[n][1][j][0]:
                    raise Skip("ambiguous lookup")
    for n, incs in ((n, files[n][1]) for n in files):
        # a file beside the one that includes n, of the name of one that n includes from its own directory
        here = n.rsplit("/", 1)[0] if "/" in n else "."
        for sub, _ in incs:
            there = sub.rsplit("/", 1)[0] if "/" in sub else "."
            for t, _ in stmts[sub]:
                dec = f"{here}/{t}"
                if here not in [*incdirs, ".", there, "root"] and dec not in files and rng.random() < 0.6:
                    case.write(dec, gen.dump({"Decoy": {"type": "branch", "description": "decoy"}}))
                    case.count("decoys_above")
    layers, order = flatten(files, main, None)
    ovargs = overlays(case, m, o, layers, "root/" if "/" in main else "", files) if rng.random() < 0.45 else []
    for d in incdirs:
        os.makedirs(case.path(d), exist_ok=True)
    for n, (nodes, incs) in files.items():
        mark = rng.random() < 0.1  # editors of some systems begin each file with it
        case.count("byte_order_marks", int(mark))
        case.write(n, ("\ufeff" if mark else "") + gen.file_text(nodes, stmts[n], rng))
    args = ["-s", main]
    for d in incdirs:
        args += ["-I", d]
    args += ["--extend-all-attributes"] + ovargs
    case.count("includes_followed", len(order) - 1)
    case.state("files", min(len(order), 12), "depth", max((p or "").count(".") + 1 if p else 0 for _, p in order),
               "restated", restated)
    case.sig = model_sig([layers, args, [s for s in stmts.values()]])
    case.nontrivial = len(order) > 1
    case.note = {"files": [f"{n} under {p}" for n, p in order][:8], "args": args, "nodes": len(m)}
    expected = ref.shown(ref.resolve(layers), extra=None)
    r, data = export_yaml(case, *args)
    if not expect_model(case, r, data, expected, "flattened", {"files": order}):
        return
    # the single-file form of the same content exports the same document
    single = ref.layer(layers)
    case.write("single.vspec", gen.file_text(single, (), rng))
    r2, data2 = export_yaml(case, "-s", "single.vspec", "--extend-all-attributes", out="single.yaml")
    if case.check(r2.ok, "single:rejected", r2.brief):
        case.check(case.read("out.yaml") == case.read("single.yaml"), "split-changes-export",
                   lambda: {"diff": diff(data2, data)})
    # an include that cannot be found must not be skipped
    if len(order) > 1 and rng.random() < 0.5:
        victim = rng.choice([n for n, _ in order[1:]])
        txt = case.read(victim)
        os.unlink(case.path(victim))
        found = [1 for n, out in stmts.items() for t, _ in out
                 if files[n] and any(os.path.exists(case.path(d, t)) for d in incdirs + [n.rsplit("/", 1)[0] if "/" in n else "."])
                 and victim.endswith(t)]
        if not found:
            r3 = case.export("yaml", *args, "-o", "missing.yaml")
            expect_reject(case, r3, "missing-include", {"removed": victim}, out="missing.yaml")
            case.count("missing_includes")
        case.write(victim, txt)
    if rng.random() < 0.1:
        case.write(main, case.read(main) + "\n#include\n")
        r4 = case.export("yaml", *args, "-o", "mal.yaml")
        expect_reject(case, r4, "malformed-include", {}, out="mal.yaml")

