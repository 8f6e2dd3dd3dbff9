"""C27: exports are deterministic and do not depend on where, when and over what they run."""
import os
import shutil
import subprocess

import gen
import readers
import ref
from checks import c20
from common import *
from core import Skip
from seedserver import Server
from world import World

FOREIGN_SHARE = 0.08
TECHNIQUE = "runtime monitoring: byte comparison of recorded outputs over interpreters with different hash seeds, clocks, environments, locales, working directories, file locations and prior outputs; statement-order metamorphosis"
N_QUICK, N_THOROUGH = 100, 3000
RULE = ("A random model with types, overlays, units and an included file is exported by random exporters: once as the reference, then by interpreters with other hash seeds, time, zone, home and terminal width, by one in a locale with "
        "another character set, from another working directory with the files moved and named absolutely, and over existing outputs. The bytes of all written files must be equal. Then all statements and attributes are written in another order and "
        "the nodes and metadata shown by JSON, YAML, CSV and id must be the same. Distinct by model and options.")
NEED = {"outputs_compared": 1200, "hash_seeds_compared": 600, "locales_compared": 200, "non_ascii_outputs": 50, "moved_compared": 200, "prior_output_compared": 200, "reordered_nodes": 1500, "struct_outputs": 100}
SERVERS = {}
ENVS = [{"VERIF_CLOCK": "40000000", "TZ": "Pacific/Kiritimati", "HOME": "/nonexistent", "COLUMNS": "40"}, {"VERIF_CLOCK": "-9000000", "TZ": "America/Lima", "LANG": "de_DE.UTF-8", "USER": "x"}, {}]
LOCALES = ["C"]   # and those that setup() builds
WISH = [("en_US", "ISO-8859-1"), ("de_DE", "CP1252"), ("ja_JP", "EUC-JP"), ("ru_RU", "KOI8-R")]
FORMATS = sorted(readers.READ) + ["samm"]


def setup(scratch, tier):
    """Locales with character sets other than UTF-8, for the glibc of this process's children."""
    d = os.path.join(scratch, "locales")
    os.makedirs(d, exist_ok=True)
    ps = [(f"{lang}.{cs}", subprocess.Popen(["localedef", "--no-archive", "-i", lang, "-f", cs, os.path.join(d, f"{lang}.{cs}")], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
          for lang, cs in WISH if shutil.which("localedef")]
    for name, p in ps:
        p.wait()
        if os.path.exists(os.path.join(d, name, "LC_CTYPE")):
            LOCALES.append(name)
    os.environ["VERIF_LOCPATH"] = d


def server(k):
    """k: a number of ENVS or a locale."""
    me = os.getpid()
    if (me, k) not in SERVERS:
        if k in LOCALES:
            SERVERS[me, k] = Server(1, {"LC_ALL": k, "LANG": k, "LOCPATH": os.environ["VERIF_LOCPATH"], "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"})
        else:
            SERVERS[me, k] = Server(1000 + 7 * k, ENVS[k])
    return SERVERS[me, k]


def files(root):
    out = {}
    if os.path.isfile(root):
        return {"": open(root, "rb").read()}
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = open(p, "rb").read()
    return out


def outputs(case, names):
    got = {}
    for n in names:
        for f, b in files(case.path(n)).items():
            got[f"{os.path.basename(n)}/{f}"] = b
    return got


def delta(a, b):
    for k in sorted(a.keys() | b.keys()):
        if k not in a or k not in b:
            return {"file": k, "only_in": "second" if k not in a else "first"}
        if a[k] != b[k]:
            x, y = a[k].split(b"\n"), b[k].split(b"\n")
            j = next((j for j in range(min(len(x), len(y))) if x[j] != y[j]), min(len(x), len(y)))
            return {"file": k, "line": j, "first": repr(b"\n".join(x[j:j + 3]))[:300], "second": repr(b"\n".join(y[j:j + 3]))[:300]}
    return {}


def out_of(fmt, d, types):
    """(arguments, output names) below directory d."""
    if fmt == "samm":
        return ["-tf", f"{d}/samm"], [f"{d}/samm"]
    if fmt in ("json", "yaml", "csv") and types == "split":
        return ["-o", f"{d}/o.{fmt}", "--types-output", f"{d}/t.{fmt}"], [f"{d}/o.{fmt}", f"{d}/t.{fmt}"]
    o = f"{d}/o.{readers.EXT[fmt]}"
    a = readers.out_args(fmt, o, types)
    return a, [o] + ([o + ".types"] if len(a) == 4 else [])


def options(rng, fmt, w):
    o = []
    def some(p, *a):
        if rng.random() < p:
            o.extend(a)
    if fmt in readers.UUID:
        some(0.4, "--uuid")
    if fmt in ("json", "yaml", "jsonschema"):
        some(0.4, "--extend-all-attributes")
    if fmt in ("json", "jsonschema"):
        some(0.3, "--pretty")
    if fmt == "jsonschema":
        some(0.4, "--require-all-properties")
        some(0.4, "--no-additional-properties")
    if fmt in readers.EXPAND and not w.inst:
        some(0.3, "--no-expand")
    if fmt == "ddsidl":
        some(0.5, "--all-idl-features")
    if fmt == "protobuf":
        some(0.4, "--add-optional")
    if fmt == "go":
        some(0.5, "--no-short-names")
    if fmt == "graphql":
        some(0.4, "-g", "source,Source")
    if fmt == "tree":
        some(0.5, "--attr", "datatype", "--attr", "description")
    if fmt == "samm":
        some(0.5, "--no-split")
    return o


def reorder(rng, nodes):
    ks = list(nodes)
    rng.shuffle(ks)
    out = {}
    for k in ks:
        a = list(nodes[k].items())
        rng.shuffle(a)
        out[k] = dict(a)
    return out


def random_case(case, i):
    rng = case.rng
    inst = rng.random() < 0.5
    case.write("in/x", "")
    w = World(case, types=0.6, expand=True, nested_structs=0.0, hostile=0.3, hostile_values=0.2, sub="in/", overlays=0.5, inst_over=0.8 if inst else 0, extras=rng.choice([0, 0.2]), max_nodes=rng.choice([10, 20, 30]))
    w.inst = inst
    if len(w.flat) > 200:
        raise Skip("large")
    declared = any("." in str(a.get("datatype", "")) for la in w.layers for a in la.values())
    # part of the model comes from an included file found by -I or beside the main file
    m = w.layers[0]
    part = {f: m[f] for f in m if m[f]["type"] != "branch" and rng.random() < 0.3}
    incdir = rng.choice(["in/", "in/inc/"])
    if part:
        case.write(incdir + "part.vspec", gen.file_text(part, (), rng))
        case.write("in/m.vspec", gen.file_text({f: m[f] for f in m if f not in part}, [("part.vspec", None)], rng))
    base = [a for a in w.args if a not in ("--no-expand", "--uuid")] + (["-I", "in/inc"] if incdir != "in/" else [])
    os.makedirs(case.path("in/inc"), exist_ok=True)
    # files of the same name in directories searched later
    for k in rng.sample("abcd", rng.choice([0, 0, 3])):
        case.write(f"in/later-{k}/part.vspec", gen.file_text({f: {**a, "description": f"from {k}"} for f, a in part.items()}) or "# nothing\n")
        base += ["-I", f"in/later-{k}"]
        if rng.random() < 0.3:
            base += ["-I", f"in/later-{k}"]
    fmts = [f for f in FORMATS if (f in readers.TYPES or f == "samm" or not declared) and not (f == "protobuf" and w.types and c20.package_cycle(w.types)) and not (f == "samm" and inst)]
    rng.shuffle(fmts)
    case.note = {"args": base, "nodes": len(w.flat)}
    case.write("old.vspec", "V:\n  type: branch\n  description: old\n" + "".join(f"V.Old{k}:\n  type: sensor\n  datatype: uint8\n  description: an older signal\n" for k in range(40)))
    abspath = os.path.join(case.dir, "else where", "\u00fc\u00df")
    for fmt in fmts[:4] if case.tier == "quick" else fmts:
        takes = fmt in readers.TYPES or fmt == "samm"
        types = (rng.choice(["split", "joined"]) if fmt in ("json", "yaml", "csv") else "yes") if w.types and takes else None
        args = list(base) if takes else [a for j, a in enumerate(base) if a != "-t" and (j == 0 or base[j - 1] != "-t")]
        opts = options(rng, fmt, w)

        def call(d, k=None, cwd=None, fix=lambda a: a):
            if fmt != "apigear":
                os.makedirs(case.path(d), exist_ok=True)
            oa, names = out_of(fmt, d if cwd is None else case.path(d), types)
            full = ["export", fmt, *[fix(a) for a in args], *opts, *oa]
            case.count("cli_calls")
            if k is None:
                r = case.vspec(*full, cwd=cwd)
                return r.code, r.out, names
            r = server(k).vspec(full, cwd or case.dir)
            if r.get("timeout"):
                from core import Inconclusive
                raise Inconclusive("an export did not end: " + r["out"])
            return r["code"], r["out"], names
        code, out, names = call(f"ref-{fmt}")
        if code != 0:
            # refused for names that clash in the format: everywhere alike
            c2, out2, _ = call(f"again-{fmt}", 0)
            case.check(c2 != 0, f"{fmt}-exit-differs", lambda: {"first": code, "second": c2, "out": out[-500:]})
            case.count("refused")
            continue
        want = outputs(case, names)
        if fmt == "samm" and not want:
            continue  # everything is deprecated
        if not case.check(want, f"{fmt}-no-output", lambda: {"names": names}):
            continue
        case.count("struct_outputs", types is not None)

        def same_as(names2, what, detail, subset=False):
            got = outputs(case, names2)
            if subset:
                got = {f: b for f, b in got.items() if f in want}
            case.count("outputs_compared", len(want))
            case.state(fmt, what)
            case.check(got == want, f"{fmt}-{what}", lambda: {"difference": delta(want, got), "options": opts, **detail})
        # other hash seeds, clocks and environments
        for k in range(3):
            code, out, names2 = call(f"s{k}-{fmt}", k)
            case.count("hash_seeds_compared")
            if case.check(code == 0, f"{fmt}-exit-differs", lambda: {"exit": code, "out": out[-500:], "seed": k}):
                same_as(names2, "seed", {"server": k})
        # another character set
        k = rng.choice(LOCALES)
        code, out, names2 = call(f"loc-{fmt}", k)
        case.count("locales_compared")
        case.state("locale", k)
        case.count("non_ascii_outputs", any(not b.isascii() for f, b in want.items()) if fmt != "binary" else 0)
        if case.check(code == 0, f"{fmt}-locale-rejected", lambda: {"exit": code, "out": out[-800:], "locale": k}):
            same_as(names2, "locale", {"locale": k})
        # moved, absolute names, other directory
        os.makedirs(abspath, exist_ok=True)
        shutil.copytree(case.path("in"), os.path.join(abspath, "in"), dirs_exist_ok=True)
        code, out, names2 = call(f"moved-{fmt}", rng.choice([None, 0, 1]), cwd="/" if rng.random() < 0.5 else abspath, fix=lambda a: os.path.join(abspath, a) if a.startswith("in/") else a)
        case.count("moved_compared")
        if case.check(code == 0, f"{fmt}-moved-rejected", lambda: {"exit": code, "out": out[-800:]}):
            same_as(names2, "moved", {})
        # over existing output: rubbish, then an older model, then the same
        if fmt == "apigear":
            continue
        d = f"prior-{fmt}"
        os.makedirs(case.path(d))
        oa, names2 = out_of(fmt, d, types)
        if fmt != "samm" and rng.random() < 0.5:
            case.write(names2[0], b"\x00\xff rubbish\n" * 5000)
        else:
            r = case.vspec("export", fmt, "-s", "old.vspec", *oa)
            case.check(r.ok, f"{fmt}-old-rejected", lambda: r.brief())
        for what in ("prior", "same-again"):
            code, out, names2 = call(d)
            case.count("prior_output_compared")
            if case.check(code == 0, f"{fmt}-{what}-rejected", lambda: {"exit": code, "out": out[-800:]}):
                same_as(names2, what, {}, subset=os.path.isdir(case.path(names2[-1])))
    # the same statements in another order
    for f, nodes in [("in/m.vspec", {k: v for k, v in m.items() if k not in part}), (incdir + "part.vspec", part), *([("in/o.vspec", w.layers[1])] if len(w.layers) > 1 else [])]:
        if nodes:
            case.write(f, gen.file_text(reorder(rng, nodes), [("part.vspec", None)] if part and f == "in/m.vspec" else (), rng))
    if w.types:
        case.write("in/t.vspec", gen.file_text(reorder(rng, load_yaml(case.read("in/t.vspec"))), (), rng))
    for fmt in ["json", "yaml", "csv", "id"] if case.tier != "quick" else rng.sample(["json", "yaml", "csv", "id"], 2):
        opts = ["--extend-all-attributes"] if fmt in ("json", "yaml") else []
        res = []
        for d, b in (("ref", [os.path.join(abspath, a) if a.startswith("in/") else a for a in base]), ("order", base)):
            if not os.path.isdir(abspath):
                return
            r = case.export(fmt, *b, *opts, "-o", f"{d}.{fmt}")
            if not r.ok:
                res.append(None)
                case.check(d == "ref", "reordered-rejected", lambda: r.brief())
                break
            res.append(nodes_of(case, fmt, f"{d}.{fmt}"))
        if len(res) == 2 and None not in res:
            case.count("reordered_nodes", len(res[0]))
            dd = diff(res[0], res[1])
            case.check(not dd, f"{fmt}-order", lambda: {"diff": dd})


def nodes_of(case, fmt, out):
    if fmt == "json":
        doc = load_json(case.read(out))
        flat, _ = json_flat(doc)
        t, _ = json_flat(doc.get("ComplexDataTypes", {}))
        return {**flat, **{"types:" + f: a for f, a in t.items()}}
    if fmt == "csv":
        rows = read_csv(case.read(out))
        return {r[0]: dict(zip(rows[0][1:], r[1:])) for r in rows[1:]}
    doc = load_yaml(case.read(out))
    t = doc.pop("ComplexDataTypes", {})
    return {**doc, **{"types:" + f: a for f, a in t.items()}}


def probe_imports(case):
    """Many structs of many branches in one message file: the order of the imports."""
    t = {"T": {"type": "branch", "description": "d"}, "T.M": {"type": "branch", "description": "d"}, "T.M.S": {"type": "struct", "description": "d"}}
    m = {"V": {"type": "branch", "description": "d"}}
    for k in "ABCDEFGHIJ":
        t[f"T.{k}"] = {"type": "branch", "description": "d"}
        t[f"T.{k}.S{k}"] = {"type": "struct", "description": "d"}
        t[f"T.{k}.S{k}.x"] = {"type": "property", "datatype": "uint8", "description": "d"}
        t[f"T.M.S.p{k}"] = {"type": "property", "datatype": f"T.{k}.S{k}", "description": "d"}
        m[f"V.{k}"] = {"type": "sensor", "datatype": f"T.{k}.S{k}[]", "description": "d", "extra1": 1, "other": "x", "third": [1]}
    case.write("m.vspec", gen.file_text(m))
    case.write("t.vspec", gen.file_text(t))
    for fmt in ("protobuf", "json", "yaml", "csv", "ddsidl", "go", "apigear", "jsonschema", "tree", "id"):
        want = None
        for k in (None, 0, 1, 2):
            d = f"{fmt}{k}"
            if fmt != "apigear":
                os.makedirs(case.path(d))
            oa, names = out_of(fmt, d, "yes")
            full = ["export", fmt, "-s", "m.vspec", "-t", "t.vspec", *(["--extend-all-attributes"] if fmt in ("json", "yaml", "jsonschema") else []), *oa]
            code = case.vspec(*full).code if k is None else server(k).vspec(full, case.dir)["code"]
            if case.check(code == 0, f"{fmt}-rejected", {"args": full}):
                got = outputs(case, names)
                want = want or got
                case.count("outputs_compared", len(got))
                case.check(got == want, f"{fmt}-imports", lambda: delta(want, got))
    case.sig, case.nontrivial, case.note = "imports", True, "ten packages of structs"


PROBES = {"imports": probe_imports}
