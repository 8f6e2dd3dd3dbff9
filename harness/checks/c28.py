"""C28: a failed export leaves no output, no export touches its inputs or writes anywhere else."""
import errno
import os
import shutil

import gen
import readers
import ref
from checks import c20
from common import *
from core import Skip
from world import World

TECHNIQUE = "runtime monitoring: file-system snapshots and audit-hook recording of every file operation, under input faults and injected read errors"
N_QUICK, N_THOROUGH = 320, 6000
RULE = ("A random model, loaded from main file, included file, overlay, types, units and quantities, is exported by every exporter: valid, then with one fault (missing, unreadable, directory, not UTF-8, no YAML, no "
        "mapping, an I/O error injected at the n-th read open, or a rejected statement of one of thirty kinds) in one of the files at a random place, with and without existing output. Audit events and snapshots "
        "before and after show whether anything but the named outputs was written and whether inputs or existing outputs changed. Distinct by model, fault and exporter.")
NEED = {"failed_exports": 1200, "successful_exports": 300, "kept_outputs": 400, "absent_outputs": 400, "inputs_unchanged": 8000, "injected_read_errors": 100, "write_events": 300}
FORMATS = sorted(readers.READ) + ["samm"]
WRITE = ("os.remove", "os.rename", "os.rmdir", "os.mkdir", "os.truncate", "os.chmod", "os.chown", "os.link", "os.symlink", "os.utime", "shutil.rmtree", "shutil.move", "shutil.copyfile", "shutil.copytree", "tempfile.mkstemp")


def snap(d):
    out = {}
    for root, ds, fs in os.walk(d):
        for x in ds + fs:
            p = os.path.join(root, x)
            st = os.lstat(p)
            if os.path.isdir(p) and not os.path.islink(p):
                out[os.path.relpath(p, d) + "/"] = (st.st_mode,)
            else:
                out[os.path.relpath(p, d)] = (st.st_mode, st.st_size, st.st_mtime_ns, st.st_ino, open(p, "rb").read() if os.path.isfile(p) else None)
    return out


def changed(a, b):
    return sorted(k for k in a.keys() | b.keys() if a.get(k) != b.get(k))


def make_hook(log, target=None, nth=None):
    """Records writing operations to the descriptor log; fails the opening of target."""
    seen = [0]
    busy = [False]

    def hook(event, args):
        if busy[0]:
            return
        if event == "open":
            path, mode, flags = args
            if isinstance(path, int):
                return
            writes = isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
            if writes:
                busy[0] = True
                os.write(log, f"open {os.path.abspath(os.fsdecode(path))}\n".encode())
                busy[0] = False
            elif target is not None and isinstance(path, (str, bytes)) and os.path.basename(os.fsdecode(path)) == target:
                seen[0] += 1
                if seen[0] == nth:
                    raise OSError(errno.EIO, "injected input/output error", path)
        elif event in WRITE:
            busy[0] = True
            for p in args[:2]:
                if isinstance(p, (str, bytes)) and p:
                    os.write(log, f"{event} {os.path.abspath(os.fsdecode(p))}\n".encode())
            busy[0] = False
    return hook


class Setup:
    """The files of one case; they can be restored and damaged."""

    def __init__(self, case, w, rng):
        self.case, self.w, self.rng = case, w, rng
        m = w.layers[0]
        self.part = {f: m[f] for f in m if m[f]["type"] != "branch" and rng.random() < 0.4}
        if self.part:
            case.write("in/part.vspec", gen.file_text(self.part, (), rng))
            case.write("in/m.vspec", gen.file_text({f: m[f] for f in m if f not in self.part}, [("part.vspec", None)], rng))
        self.files = {os.path.relpath(os.path.join(d, f), case.dir): open(os.path.join(d, f), "rb").read() for d, _, fs in os.walk(case.path("in")) for f in fs}

    def restore(self):
        for f, b in self.files.items():
            p = self.case.path(f)
            if os.path.islink(p) or (os.path.exists(p) and not os.path.isfile(p)):
                os.unlink(p) if os.path.islink(p) else shutil.rmtree(p)
            if not os.path.exists(p) or open(p, "rb").read() != b:
                self.case.write(f, b)
        for d, _, fs in os.walk(self.case.path("in")):
            for f in fs:
                p = os.path.relpath(os.path.join(d, f), self.case.dir)
                if p not in self.files:
                    os.unlink(self.case.path(p))


def file_fault(rng, s, f):
    kind = rng.choice(["missing", "directory", "dangling", "loop", "bytes", "tab", "list", "scalar", "bracket", "anchor", "control"])
    p = s.case.path(f)
    text = s.files[f]
    if kind in ("missing", "directory", "dangling", "loop"):
        os.unlink(p)
        if kind == "directory":
            os.mkdir(p)
        elif kind == "dangling":
            os.symlink("nowhere", p)
        elif kind == "loop":
            os.symlink(os.path.basename(p), p)
        return kind
    cut = text.find(b"\n", rng.randrange(len(text))) + 1
    bad = {"bytes": b"# \xff\xfe\n", "tab": b"Bad:\n\t- x: [\n", "bracket": b"Bad: [1, 2\n}:\n", "anchor": b"Bad: *nothere\n", "control": b"Bad: \"a\x01b\"\n"}
    if kind in bad:
        # at the end, or in front
        s.case.write(f, text + b"\n" + bad[kind] if cut or rng.random() < 0.5 else bad[kind] + text)
    else:
        s.case.write(f, b"- a\n- b\n" if kind == "list" else b"just text\n")
    return kind


def spec_faults(w):
    """{name: (which file, statement)} that every exporter has to reject."""
    r = w.root.name
    d = "description"
    F = {
        "datatype": {f"{r}.Zq": {"type": "sensor", "datatype": "uint9", d: "d"}},
        "no-datatype": {f"{r}.Zq": {"type": "sensor", d: "d"}},
        "no-type": {f"{r}.Zq": {"datatype": "uint8", d: "d"}},
        "no-description": {f"{r}.Zq": {"type": "sensor", "datatype": "uint8"}},
        "type": {f"{r}.Zq": {"type": "sensors", "datatype": "uint8", d: "d"}},
        "branch-datatype": {f"{r}.Zq": {"type": "branch", "datatype": "uint8", d: "d"}},
        "unit": {f"{r}.Zq": {"type": "sensor", "datatype": "uint8", "unit": "nosuchunit", d: "d"}},
        "unit-datatype": {f"{r}.Zq": {"type": "sensor", "datatype": "boolean", "unit": "m", d: "d"}},
        "default-type": {f"{r}.Zq": {"type": "attribute", "datatype": "uint8", "default": "x", d: "d"}},
        "default-range": {f"{r}.Zq": {"type": "attribute", "datatype": "uint8", "default": 300, d: "d"}},
        "default-allowed": {f"{r}.Zq": {"type": "attribute", "datatype": "string", "allowed": ["a"], "default": "b", d: "d"}},
        "allowed-type": {f"{r}.Zq": {"type": "sensor", "datatype": "uint8", "allowed": ["a"], d: "d"}},
        "allowed-min": {f"{r}.Zq": {"type": "sensor", "datatype": "uint8", "allowed": [1], "min": 0, d: "d"}},
        "arraysize": {f"{r}.Zq": {"type": "sensor", "datatype": "uint8", "arraysize": 2, d: "d"}},
        "struct-unknown": {f"{r}.Zq": {"type": "sensor", "datatype": "Types.NoSuch", d: "d"}},
        "orphan": {f"{r}.Nope.Zq": {"type": "sensor", "datatype": "uint8", d: "d"}},
        "second-root": {"Other": {"type": "branch", d: "d"}},
        "below-leaf": {f"{r}.Zq": {"type": "sensor", "datatype": "uint8", d: "d"}, f"{r}.Zq.In": {"type": "sensor", "datatype": "uint8", d: "d"}},
        "constUID": {f"{r}.Zq": {"type": "sensor", "datatype": "uint8", d: "d", "constUID": "12"}},
        "not-a-mapping": {f"{r}.Zq": "text"},
    }
    return F


def random_case(case, i):
    rng = case.rng
    case.write("in/x", "")
    os.unlink(case.path("in/x"))
    w = World(case, types=0.7, expand=True, nested_structs=0.0, hostile=0.1, hostile_values=0.1, sub="in/", overlays=0.6, inst_over=0, max_nodes=rng.choice([6, 10, 16]), extras=0)
    if len(w.flat) > 120 or w.types and c20.package_cycle(w.types):
        raise Skip("large or cyclic packages")
    declared = any("." in str(a.get("datatype", "")) for la in w.layers for a in la.values())
    s = Setup(case, w, rng)
    base = [a for a in w.args if a not in ("--no-expand", "--uuid")]
    os.makedirs(case.path("home"), exist_ok=True)
    os.makedirs(case.path("tmp"), exist_ok=True)
    os.makedirs(case.path("cwd"), exist_ok=True)
    env = {"HOME": case.path("home"), "TMPDIR": case.path("tmp"), "XDG_CACHE_HOME": case.path("home")}
    case.note = {"files": sorted(s.files), "nodes": len(w.flat)}
    deprecated_root = w.root.attrs.get("deprecation")

    def outargs(fmt, d):
        if fmt == "samm":
            return ["-tf", f"{d}/samm"], [f"{d}/samm"]
        if fmt in ("json", "yaml", "csv") and w.types and rng.random() < 0.5:
            return ["-o", f"{d}/o", "--types-output", f"{d}/t"], [f"{d}/o", f"{d}/t"]
        o = readers.out_args(fmt, f"{d}/o", w.types if fmt in readers.TYPES else None)
        return o, [f"{d}/o"] + ([f"{d}/o.types"] if len(o) == 4 else [])

    def run(fmt, oargs, names, more=(), target=None, nth=None, cwd="cwd"):
        takes = fmt in readers.TYPES or fmt == "samm"
        args = list(base) if takes else [a for j, a in enumerate(base) if a != "-t" and (j == 0 or base[j - 1] != "-t")]
        absd = lambda a: case.path(a) if a.startswith(("in/", "out/")) else a  # noqa: E731
        lf = os.open(case.path("..", os.path.basename(case.dir) + ".log"), os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
        before = snap(case.dir)
        try:
            case.count("cli_calls")
            r = case.vspec("export", fmt, *[absd(a) for a in [*args, *more, *oargs]], cwd=case.path(cwd), env=env, hook=make_hook(lf, target, nth))
            size = os.lseek(lf, 0, os.SEEK_END)
            os.lseek(lf, 0, os.SEEK_SET)
            log = os.read(lf, size).decode() if size else ""
        finally:
            os.close(lf)
            os.unlink(case.path("..", os.path.basename(case.dir) + ".log"))
        after = snap(case.dir)
        ch = changed(before, after)
        inputs = [k for k in ch if k.startswith("in/")]
        case.count("inputs_unchanged", len(s.files))
        case.check(not inputs, "input-changed", lambda: {"format": fmt, "files": inputs, **r.brief()})
        ok = [case.path(n) for n in names]
        up = [os.path.dirname(p) for p in ok] + ok
        events = [e.split(" ", 1) for e in log.splitlines()]
        case.count("write_events", len(events))
        bad = [e for e in events if not any(e[1] == p or e[1].startswith(p + "/") for p in ok) and not (e[0] == "os.mkdir" and e[1] in up) and e[1] != "/dev/null"]
        case.check(not bad, "wrote-elsewhere", lambda: {"format": fmt, "events": bad[:5], "named": names, "exit": r.code})
        other = [k for k in ch if not k.startswith("in/") and not any(k == n or k.startswith(n + "/") or (n + "/").startswith(k) for n in names)]
        case.check(not other, "changed-elsewhere", lambda: {"format": fmt, "changed": other, "named": names})
        return r, ch

    fmts = [f for f in FORMATS if f in readers.TYPES or f == "samm" or not declared]
    rng.shuffle(fmts)
    os.makedirs(case.path("out"))
    prior = {}
    for fmt in fmts[:3]:
        d = f"out/{fmt}"
        if fmt != "apigear":
            os.makedirs(case.path(d))
        else:
            d = "out/ap"
            os.makedirs(case.path(d))
        oa, names = outargs(fmt, d)
        r, ch = run(fmt, oa, names)
        case.count("successful_exports", r.ok)
        refused = fmt in ("protobuf", "go", "graphql", "id")
        case.check(r.ok or refused, f"{fmt}-rejected", lambda: r.brief())
        if not r.ok:
            case.check(not ch, f"{fmt}-refused-wrote", lambda: {"changed": ch, **r.brief()})
            continue
        case.check(deprecated_root or fmt == "samm" or any(k.startswith(d) for k in ch), f"{fmt}-no-output", lambda: {"changed": ch})
        prior[fmt] = (oa, names)

    faults = []
    specf = spec_faults(w)
    kinds = ["file", "file", "spec", "spec", "spec", "read", "types", "units"]
    for _ in range(4):
        faults.append(rng.choice(kinds))
    for fault in faults:
        s.restore()
        more, target, nth, what = [], None, None, fault
        need = None   # the fault only concerns exporters that take this option
        files = sorted(s.files)
        if fault in ("file", "read"):
            f = rng.choice(files)
            need = "types" if f.endswith("/t.vspec") else None
            if fault == "read":
                target, nth, what = os.path.basename(f), 1, "read:" + os.path.basename(f)
            else:
                what = file_fault(rng, s, f) + ":" + os.path.basename(f)
        elif fault == "spec":
            k = rng.choice(sorted(specf))
            what = "spec:" + k
            f = rng.choice([x for x in files if os.path.basename(x) in ("m.vspec", "part.vspec", "o.vspec")])
            if k == "below-leaf" or rng.random() < 0.3:
                case.write("in/extra.vspec", gen.file_text(specf[k]))
                more = ["-l", "in/extra.vspec"]
            else:
                add = ("\n" + gen.file_text(specf[k])).encode()
                text = s.files[f]
                if k == "not-a-mapping" or rng.random() < 0.5:
                    case.write(f, text + add)
                else:
                    case.write(f, add.lstrip(b"\n") + b"\n" + text)
        elif fault == "types":
            if not w.types:
                continue
            need = "types"
            root = next(f for f in w.types if "." not in f)
            k, st = rng.choice([("datatype", {f"{root}.Zs": {"type": "struct", "description": "d"}, f"{root}.Zs.p": {"type": "property", "datatype": "uint9", "description": "d"}}),
                                ("orphan", {f"{root}.No.Zs": {"type": "property", "datatype": "uint8", "description": "d"}}),
                                ("no-description", {f"{root}.Zs": {"type": "struct"}}),
                                ("extra-attribute", {f"{root}.Zs": {"type": "struct", "description": "d", "unknownkey": 1}}) if False else ("unit", {f"{root}.Zs": {"type": "struct", "description": "d"}, f"{root}.Zs.p": {"type": "property", "datatype": "uint8", "unit": "nosuchunit", "description": "d"}})])
            what = "types:" + k
            case.write("in/t.vspec", s.files["in/t.vspec"] + ("\n" + gen.file_text(st)).encode())
        else:
            k, f, add = rng.choice([("quantity", "in/units.yaml", b"zz:\n  definition: d\n  unit: zz unit\n  quantity: nosuch\n  allowed-datatypes: [numeric]\n"),
                                    ("datatype", "in/units.yaml", b"zz:\n  definition: d\n  unit: zz unit\n  quantity: length\n  allowed-datatypes: [uint9]\n"),
                                    ("no-definition", "in/units.yaml", b"zz:\n  unit: zz unit\n  quantity: length\n  allowed-datatypes: [numeric]\n"),
                                    ("empty-quantity", "in/quantities.yaml", b"zz:\n  comment: no definition\n")])
            what = "units:" + k
            case.write(f, s.files[f] + b"\n" + add)
        for fmt in rng.sample(fmts, min(len(fmts), 4)):
            if need == "types" and fmt not in readers.TYPES and fmt != "samm":
                continue
            keep = fmt in prior and fmt != "apigear" and rng.random() < 0.6
            if keep:
                oa, names = prior[fmt]
            else:
                d = "out/new-" + fmt
                os.makedirs(case.path(d), exist_ok=True)
                oa, names = outargs(fmt, d)
            r, ch = run(fmt, oa, names, more, target, nth)
            case.state(fmt, what)
            case.count("failed_exports")
            case.count("injected_read_errors", fault == "read")
            case.check(r.code != 0, "accepted-" + what.split(":")[0] + "-" + what.split(":")[1], lambda: {"format": fmt, "fault": what, **r.brief()})
            case.count("kept_outputs" if keep else "absent_outputs")
            case.check(not ch, "failed-" + ("changed" if keep else "wrote"), lambda: {"format": fmt, "fault": what, "changed": ch[:6], **r.brief()})
            if ch and not keep:
                shutil.rmtree(case.path("out/new-" + fmt))
    s.restore()


def probe_late(case):
    """Refusals that exporters find out themselves, over existing outputs."""
    leaf = {"type": "sensor", "datatype": "uint8", "description": "d"}
    br = {"type": "branch", "description": "d"}
    good = gen.file_text({"V": br, "V.X": leaf})
    clash = gen.file_text({"V": br, "V.A": br, "V.A.BC": br, "V.A.BC.X": leaf, "V.AB": br, "V.AB.C": br, "V.AB.C.X": leaf})
    same = gen.file_text({"V": br, "V.X": {**leaf, "constUID": "0x12345678"}, "V.Y": {**leaf, "constUID": "0x12345678"}})
    rejected = [{"V": {"type": "nothing", "description": "d"}}, {"V": {**br, "datatype": "uint8"}}, {"V": br, "V.X": {"type": "sensor", "description": "d"}}, {"V": br, "V.W.X": leaf}, {"V": br, "V.X": {**leaf, "unit": "nosuch"}},
                {"V": br, "V.X": {**leaf, "default": 300}}, {"V": br, "W": br}, {"V": br, "V.X": leaf, "V.X.Y": leaf}, {"V": br, "V.X": {**leaf, "datatype": "Types.S"}}]
    for j, nodes in enumerate(rejected):
        case.write(f"old{j}.vspec", gen.file_text(nodes))
    case.write("old.vspec", "V: [1\n")
    olds = [("id", good, ["--validate-static-uid", f"old{j}.vspec", *more]) for j in ["", *range(len(rejected))] for more in ([], ["--case-sensitive"])]
    for fmt, text, opts in olds + [("protobuf", clash, []), ("go", clash, []), ("id", same, []), ("protobuf", good, ["--static-uid"]), ("protobuf", gen.file_text({"V": br, "V.X": {**leaf, "staticUID": "0x00000001"}}), ["--static-uid", "-e", "staticUID"]),
                            ("graphql", gen.file_text({"V": br, "V.Ab": leaf, "V.AB": leaf}), []), ("samm", good, ["--signals-file", "nosuch.txt"]), ("id", good, ["--validate-static-uid", "nosuch.yaml"]),
                            ("binary", gen.file_text({"V": br, "V.X": {**leaf, "description": "x" * 70000}}), []), ("binary", gen.file_text({"V": br, "V.X" + "y" * 300: leaf}), [])]:
        for prior in (True, False):
            case.write("m.vspec", good)
            out = "o." + fmt
            oa = ["-tf", out] if fmt == "samm" else ["-o", out]
            p = case.path(out)
            if os.path.isdir(p):
                shutil.rmtree(p)
            elif os.path.exists(p):
                os.unlink(p)
            if prior:
                r = case.export(fmt, "-s", "m.vspec", *oa)
                case.check(r.ok, f"{fmt}-good-rejected", lambda: r.brief())
            case.write("m.vspec", text)
            before = snap(case.dir)
            r = case.export(fmt, "-s", "m.vspec", *opts, *oa)
            ch = changed(before, snap(case.dir))
            case.count("failed_exports", not r.ok)
            case.state("late", fmt, r.code)
            if (fmt, text, opts) in olds:
                case.check(not r.ok, "late-id-accepted", lambda: {"options": opts, **r.brief()})
            if not r.ok:
                case.check(not ch, f"late-{fmt}-wrote", lambda: {"format": fmt, "prior": prior, "changed": ch, **r.brief()})
    case.sig, case.nontrivial, case.note = "late", True, "name clashes, identifier collisions, sizes"


PROBES = {"late": probe_late}
