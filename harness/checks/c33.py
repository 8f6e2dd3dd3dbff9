"""C33: exit status 0 means that every output is there, complete and new."""
import errno
import os
import resource
import shutil

import readers
from checks import c20
from common import *
from core import Skip
from world import World

TECHNIQUE = "runtime monitoring: fault injection into the opening and writing of outputs (size limits, full device, failing opens, things in the way), outputs compared byte for byte with those of an undisturbed run"
N_QUICK, N_THOROUGH = 150, 4000
RULE = ("A random model is exported by every exporter to a fresh place, to the same place again over longer, shorter and unrelated existing output, and with one fault in the writing: the file size limited to a random part of the "
        "largest output, the n-th opening for writing failing (no space, no permission, read-only file system, I/O error, too many files), the output being a full device, a directory, below a file or in a missing directory. "
        "Exit 0 with outputs that differ from the undisturbed ones, and a failure without a fault, are violations. Distinct by model, exporter and fault.")
NEED = {"undisturbed": 600, "over_existing": 700, "faults": 1500, "faults_reported": 1000, "size_limits": 500, "failed_opens": 300, "full_devices": 100, "in_the_way": 150}
FORMATS = sorted(readers.READ) + ["samm"]
ERR = [errno.ENOSPC, errno.EACCES, errno.EROFS, errno.EIO, errno.EMFILE, errno.EDQUOT, errno.EPERM]


def content(p):
    """{relative path: bytes} of a file or a directory."""
    if os.path.isfile(p):
        return {"": open(p, "rb").read()}
    return {os.path.relpath(os.path.join(d, f), p): open(os.path.join(d, f), "rb").read() for d, _, fs in os.walk(p) for f in fs}


def remove(p):
    if os.path.isdir(p) and not os.path.islink(p):
        shutil.rmtree(p)
    elif os.path.lexists(p):
        os.unlink(p)


def limit_hook(size):
    done = []

    def hook(event, args):
        if not done:
            done.append(1)
            resource.setrlimit(resource.RLIMIT_FSIZE, (size, size))
    return hook


def open_hook(nth, err, below):
    seen = [0]

    def hook(event, args):
        if event == "open":
            path, _, flags = args
            if isinstance(path, (str, bytes)) and isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC) and os.path.abspath(os.fsdecode(path)).startswith(below):
                seen[0] += 1
                if seen[0] == nth:
                    raise OSError(err, os.strerror(err), path)
    return hook


def outputs(fmt, d, w, types):
    """Arguments and the named outputs: (path, is it a directory?)."""
    if fmt == "samm":
        return ["-tf", f"{d}/samm"], [(f"{d}/samm", True)]
    if fmt == "apigear":
        return ["--output-dir", f"{d}/ag"], [(f"{d}/ag", True)]
    out = f"{d}/o.{readers.EXT[fmt]}"
    if w.types and fmt == "protobuf":
        return ["-o", out, "--types-out-dir", f"{d}/t"], [(out, False), (f"{d}/t", True)]
    if types:
        return ["-o", out, "--types-output", f"{d}/o.types"], [(out, False), (f"{d}/o.types", False)]
    return ["-o", out], [(out, False)]


def random_case(case, i):
    rng = case.rng
    case.write("in/x", "")
    w = World(case, types=0.6, expand=True, nested_structs=0.3, hostile=0.1, hostile_values=0.2, sub="in/", overlays=0.3, inst_over=0, max_nodes=rng.choice([4, 10, 25, 60]), extras=0)
    if len(w.flat) > 300 or w.types and c20.package_cycle(w.types):
        raise Skip("large or cyclic packages")
    declared = any("." in str(a.get("datatype", "")) for la in w.layers for a in la.values())
    base = [a for a in w.args if a not in ("--no-expand", "--uuid")]
    fmts = [f for f in FORMATS if f in readers.TYPES or f == "samm" or not declared]
    rng.shuffle(fmts)
    case.note = {"nodes": len(w.flat)}

    for fmt in fmts[:6]:
        takes = fmt in readers.TYPES or fmt == "samm"
        args = [a for j, a in enumerate(base) if takes or a != "-t" and (j == 0 or base[j - 1] != "-t")]
        types = bool(w.types) and fmt in ("json", "yaml", "csv") and rng.random() < 0.6
        d = f"{fmt}.d"
        os.makedirs(case.path(d))
        oa, named = outputs(fmt, d, w, types)
        r = case.export(fmt, *args, *oa)
        case.count("undisturbed")
        if not r.ok:
            case.check(fmt in ("protobuf", "go", "graphql", "id", "ddsidl", "apigear", "samm"), f"{fmt}-rejected", lambda: r.brief())
            continue
        want = {p: content(case.path(p)) for p, _ in named}
        if not all(want.values()):
            if w.root.attrs.get("deprecation"):
                continue
            case.check(fmt in ("samm", "protobuf"), f"{fmt}-no-output", lambda: {"outputs": {p: sorted(c) for p, c in want.items()}, **r.brief()})
        size = max((len(b) for c in want.values() for b in c.values()), default=0)

        def judge(r, fault, **info):
            bad = None
            if r.ok:
                for p, isdir in named:
                    got = content(case.path(p)) if os.path.lexists(case.path(p)) else {}
                    x = next((f for f, b in want[p].items() if got.get(f) != b), None)
                    if x is not None:
                        bad = {"output": p, "file": x, "got": None if x not in got else {"bytes": len(got[x]), "tail": got[x][-80:].decode("utf-8", "replace")}, "want_bytes": len(want[p][x])}
            case.check(bad is None, "incomplete" if fault else "existing-output-mixed", lambda: {"format": fmt, **info, **bad, **r.brief()})
            if not fault:
                case.check(r.ok, "existing-output-rejected", lambda: {"format": fmt, **info, **r.brief()})
            else:
                case.count("faults")
                case.count("faults_reported", not r.ok)
            case.state(fmt, info.get("what"), r.code)

        # over what is already there
        for what in rng.sample(["same", "longer", "shorter", "garbage"], 2):
            for p, isdir in named:
                for f, b in want[p].items():
                    q = os.path.join(case.path(p), f) if f else case.path(p)
                    nb = {"same": b, "longer": b + b"\nleft over from before\n" * 40, "shorter": b[:len(b) // 2], "garbage": bytes(rng.randrange(256) for _ in range(rng.randrange(400)))}[what]
                    open(q, "wb").write(nb)
            before = {p: content(case.path(p)) for p, _ in named}
            r = case.export(fmt, *args, *oa)
            case.count("over_existing")
            if fmt == "apigear" and not r.ok and {p: content(case.path(p)) for p, _ in named} == before:
                case.count("existing_directory_refused")  # the exporter never writes to an existing directory
                continue
            judge(r, False, what="over-" + what)

        for kind in rng.sample(["size", "size", "size", "open", "open", "full", "way", "missing"], 4):
            for p, _ in named:
                if rng.random() < 0.7:
                    remove(case.path(p))
            if kind == "size":
                lim = rng.choice([0, 1, max(size - 1, 0), size, rng.randrange(size + 1), rng.randrange(size + 1)])
                r = case.export(fmt, *args, *oa, hook=limit_hook(lim))
                case.count("size_limits")
                judge(r, True, what="size", limit=lim, largest=size)
            elif kind == "open":
                nth = rng.choice([1, 1, 2, rng.randrange(1, 1 + max(1, sum(map(len, want.values()))))])
                err = rng.choice(ERR)
                r = case.export(fmt, *args, *oa, hook=open_hook(nth, err, case.path(d)))
                case.count("failed_opens")
                judge(r, True, what="open", nth=nth, error=errno.errorcode[err])
            elif kind == "full":
                files = [p for p, isdir in named if not isdir]
                if not files:
                    continue
                p = rng.choice(files)
                remove(case.path(p))
                os.symlink("/dev/full", case.path(p))
                r = case.export(fmt, *args, *oa)
                case.count("full_devices")
                empty = not any(want[p].values())
                os.unlink(case.path(p))
                case.check(not r.ok or empty, "full-device-unreported", lambda: {"format": fmt, "output": p, **r.brief()})
                case.count("faults")
                case.count("faults_reported", not r.ok)
                case.state(fmt, "full", r.code)
            elif kind == "way":
                p, isdir = rng.choice(named)
                remove(case.path(p))
                if isdir:
                    case.write(p, "in the way\n")
                else:
                    os.mkdir(case.path(p))
                r = case.export(fmt, *args, *oa)
                case.count("in_the_way")
                judge(r, True, what="way", output=p)
                remove(case.path(p))
            else:
                p, isdir = rng.choice(named)
                oa2 = [a if a != p else f"{d}/no/such/{os.path.basename(p)}" for a in oa]
                r = case.export(fmt, *args, *oa2)
                case.count("in_the_way")
                q = case.path(f"{d}/no/such/{os.path.basename(p)}")
                got = content(q) if os.path.lexists(q) else {}
                x = next((f for f, b in want[p].items() if got.get(f) != b), None)
                case.check(not r.ok or x is None, "missing-directory-unreported", lambda: {"format": fmt, "output": p, "file": x, **r.brief()})
                case.count("faults")
                case.count("faults_reported", not r.ok)
                case.state(fmt, "missing", r.code)
                remove(case.path(f"{d}/no"))


PROBES = {}
