"""C26: the Franca file holds one well-formed entry per node with its metadata."""
import re

import gen
import ref
from common import *
from world import World, uuid5

FOREIGN_SHARE = 0.08
TECHNIQUE = "runtime monitoring: parser of the Franca constant array plus reference comparison"
N_QUICK, N_THOROUGH = 900, 12000
RULE = ("Random models with hostile texts (quotes, backslashes, line breaks, braces, separators) in descriptions, allowed values and the version option, instances, overlays, falsy limits, arrays, "
        "with and without --uuid, are exported; a parser of the array syntax (string literals with escapes, numbers, lists, separators only between entries) recovers the entries, which must equal "
        "the model's nodes below the root in tree order. Distinct by model and options.")
NEED = {"entries_compared": 6000, "uuid_entries": 1000, "allowed_compared": 300, "limits_compared": 500}
STR = re.compile(r'"((?:[^"\\]|\\.)*)"|\'((?:[^\'\\]|\\.)*)\'', re.S)
NUM = re.compile(r"-?(?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?")
ESC = {"n": "\n", "t": "\t", "r": "\r", "b": "\b", "f": "\f", '"': '"', "'": "'", "\\": "\\"}


class Err(Exception):
    pass


def unescape(s):
    def f(m):
        c = m.group(1)
        if c[0] == "u" and len(c) == 5 or c[0] == "x" and len(c) == 3:
            return chr(int(c[1:], 16))
        if c not in ESC:
            raise Err(f"escape \\{c}")
        return ESC[c]
    return re.sub(r"\\(u[0-9a-fA-F]{4}|x[0-9a-fA-F]{2}|.)", f, s, flags=re.S)


class P:
    def __init__(self, t):
        self.t, self.i = t, 0

    def ws(self):
        while True:
            m = re.compile(r"\s+|//[^\n]*").match(self.t, self.i)
            if not m:
                return
            self.i = m.end()

    def lit(self, s):
        self.ws()
        if not self.t.startswith(s, self.i):
            raise Err(f"expected {s!r} at {self.t[max(0, self.i - 40):self.i]!r} >>> {self.t[self.i:self.i + 60]!r}")
        self.i += len(s)

    def at(self, s):
        self.ws()
        return self.t.startswith(s, self.i)

    def name(self):
        self.ws()
        m = re.compile(r"[A-Za-z_]\w*").match(self.t, self.i)
        if not m:
            raise Err(f"expected a name at {self.t[self.i:self.i + 60]!r}")
        self.i = m.end()
        return m.group()

    def value(self):
        self.ws()
        m = STR.match(self.t, self.i)
        if m:
            self.i = m.end()
            return unescape(m.group(1) if m.group(1) is not None else m.group(2))
        if self.at("["):
            self.lit("[")
            out = []
            while not self.at("]"):
                if out:
                    self.lit(",")
                out.append(self.value())
            self.lit("]")
            return out
        m = NUM.match(self.t, self.i)
        if m:
            self.i = m.end()
            s = m.group()
            return int(s) if re.fullmatch(r"-?\d+", s) else float(s)
        n = self.name()
        if n.lower() in ("true", "false"):
            return n.lower() == "true"
        raise Err(f"value {n}")


def parse(text):
    p = P(text)
    p.lit("const"), p.lit("UTF8String"), p.lit("VSS_VERSION"), p.lit("=")
    version = p.value()
    p.lit("struct"), p.lit("SignalSpec"), p.lit("{")
    while not p.at("}"):
        p.name(), p.name()
    p.lit("}"), p.lit("const"), p.lit("SignalSpec"), p.lit("["), p.lit("]"), p.lit("signal_spec"), p.lit("="), p.lit("[")
    out = []
    while not p.at("]"):
        if out:
            p.lit(",")
        p.lit("{")
        e = {}
        while not p.at("}"):
            if e:
                p.lit(",")
            k = p.name()
            p.lit(":")
            if k in e:
                raise Err(f"{k} twice in one entry")
            e[k] = p.value()
        p.lit("}")
        out.append(e)
    p.lit("]")
    p.ws()
    if p.i != len(text):
        raise Err(f"text after the array: {text[p.i:p.i + 60]!r}")
    return version, out


def random_case(case, i):
    rng = case.rng
    w = World(case, types=0, expand=True, uuid=0.4, hostile=rng.choice([0.2, 0.8]), hostile_values=rng.choice([0.2, 0.7]), extras=rng.choice([0, 0.2]))
    version = rng.choice([None, "5.0", 'v"5"', "a\\b", "1, 2", "line\nbreak", "it's"])
    args = list(w.args)
    if w.o.extras:
        for x in w.o.extra_names:
            args += ["-e", x]
    if version is not None:
        args += ["--franca-vss-version", version]
    case.note = {"args": args, "nodes": len(w.flat)}
    case.state("version", version is not None, "uuid", w.uuid)
    r = case.export("franca", *args, "-o", "o.fidl")
    if not case.check(r.ok, "rejected", lambda: r.brief()):
        return
    text = case.read("o.fidl")
    try:
        v, got = parse(text)
    except Err as e:
        case.fail("malformed", {"error": str(e), "version": version})
        return
    if version is not None:
        case.check(v == version, "version", lambda: {"got": v, "version": version})
    want = []
    for f, n in w.flat.items():
        if "." not in f:
            continue
        a = n.attrs
        e = {"name": f, "type": a["type"], "description": a["description"]}
        for k in ("datatype", "unit", "min", "max"):
            if a.get(k) is not None:
                e[k] = a[k]
        if a.get("allowed"):
            e["allowed"] = a["allowed"]
        if w.uuid:
            e["uuid"] = uuid5(f)
            case.count("uuid_entries")
        case.count("allowed_compared", "allowed" in e)
        case.count("limits_compared", ("min" in e) + ("max" in e))
        want.append(e)
    case.count("entries_compared", len(want))
    names = [e.get("name") for e in got]
    case.check(sorted(map(str, names)) == sorted(e["name"] for e in want), "entries", lambda: {"missing": [e["name"] for e in want if e["name"] not in names][:5], "extra": [n for n in names if n not in w.flat][:5], "count": [len(names), len(want)]})
    case.check(names == [e["name"] for e in want], "order", lambda: {"got": names[:30], "expected": [e["name"] for e in want][:30]})
    by = {e.get("name"): e for e in got}
    for e in want:
        g = by.get(e["name"])
        if g is not None:
            case.check(g == e and all(type(g[k]) is type(e[k]) for k in e), "entry-" + "-".join(sorted(k for k in set(g) | set(e) if g.get(k) != e.get(k)))[:40], lambda: {"expected": e, "got": g})
