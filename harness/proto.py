"""A proto3 reader and linker, written from the language specification (what protoc accepts of the subset used)."""
from __future__ import annotations

import re

TOKEN = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|(?P<id>[A-Za-z_]\w*)|(?P<num>0[xX][0-9a-fA-F]+|\d+)|(?P<str>"(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\\n]|\\.)*\')|(?P<p>[{}=;.,\[\]()<>-])', re.S)
SCALAR = {"double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes"}


class Err(Exception):
    pass


def tokens(text):
    out, i = [], 0
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m:
            raise Err(f"illegal character at {text[i:i + 30]!r}")
        if m.lastgroup:
            out.append((m.lastgroup, m.group()))
        i = m.end()
    return out


def parse(text):
    """{'package': str, 'imports': [..], 'messages': {name: [(label, type, field, number)]}}; raises Err."""
    t = tokens(text)
    i = 0

    def peek():
        return t[i] if i < len(t) else (None, None)

    def take(kind=None, val=None):
        nonlocal i
        k, v = peek()
        if k is None or (kind and k != kind) or (val is not None and v != val):
            raise Err(f"expected {val or kind}, found {v!r}" + f" before {' '.join(x[1] for x in t[i + 1:i + 6])!r}")
        i += 1
        return v

    def dotted(lead=False):
        s = ""
        if lead and peek() == ("p", "."):
            s = take()
        s += take("id")
        while peek() == ("p", "."):
            s += take() + take("id")
        return s
    f = {"package": "", "imports": [], "messages": {}}
    take("id", "syntax"), take("p", "=")
    if take("str")[1:-1] != "proto3":
        raise Err("no proto3")
    take("p", ";")
    seen_package = False
    while i < len(t):
        k, v = peek()
        if v == ";" and k == "p":
            take()
        elif v == "package":
            take()
            if seen_package:
                raise Err("second package statement")
            seen_package = True
            f["package"] = dotted()
            take("p", ";")
        elif v == "import":
            take()
            if peek()[1] in ("public", "weak"):
                take()
            s = take("str")[1:-1]
            if s in f["imports"]:
                raise Err(f"{s} was listed twice")
            f["imports"].append(s)
            take("p", ";")
        elif v == "message":
            take()
            name = take("id")
            if name in f["messages"]:
                raise Err(f"message {name} is already defined")
            fields = []
            take("p", "{")
            while peek() != ("p", "}"):
                label = ""
                if peek()[1] in ("repeated", "optional") and i + 1 < len(t) and (t[i + 1][0] == "id" or t[i + 1][1] == "."):
                    label = take()
                elif peek()[1] == "required":
                    raise Err("required in proto3")
                typ = dotted(True)
                nm = take("id")
                take("p", "=")
                n = int(take("num"), 0)
                take("p", ";")
                if not 1 <= n <= 2**29 - 1:
                    raise Err(f"{name}.{nm}: field number {n} out of range")
                if 19000 <= n <= 19999:
                    raise Err(f"{name}.{nm}: field number {n} is reserved")
                if n in [x[3] for x in fields]:
                    raise Err(f"{name}.{nm}: field number {n} used twice")
                if nm in [x[2] for x in fields]:
                    raise Err(f"{name}.{nm} defined twice")
                fields.append((label, typ, nm, n))
            take("p", "}")
            f["messages"][name] = fields
        else:
            raise Err(f"unexpected {v!r}")
    return f


def link(files, main):
    """Resolves all types as protoc does for `main` and its imports.

    files: {import path: parsed}. Returns {full message name: [(label, resolved type, field, number)]}.
    """
    state = {}
    order = []

    def visit(p, chain):
        if state.get(p) == 1:
            raise Err("import cycle " + " -> ".join(chain + [p]))
        if p in state:
            return
        if p not in files:
            raise Err(f"import {p}: file not found")
        state[p] = 1
        for x in files[p]["imports"]:
            visit(x, chain + [p])
        state[p] = 2
        order.append(p)
    visit(main, [])
    full, packages, where = {}, set(), {}
    for p in order:
        f = files[p]
        parts = f["package"].split(".") if f["package"] else []
        for j in range(len(parts)):
            packages.add(".".join(parts[:j + 1]))
        for m in f["messages"]:
            n = ".".join(parts + [m])
            if n in full:
                raise Err(f"message {n} is defined in two files")
            full[n] = None
            where[n] = p
    for n in full:
        if n in packages:
            raise Err(f"{n} is a message and a package")
    for n in full:
        f = files[where[n]]
        visible = {m for m in full if where[m] == where[n] or where[m] in f["imports"]}
        vp = set()
        for q in [f] + [files[x] for x in f["imports"]]:
            parts = q["package"].split(".") if q["package"] else []
            vp |= {".".join(parts[:j + 1]) for j in range(len(parts))}

        def resolve(typ):
            if typ.startswith("."):
                return typ[1:] if typ[1:] in visible else None
            first, rest = typ.split(".", 1) if "." in typ else (typ, None)
            scope = n.split(".")
            while True:
                c = ".".join(scope + [first])
                if rest is None:
                    if c in visible:
                        return c
                elif c in visible or c in vp:
                    whole = c + "." + rest
                    return whole if whole in visible else None
                if not scope:
                    return None
                scope.pop()
        out = []
        for label, typ, nm, no in f["messages"][n.rsplit(".", 1)[-1]]:
            if typ in SCALAR:
                out.append((label, typ, nm, no))
                continue
            r = resolve(typ)
            if r is None:
                raise Err(f"{n}.{nm}: {typ} is not defined")
            out.append((label, r, nm, no))
        full[n] = out
    return full
