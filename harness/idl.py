"""Parser for the OMG IDL 4.2 subset (and the const-in-struct dialect) the DDS-IDL exporter writes: scopes, redefinition, declared-before-use."""
from __future__ import annotations

import keyword
import re

IDL_KW = """abstract any alias attribute bitfield bitmask bitset boolean case char component connector const consumes context custom default double
exception emits enum eventtype factory FALSE finder fixed float getraises home import in inout interface local long manages map mirrorport module multiple
native Object octet oneway out primarykey private port porttype provides public publishes raises readonly setraises sequence short string struct supports
switch TRUE truncatable typedef typeid typename typeprefix unsigned union uses ValueBase valuetype void wchar wstring int8 uint8 int16 int32 int64 uint16
uint32 uint64""".split()
C_KW = """auto break case char const continue default do double else enum extern float for goto if int long register return short signed sizeof static struct
switch typedef union unsigned void volatile while""".split()
RESERVED = {k.lower() for k in IDL_KW + C_KW + keyword.kwlist}
PRIMS = {"octet", "boolean", "float", "double", "string", "short", "long", "long long", "unsigned short", "unsigned long", "unsigned long long",
         "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"}
TOK = re.compile(r"""(?P<ws>[ \t\r\n]+)|(?P<com>//[^\n\r]*)|(?P<str>"(?:\\.|[^"\\\n\r])*")|(?P<num>[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+))|(?P<id>[A-Za-z_][A-Za-z0-9_]*)|(?P<op>::|[{};,<>()=@\[\]])""")


class IdlError(Exception):
    pass


def unquote(s):
    return re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t", "r": "\r"}.get(m[1], m[1]), s[1:-1], flags=re.S)


class Scope:
    def __init__(self, kind, name, parent):
        self.kind, self.name, self.parent = kind, name, parent
        self.names = {}  # lower case name -> (written, thing)
        self.members = []
        self.literals = []
        self.complete = kind != "struct"

    def path(self):
        return (self.parent.path() if self.parent else []) + ([self.name] if self.name else [])


class Member:
    def __init__(self, name, typ, seq, ref, default, rng, consts):
        self.name, self.type, self.seq, self.ref, self.default, self.range = name, typ, seq, ref, default, rng


class Idl:
    def __init__(self, text):
        self.toks, self.comments = [], []
        i = 0
        while i < len(text):
            m = TOK.match(text, i)
            if not m:
                raise IdlError(f"unexpected text {text[i:i + 40]!r} after {text[max(0, i - 60):i]!r}")
            k = m.lastgroup
            if k == "com":
                if m[0].endswith("\\"):
                    raise IdlError("comment ends with a line continuation")
                self.toks.append(("com", m[0]))
            elif k != "ws":
                self.toks.append((k, m[0]))
            i = m.end()
        self.i = 0
        self.root = Scope("module", "", None)
        self.structs = {}  # path -> Scope
        self.order = []
        while self.peek()[0] is not None:
            if self.peek()[0] == "com":
                self.i += 1
                continue
            self.definition(self.root)
        for s in self.structs.values():
            if not s.complete:
                raise IdlError(f"struct {s.path()} declared but not defined")

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else (None, None)

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def expect(self, text):
        t = self.next()
        if t[1] != text or t[0] == "str":
            raise IdlError(f"expected {text!r}, got {t[1]!r} near {[x[1] for x in self.toks[max(0, self.i - 8):self.i + 3]]}")

    def ident(self):
        k, t = self.next()
        if k != "id":
            raise IdlError(f"expected an identifier, got {t!r} near {[x[1] for x in self.toks[max(0, self.i - 8):self.i + 3]]}")
        if t.startswith("_"):
            t = t[1:]
            if not t:
                raise IdlError("empty identifier")
            return t
        if t.lower() in RESERVED:
            raise IdlError(f"reserved word {t} used as identifier")
        return t

    def declare(self, scope, name, thing):
        if name.lower() in scope.names:
            raise IdlError(f"{name} defined twice in {scope.path()}")
        scope.names[name.lower()] = (name, thing)

    def definition(self, scope):
        k, t = self.next()
        if t == "module":
            name = self.ident()
            old = scope.names.get(name.lower())
            if old:
                if old[0] != name or old[1].kind != "module":
                    raise IdlError(f"{name} defined twice in {scope.path()}")
                m = old[1]
            else:
                m = Scope("module", name, scope)
                self.declare(scope, name, m)
            self.expect("{")
            n = 0
            while self.peek()[1] != "}":
                self.definition(m)
                n += 1
            if not n:
                raise IdlError(f"empty module {m.path()}")
            self.expect("}")
            self.expect(";")
        elif t == "struct":
            name = self.ident()
            old = scope.names.get(name.lower())
            if self.peek()[1] == ";":
                self.next()
                if old is None:
                    s = Scope("struct", name, scope)
                    self.declare(scope, name, s)
                    self.structs[tuple(s.path())] = s
                return
            if old:
                if old[0] != name or old[1].kind != "struct" or old[1].complete:
                    raise IdlError(f"{name} defined twice in {scope.path()}")
                s = old[1]
            else:
                s = Scope("struct", name, scope)
                self.declare(scope, name, s)
                self.structs[tuple(s.path())] = s
            self.order.append(tuple(s.path()))
            s.consts, s.comments = {}, []
            self.expect("{")
            while self.peek()[1] != "}":
                self.member(s)
            if not s.members:
                raise IdlError(f"empty struct {s.path()}")
            self.expect("}")
            self.expect(";")
            s.complete = True
        elif t == "enum":
            name = self.ident()
            e = Scope("enum", name, scope)
            self.declare(scope, name, e)
            self.expect("{")
            while True:
                lit = self.ident()
                self.declare(scope, lit, e)
                e.literals.append(lit)
                if self.peek()[1] == ",":
                    self.next()
                    continue
                break
            self.expect("}")
            self.expect(";")
        else:
            raise IdlError(f"unexpected {t!r} near {[x[1] for x in self.toks[max(0, self.i - 8):self.i + 3]]}")

    def const(self, toks, s):
        """const string NAME = "..." ; from a token list"""
        if [x[1] for x in toks[:2]] != ["const", "string"] or len(toks) != 6 or toks[2][0] != "id" or toks[3][1] != "=" or toks[4][0] != "str" or toks[5][1] != ";":
            raise IdlError(f"no constant: {[x[1] for x in toks][:8]}")
        if toks[2][1] in s.consts:
            raise IdlError(f"constant {toks[2][1]} twice")
        s.consts[toks[2][1]] = unquote(toks[4][1])

    def member(self, s):
        k, t = self.peek()
        if k == "com":
            self.next()
            s.comments.append(t[2:])
            return
        if t == "const":
            toks = self.toks[self.i:self.i + 6]
            self.const(toks, s)
            self.declare(s, toks[2][1], "const")
            self.i += 6
            return
        rng = None
        if t == "@":
            self.next()
            if self.next() != ("id", "range"):
                raise IdlError("unknown annotation")
            for x in ("(", "min", "="):
                self.expect(x)
            lo = self.next()
            for x in (",", "max", "="):
                self.expect(x)
            hi = self.next()
            self.expect(")")
            if lo[0] != "num" or hi[0] != "num":
                raise IdlError("range is no number")
            rng = (float(lo[1]), float(hi[1]))
        seq = False
        if self.peek()[1] == "sequence":
            self.next()
            self.expect("<")
            seq = True
        typ, ref = self.type(s, seq)
        if seq:
            self.expect(">")
        name = self.ident()
        default = None
        if self.peek() == ("id", "default"):
            self.next()
            default = (self.value(),)
        self.expect(";")
        self.declare(s, name, "member")
        s.members.append(Member(name, typ, seq, ref, default, rng, None))

    def value(self):
        k, t = self.next()
        if t == "[" and k == "op":
            out = []
            while self.peek()[1] != "]":
                out.append(self.value())
                if self.peek()[1] == ",":
                    self.next()
            self.next()
            return out
        if k == "num":
            return float(t) if any(c in t for c in ".eE") else int(t)
        if k == "str":
            return unquote(t)
        if k == "id":
            if t in ("TRUE", "FALSE"):
                return t == "TRUE"
            self.i -= 1
            return ("literal", self.ident())
        raise IdlError(f"bad value {t!r}")

    def type(self, s, seq):
        k, t = self.peek()
        if t in ("unsigned", "short", "long") or t in PRIMS:
            words = [self.next()[1]]
            while words[0] in ("unsigned", "long") and self.peek()[1] in ("long", "short"):
                words.append(self.next()[1])
            w = " ".join(words)
            if w not in PRIMS:
                raise IdlError(f"bad type {w}")
            return w, None
        absolute = False
        if t == "::":
            self.next()
            absolute = True
        parts = [self.ident()]
        while self.peek()[1] == "::":
            self.next()
            parts.append(self.ident())
        scope = self.root if absolute else s
        while True:
            if parts[0].lower() in scope.names:
                break
            if absolute or scope.parent is None:
                raise IdlError(f"{'::'.join(parts)} is not declared at its use in {s.path()}")
            scope = scope.parent
        for p in parts:
            hit = scope.names.get(p.lower()) if isinstance(scope, Scope) and scope.kind == "module" or scope is s else None
            if hit is None:
                raise IdlError(f"{'::'.join(parts)} does not resolve in {s.path()} (no {p})")
            if hit[0] != p:
                raise IdlError(f"{p} is declared as {hit[0]}")
            scope = hit[1]
        if not isinstance(scope, Scope) or scope.kind == "module":
            raise IdlError(f"{'::'.join(parts)} is no type")
        if scope.kind == "struct" and not scope.complete and not seq:
            raise IdlError(f"{'::'.join(parts)} is used before it is defined in {s.path()}")
        return "::".join(scope.path()), scope
