"""Independent decoder and encoder of the documented binary tree format."""
from __future__ import annotations

import struct

HEXD = "0123456789ABCDEF"


class Malformed(Exception):
    pass


FIELDS = ["name", "type", "uuid", "description", "datatype", "min", "max", "unit", "allowed", "default", "validate"]
WIDE = {"description", "allowed"}


def decode(data):
    """Root node {field..., 'children': [...]}; every byte must be used."""
    pos = 0

    def take(n):
        nonlocal pos
        if pos + n > len(data):
            raise Malformed(f"truncated at {pos}, {n} bytes wanted")
        b = data[pos:pos + n]
        pos += n
        return b

    def text(wide):
        n = struct.unpack("<H", take(2))[0] if wide else take(1)[0]
        b = take(n)
        try:
            return b.decode("utf-8")
        except UnicodeDecodeError as e:
            raise Malformed(f"no UTF-8 text at {pos - n}: {e}")

    def allowed_of(s):
        b = s.encode()
        out, i = [], 0
        while i < len(b):
            h = b[i:i + 2].decode("latin-1")
            if len(h) < 2 or h[0] not in HEXD or h[1] not in HEXD:
                raise Malformed(f"bad length {h!r} of allowed element")
            n = int(h, 16)
            if i + 2 + n > len(b):
                raise Malformed("allowed element too long")
            try:
                out.append(b[i + 2:i + 2 + n].decode())
            except UnicodeDecodeError as e:
                raise Malformed(f"allowed element: {e}")
            i += 2 + n
        return out

    def node(depth):
        if depth > 900:
            raise Malformed("nested too deep")
        d = {f: text(f in WIDE) for f in FIELDS}
        d["allowed"] = allowed_of(d["allowed"])
        d["children"] = [node(depth + 1) for _ in range(take(1)[0])]
        return d

    root = node(0)
    if pos != len(data):
        raise Malformed(f"{len(data) - pos} bytes after the tree")
    return root


def walk(n, prefix=""):
    f = prefix + n["name"]
    yield f, n
    for c in n["children"]:
        yield from walk(c, f + ".")


def encode(n):
    def text(s, wide):
        b = s.encode()
        return struct.pack("<H" if wide else "<B", len(b)) + b
    out = b""
    for f in FIELDS:
        v = n.get(f, "")
        if f == "allowed":
            v = "".join("%02X" % len(x.encode()) + x for x in v or [])
        out += text(v, f in WIDE)
    return out + bytes([len(n["children"])]) + b"".join(encode(c) for c in n["children"])


def expected(attrs, name, uuid=""):
    """Fields of one node as the format states them for the attributes the model holds."""
    d = {"name": name, "uuid": uuid}
    for f in FIELDS:
        if f in d:
            continue
        v = attrs.get(f)
        if f == "allowed":
            d[f] = [str(x) for x in v or []]
        else:
            d[f] = "" if v is None else str(v)
    return d
