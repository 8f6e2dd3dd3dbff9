"""A complete random specification on disk, with what an export of it must show."""
from __future__ import annotations

import gen
import ref
import typegen as tg
from common import model_sig
from core import Skip


class World:
    """Writes model, overlays, units and types into the case directory.

    args     command line options that load it
    root     the resolved reference tree (ref.N)
    types    {fqn: attrs} of the resolved type tree (or None)
    """

    def __init__(self, case, types=0.3, overlays=0.3, expand=None, units=True, uuid=0.0, sub="", opts=None, type_refs=0.5,
                 short=0.4, nested_structs=0.15, struct_values=True, inst_over=0.25, same_root=0, type_extras=0, **o):
        rng = case.rng
        kw = dict(hostile=0.3, hostile_values=0.2, instances=rng.choice([0, 0.3, 0.6]), max_nodes=rng.choice([6, 14, 25]))
        kw.update(o)
        self.o = o = opts or gen.Opts(**kw)
        self.sub = sub
        self.uargs = []
        if units:
            table = gen.UNITS if units is True else units
            o.units = table
            self.uargs = gen.units_files(case, table, dirname=sub)
        self.args = ["-s", sub + "m.vspec"]
        self.inputs = [sub + "m.vspec"] + ([sub + "units.yaml", sub + "quantities.yaml"] if units else [])
        self.types = None
        self.type_extra = set()
        self.same_root = False
        self.structs = []
        self.targs = []
        if rng.random() < types:
            ex, exn = o.extras, o.extra_names
            o.extras = 0.0
            if rng.random() < type_extras:
                # the caller has to whitelist them, a type tree is always strict
                self.type_extra = set(rng.sample(o.extra_names, 2))
                o.extras, o.extra_names = 0.4, sorted(self.type_extra)
            troot = "Types"
            if rng.random() < same_root:
                # the signal tree has the name of the type tree, or one that starts alike
                o.roots = ["V"]
                troot = rng.choice(["V", "V", "V", "VA", "VTypes"])
                o.names = ["A", "AB", "B", "S", "S1", "Pos", "Geo", "Speed", "Oil", "V"]
            self.same_root = troot != "Types"
            nodes, full, self.structs = tg.types(rng, o, troot, refs=type_refs, short=short, nested_structs=nested_structs)
            o.extras, o.extra_names = ex, exn
            self.types = tg.resolved(nodes, full)
            case.write(sub + "t.vspec", gen.file_text(nodes, (), rng))
            self.inputs.append(sub + "t.vspec")
            self.targs = ["-t", sub + "t.vspec"]
            o.structs = self.structs
            o.struct_refs = 0.3
        self.args += self.targs
        m = gen.model(rng, o)
        layers = [m]
        case.write(sub + "m.vspec", gen.file_text(m, (), rng))
        if rng.random() < overlays:
            ov = {}
            for f in rng.sample(list(m), min(len(m), rng.randint(1, 4))):
                ov[f] = gen.decorate(rng, o, {"type": m[f]["type"]} if m[f]["type"] == "branch" else
                                     {"type": m[f]["type"], "datatype": m[f]["datatype"]})
                if f.count(".") and rng.random() < 0.15:
                    ov[f]["delete"] = True
            root = next(iter(m))
            if rng.random() < 0.4:
                ov[f"{root}.Added"] = gen.decorate(rng, o, gen.leaf_attrs(rng, o, dt=rng.choice(["uint8", "string", "float"])))
            if inst_over and rng.random() < inst_over and not any(a.get("delete") for a in ov.values()):
                self.override_instances(rng, m, ov)
            layers.append(ov)
            case.write(sub + "o.vspec", gen.file_text(ov, (), rng))
            self.inputs.append(sub + "o.vspec")
            self.args += ["-l", sub + "o.vspec"]
        self.layers = layers
        self.expand = (rng.random() < 0.75) if expand is None else expand
        if not self.expand:
            self.args.append("--no-expand")
        self.uuid = rng.random() < uuid
        if self.uuid:
            self.args.append("--uuid")
        self.args += self.uargs
        try:
            self.root = ref.resolve(layers, self.expand)
        except ref.Bad as e:
            raise Skip(str(e))
        errs = ref.tree_errors(self.root, {**dict(table), **{u + " unit name": d for u, d in table}} if units else {}, self.structs)
        if errs:
            raise Skip("overlay made the model invalid")
        self.flat = {f: n for f, n in self.root.walk()}
        if len(self.flat) > 400:
            raise Skip("expansion too large")
        self.leaves = {f: n for f, n in self.flat.items() if n.attrs["type"] != "branch"}
        self.branches = {f: n for f, n in self.flat.items() if n.attrs["type"] == "branch"}
        case.sig = model_sig([layers, self.types, self.args])
        case.nontrivial = len(self.flat) > 2

    def override_instances(self, rng, m, ov):
        """Statements on nodes that only exist after expansion: changed and added leaves, added branches."""
        n0 = dict(ref.resolve([m]).walk())
        gens = [f for f in n0 if f not in m]
        for f in rng.sample(gens, min(len(gens), rng.randint(1, 3))):
            a = n0[f].attrs
            dt = rng.choice(["uint8", "string", "float[]"])
            if a["type"] != "branch":
                ov[f] = gen.decorate(rng, self.o, {"type": a["type"], "datatype": a["datatype"], "comment": "one instance"})
            elif rng.random() < 0.6:
                ov[f"{f}.Extra"] = gen.decorate(rng, self.o, gen.leaf_attrs(rng, self.o, dt=dt))
            else:
                ov[f"{f}.ExtraB"] = gen.decorate(rng, self.o, {"type": "branch"})
                ov[f"{f}.ExtraB.In"] = gen.decorate(rng, self.o, gen.leaf_attrs(rng, self.o, dt=dt))

    def twice(self):
        """Nodes defined in the signal tree and in the type tree, branches in both aside."""
        return [f for f, a in (self.types or {}).items() if f in self.flat and not (a["type"] == "branch" and self.flat[f].attrs["type"] == "branch")]

    def shown(self, extra=None):
        return ref.shown(self.root, extra, self.expand)

    def types_shown(self):
        return {f: ref.exported(a) for f, a in self.types.items()}


def uuid5(fqn):
    """RFC 4122 version 5, written out."""
    import hashlib

    def v5(ns, name):
        h = bytearray(hashlib.sha1(ns + name.encode("utf-8")).digest()[:16])
        h[6] = (h[6] & 0x0F) | 0x50
        h[8] = (h[8] & 0x3F) | 0x80
        return bytes(h)
    oid = bytes.fromhex("6ba7b8129dad11d180b400c04fd430c8")
    return v5(v5(oid, "vehicle_signal_specification"), fqn).hex()
