"""Reads generated aspect models and walks them from the aspect of the root node."""
import os
from collections import Counter

from rdflib import BNode, Graph, Literal, URIRef
from rdflib.collection import Collection
from rdflib.namespace import RDF

BASE = "urn:samm:org.eclipse.esmf.samm"
META, CHAR, UNIT = f"{BASE}:meta-model:2.1.0#", f"{BASE}:characteristic:2.1.0#", f"{BASE}:unit:2.1.0#"
M = lambda n: URIRef(META + n)  # noqa: E731
C = lambda n: URIRef(CHAR + n)  # noqa: E731
SINGLE = [M(x) for x in ("properties", "characteristic", "dataType", "exampleValue", "payloadName", "property", "optional", "operations", "events")] + \
         [C(x) for x in ("values", "defaultValue", "unit", "baseCharacteristic", "minValue", "maxValue")] + [RDF.type]


class Bad(Exception):
    pass


class Models:
    """All .ttl files below a folder, each parsed on its own, and their union."""

    def __init__(self, case, folder, ns):
        self.ns = ns
        self.files = {}
        self.problems = []
        self.g = Graph()
        top = case.path(folder)
        self.names = sorted(os.path.relpath(os.path.join(r, f), top) for r, _, fs in os.walk(top) for f in fs)
        for n in self.names:
            g = Graph()
            try:
                g.parse(data=case.read(os.path.join(folder, n)), format="turtle")
            except Exception as e:
                self.problems.append(("unparsable", {"file": n, "error": str(e)[:400]}))
                continue
            self.files[n] = g
            self.g += g

    def local(self, uri):
        return str(uri)[len(self.ns):]

    def check(self):
        """Declarations and references -> problems."""
        p = self.problems
        declared = {}
        for n, g in self.files.items():
            for s in set(g.subjects()):
                if isinstance(s, BNode):
                    continue
                if not str(s).startswith(self.ns):
                    p.append(("foreign-subject", {"file": n, "subject": str(s)}))
                elif s in declared:
                    p.append(("declared-twice", {"element": str(s), "files": [declared[s], n]}))
                declared[s] = n
                if not list(g.objects(s, RDF.type)):
                    p.append(("untyped", {"element": str(s), "file": n}))
        for s in set(self.g.subjects()):
            for q in SINGLE:
                o = list(self.g.objects(s, q))
                if len(o) > 1:
                    p.append(("several-values", {"element": str(s), "predicate": str(q), "values": [str(x) for x in o][:4]}))
        refs = 0
        for s, q, o in self.g:
            if isinstance(o, URIRef) and str(o).startswith(self.ns):
                refs += 1
                if o not in declared:
                    p.append(("dangling-reference", {"element": str(s), "predicate": str(q), "refers": str(o)}))
        return len(declared), refs

    def aspects(self):
        """{file: [aspects]}"""
        return {n: [self.local(s) for s in g.subjects(RDF.type, M("Aspect"))] for n, g in self.files.items()}

    def one(self, s, q, what):
        o = list(self.g.objects(s, q))
        if len(o) != 1:
            raise Bad(f"{self.local(s)}: {len(o)} {what}")
        return o[0]

    def items(self, s, q):
        o = self.one(s, q, "lists")
        if isinstance(o, Literal):
            raise Bad(f"{self.local(s)}: text instead of a list")
        return list(Collection(self.g, o))

    def walk(self, aspect):
        """[(payload path, property, characteristic, optional)]: every node reached from the aspect; the first has the empty path."""
        a = URIRef(self.ns + aspect)
        props = self.items(a, M("properties"))
        if len(props) != 1:
            raise Bad(f"aspect with {len(props)} properties")
        out = []
        self._walk(props[0], (), out, False)
        return out

    def _walk(self, prop, path, out, optional):
        if len(path) > 60 or len(out) > 5000:
            raise Bad("endless model")
        if (prop, RDF.type, M("Property")) not in self.g:
            raise Bad(f"{prop} is no property")
        ch = self.one(prop, M("characteristic"), "characteristics")
        out.append((path, prop, ch, optional))
        for dt in self.g.objects(ch, M("dataType")):
            if (dt, RDF.type, M("Entity")) not in self.g or not list(self.g.objects(dt, M("properties"))):
                continue
            for it in self.items(dt, M("properties")):
                if isinstance(it, BNode):
                    sub = self.one(it, M("property"), "properties")
                    name = str(self.one(it, M("payloadName"), "payload names"))
                    opt = (it, M("optional"), Literal(True)) in self.g
                else:
                    sub, name, opt = it, self.local(it), False
                self._walk(sub, path + (name,), out, opt)

    def paths(self, aspect):
        return Counter(tuple(x.casefold() for x in p) for p, _, _, _ in self.walk(aspect))
