from bugs.b_three import PRE, SRC, X

PRE = PRE.replace('return leaf(name, type="branch", datatype="X", **kw)', 'return leaf(name, **{"type": "branch", "datatype": "X", **kw})')

UNITS = '''
Q = "length:\\n  definition: d\\n"


def unit(name, *types):
    return f"{name}:\\n  definition: d\\n  unit: {name} unit\\n  quantity: length\\n" + (f"  allowed-datatypes: [{', '.join(types)}]\\n" if types else "")


'''
C = '''
import subprocess


def c_run(w, *words):
    exe = os.path.join(w.dir, "tool")
    src = os.path.join(REPO, "binary", "c_parser")
    p = subprocess.run(["gcc", "-w", "-o", exe, os.path.join(src, "testparser.c"), os.path.join(src, "cparserlib.c"), "-lm"], capture_output=True, text=True)
    expect(p.returncode == 0, p.stderr)
    p = subprocess.run([exe, "t.bin"], cwd=w.dir, input="\\n".join(words) + "\\n", capture_output=True, text=True, timeout=60)
    return p.stdout


'''
BUGS = [
    dict(id="struct-outer-shadows", property="C09",
         edits=[(SRC + "datatypes.py", "            fqn_namespaced_datatypes[(t.split(\".\")[-1])] = t\n", "            fqn_namespaced_datatypes.setdefault(t.split(\".\")[-1], t)\n")],
         needs="two structs of the same name in nested namespaces, the inner one referred to by its short name",
         breaks="the short name stands for the struct of the outer namespace",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + leaf("V.A", datatype="T.B.U"))
    w.write("t.vspec", branch("T") + branch("T.B") + branch("T.S", type="struct") + leaf("T.S.p", type="property", datatype="int8") + branch("T.B.S", type="struct") + leaf("T.B.S.p", type="property", datatype="float")
            + branch("T.B.U", type="struct") + leaf("T.B.U.q", type="property", datatype="S"))
    expect(w.export("yaml", "-s", "m.vspec", "-t", "t.vspec", "-o", "o.yaml") == 0, w.out)
    expect("datatype: T.B.S\\n" in w.read("o.yaml"), w.read("o.yaml"))
'''),
    dict(id="property-is-type", property="C09",
         edits=[(SRC + "tree.py", "        if isinstance(node.data, VSSDataStruct):\n            dynamic_datatypes.add(k)\n", "        if isinstance(node.data, (VSSDataStruct, VSSDataProperty)):\n            dynamic_datatypes.add(k)\n"),
                (SRC + "tree.py", "    VSSDataStruct,\n", "    VSSDataProperty,\n    VSSDataStruct,\n")],
         needs="a signal whose datatype is the name of a property instead of that of a struct",
         breaks="the model is accepted although no such type exists",
         demo=PRE + '''
with World() as w:
    w.write("t.vspec", branch("T") + branch("T.S", type="struct") + leaf("T.S.p", type="property", datatype="int8"))
    for dt, ok in (("T.S", True), ("T.S.p", False), ("T.S.p[]", False)):
        w.write("m.vspec", H + leaf("V.A", datatype=dt))
        expect((w.export("yaml", "-s", "m.vspec", "-t", "t.vspec", "-o", "o.yaml") == 0) == ok, dt + w.out)
'''),
    dict(id="go-prefix-alike", property="C22",
         edits=[(X + "vss2go.py", "                if content == prefix:\n", "                if content.startswith(prefix):\n")],
         needs="a type tree whose root name begins with the name of the signal root",
         breaks="members refer to struct types under a shortened name that is declared nowhere",
         demo=PRE + '''
import re
with World() as w:
    w.write("m.vspec", H + leaf("V.A", datatype="VT.S"))
    w.write("t.vspec", branch("VT") + branch("VT.S", type="struct") + leaf("VT.S.p", type="property", datatype="int8") + branch("VT.U", type="struct") + leaf("VT.U.p", type="property", datatype="VT.S") + branch("VT.B") + branch("VT.B.U", type="struct") + leaf("VT.B.U.p", type="property") + branch("VT.BU", type="struct") + leaf("VT.BU.p", type="property"))
    w.write("m.vspec", H + leaf("V.A", datatype="VT.S"))
    rc = w.export("go", "-s", "m.vspec", "-t", "t.vspec", "-o", "o.go")
    if rc == 0:
        t = w.read("o.go")
        names = set(re.findall(r"^type (\\w+) struct", t, re.M)) | {"uint8", "int8"}
        used = set(re.findall(r"^\\t\\w+ (?:\\[\\])?(\\w+)$", t, re.M))
        expect(used <= names, t)
    w.write("t2.vspec", branch("VT") + branch("VT.VT", type="struct") + leaf("VT.VT.p", type="property", datatype="int8") + branch("VT.S", type="struct") + leaf("VT.S.p", type="property", datatype="int8"))
    w.write("m2.vspec", H + branch("V.S") + leaf("V.S.A", datatype="VT.S"))
    rc = w.export("go", "-s", "m2.vspec", "-t", "t2.vspec", "-o", "o2.go")
    expect(rc == 0, w.out)
    t = w.read("o2.go")
    names = set(re.findall(r"^type (\\w+) struct", t, re.M)) | {"uint8", "int8"}
    used = set(re.findall(r"^\\t\\w+ (?:\\[\\])?(\\w+)$", t, re.M))
    expect(used <= names, t)
    body = re.search(r"type S struct \\{\\n(.*?)\\}", t, re.S).group(1)
    expect("\\tA VTS" in body or "\\tA VT" in body, t)
'''),
    dict(id="go-branch-like-root", property="C22",
         edits=[(X + "vss2go.py", "        if len(split) == 1:\n            structs_new.append(struct.name)\n        else:\n", "        if len(split) > 1:\n")],
         needs="a branch named like the root of the tree",
         breaks="the name clash of shortened names is overlooked and a valid model is refused",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + branch("V.V") + leaf("V.V.A") + leaf("V.B"))
    expect(w.export("go", "-s", "m.vspec", "-o", "o.go") == 0, w.out)
    expect("type VV struct" in w.read("o.go"), w.read("o.go"))
'''),
    dict(id="c-tool-up-child", property="C31",
         edits=[("binary/c_parser/testparser.c", "                    currentNode = VSSgetParent(currentNode);\n                    currentChild = 0;\n", "                    currentNode = VSSgetParent(currentNode);\n")],
         needs="a session that goes right below a node and then up again",
         breaks="the selected child of the parent is the one that was selected below it, possibly one that does not exist",
         demo=PRE + C + '''
with World() as w:
    w.write("m.vspec", H + branch("V.A") + leaf("V.A.X") + leaf("V.A.Y") + leaf("V.A.Z") + branch("V.B") + leaf("V.B.Q"))
    expect(w.export("binary", "-s", "m.vspec", "-o", "t.bin") == 0, w.out)
    a = c_run(w, "d", "u", "d", "q").split("quit: ")
    b = c_run(w, "d", "r", "u", "d", "q").split("quit: ")
    expect(a[2] == b[3] and a[3] == b[4], str(b))
'''),
    dict(id="c-tool-right", property="C31",
         edits=[("binary/c_parser/testparser.c", "                if (currentChild < VSSgetNumOfChildren(currentNode)-1) {\n", "                if (currentChild < VSSgetNumOfChildren(currentNode)) {\n")],
         needs="a session that goes right at the last child",
         breaks="the selection leaves the list of children, reading beyond it",
         demo=PRE + C + '''
with World() as w:
    w.write("m.vspec", H + branch("V.A") + leaf("V.A.X") + branch("V.B") + leaf("V.B.Q"))
    expect(w.export("binary", "-s", "m.vspec", "-o", "t.bin") == 0, w.out)
    a = c_run(w, "r", "d", "q").split("quit: ")
    b = c_run(w, "r", "r", "r", "d", "q").split("quit: ")
    expect(len(b) == 6 and a[2] == b[4], str(b))
'''),
    dict(id="go-tool-down-child", property="C31",
         edits=[("binary/go_parser/testparser.go", "                    currentNode = parser.VSSgetChild(currentNode, currentChild)\n                    currentChild = 0\n", "                    currentNode = parser.VSSgetChild(currentNode, currentChild)\n")],
         needs="a session that goes down into a child other than the first",
         breaks="the selected child below it is not the first one",
         demo=PRE + '''
import subprocess
import shutil
with World() as w:
    w.write("m.vspec", H + branch("V.A") + leaf("V.A.X") + branch("V.B") + leaf("V.B.P") + leaf("V.B.Q"))
    expect(w.export("binary", "-s", "m.vspec", "-o", "t.bin") == 0, w.out)
    gp = os.path.join(REPO, "binary", "go_parser")
    base = "github.com/COVESA/vss-tools/binary/go_parser/"
    w.write("go/go.mod", "module drv\\n\\ngo 1.14\\n\\n" + "".join(f"replace {base}{m} => {gp}/{m}\\n" for m in ("datamodel", "parserlib")) + "".join(f"require {base}{m} v0.0.0-20220329142604-d2e9f2e54f70\\n" for m in ("datamodel", "parserlib")))
    shutil.copy(os.path.join(gp, "testparser.go"), os.path.join(w.dir, "go", "main.go"))
    env = dict(os.environ, GOFLAGS="-mod=mod -buildvcs=false", GOPROXY="off", GOTOOLCHAIN="local", GONOSUMDB="*", GOCACHE=os.path.join(w.dir, "gocache"), HOME=w.dir)
    p = subprocess.run(["go", "build", "-o", "tool", "."], cwd=os.path.join(w.dir, "go"), capture_output=True, text=True, env=env)
    expect(p.returncode == 0, p.stderr)
    p = subprocess.run([os.path.join(w.dir, "go", "tool"), "t.bin"], cwd=w.dir, input="r\\nd\\nd\\nq\\n", capture_output=True, text=True, timeout=60)
    parts = p.stdout.split("quit: ")
    expect(len(parts) == 5 and "= P" in parts[3].replace("name=", "name = ").replace(": ", " = "), str(parts))
'''),
    dict(id="go-whitelist-lost", property="C32", also=["C10"],
         edits=[(X + "vss2go.py", "        extended_attributes=extended_attributes,\n", "")],
         needs="a Go export with --strict and a whitelisted attribute",
         breaks="the whitelist has no effect, the model is refused",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + leaf("V.A", quality=3))
    expect(w.export("go", "-s", "m.vspec", "--strict", "-e", "quality", "-o", "o.go") == 0, w.out)
    expect(w.export("go", "-s", "m.vspec", "--strict", "-o", "o2.go") != 0, "accepted")
'''),
    dict(id="samm-abort-is-strict", property="C32", also=["C10"],
         edits=[(X + "vss2samm/vss2samm.py", "        vspec, include_dirs, aborts, strict, extended_attributes,", "        vspec, include_dirs, aborts, bool(aborts) or strict, extended_attributes,")],
         needs="a SAMM export with one kind of --aborts of a model that violates the other",
         breaks="asking for one kind of check also turns on the other",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + leaf("V.A", quality=3))
    expect(w.export("samm", "-s", "m.vspec", "-a", "name-style", "-tf", "o") == 0, w.out)
    expect(w.export("samm", "-s", "m.vspec", "-a", "unknown-attribute", "-tf", "o2") != 0, "accepted")
'''),
    dict(id="graphql-no-include-dirs", property="C32",
         edits=[(X + "vss2graphql.py", "        include_dirs=include_dirs,\n", "        include_dirs=include_dirs[:1],\n")],
         needs="a GraphQL export with two include directories, the file being in the second",
         breaks="only the first include directory is searched",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + "#include x.vspec V\\n")
    w.write("a/y.vspec", leaf("B"))
    w.write("b/x.vspec", leaf("A"))
    expect(w.export("graphql", "-s", "m.vspec", "-I", "a", "-I", "b", "-o", "o.graphql") == 0, w.out)
'''),
    dict(id="uuid-old-path", property="C29",
         edits=[(SRC + "tree.py", "            node.uuid = uuid.uuid5(namespace_uuid, node.get_fqn()).hex\n", "            node.uuid = uuid.uuid5(namespace_uuid, node.data.fqn or node.get_fqn()).hex\n")],
         needs="nodes two levels below an instance",
         breaks="the UUID is computed from a path recorded before the node was moved",
         demo=PRE + '''
import uuid
with World() as w:
    w.write("m.vspec", H + branch("V.D", instances='["L", "R"]') + branch("V.D.W") + leaf("V.D.W.P") + branch("V.D.W.X") + leaf("V.D.W.X.Y"))
    expect(w.export("yaml", "-s", "m.vspec", "--uuid", "-o", "o.yaml") == 0, w.out)
    import yaml
    ns = uuid.uuid5(uuid.NAMESPACE_OID, "vehicle_signal_specification")
    for f, a in yaml.safe_load(w.read("o.yaml")).items():
        expect(a["uuid"] == uuid.uuid5(ns, f).hex, f)
'''),
    dict(id="delete-when-expanded", property="C07",
         edits=[(SRC + "main.py", "    root.delete_nodes(findall(root, filter_=lambda n: n.get_vss_data().delete))\n", "    if expand:\n        root.delete_nodes(findall(root, filter_=lambda n: n.get_vss_data().delete))\n")],
         needs="an export without instance expansion of a model with a deleted node",
         breaks="the deleted node stays",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + leaf("V.A") + leaf("V.B", delete="true"))
    for a in ([], ["--no-expand"]):
        expect(w.export("yaml", "-s", "m.vspec", *a, "-o", "o.yaml") == 0, w.out)
        expect("V.B" not in w.read("o.yaml"), w.read("o.yaml"))
'''),
    dict(id="boolean-array-name", property="C10",
         edits=[(SRC + "tree.py", "                if node.data.datatype == Datatypes.BOOLEAN[0]:\n", "                if node.data.datatype in (Datatypes.BOOLEAN[0], Datatypes.BOOLEAN_ARRAY[0]):\n")],
         needs="a strict export of a model with an array of booleans",
         breaks="a conforming name is refused",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + leaf("V.Flags", datatype="boolean[]"))
    expect(w.export("yaml", "-s", "m.vspec", "--strict", "-o", "o.yaml") == 0, w.out)
    w.write("m.vspec", H + leaf("V.Flag", datatype="boolean"))
    expect(w.export("yaml", "-s", "m.vspec", "--strict", "-o", "o2.yaml") != 0, "accepted")
'''),
    dict(id="int-lower-bound", property="C05",
         edits=[(SRC + "datatypes.py", "            min = -(2 ** (bits - 1))\n", "            min = -(2 ** (bits - 1) - 1)\n")],
         needs="the smallest value of a signed integer type as default or allowed value",
         breaks="a consistent model is rejected",
         demo=PRE + '''
with World() as w:
    for dt, v in (("int8", -128), ("int16", -32768), ("int32", -2147483648), ("int64", -9223372036854775808)):
        w.write("m.vspec", H + leaf("V.A", type="attribute", datatype=dt, default=v))
        expect(w.export("yaml", "-s", "m.vspec", "-o", "o.yaml") == 0, w.out)
        w.write("m.vspec", H + leaf("V.A", type="attribute", datatype=dt, default=v - 1))
        expect(w.export("yaml", "-s", "m.vspec", "-o", "o2.yaml") != 0, "accepted")
'''),
    dict(id="unit-list-inherited", property="C08",
         edits=[(SRC + "main.py", "    for k, v in unit_data.items():\n        allowed_datatypes = []\n", "    allowed_datatypes: list[str] = []\n    for k, v in unit_data.items():\n")],
         needs="a unit without allowed-datatypes that follows one that has some",
         breaks="the unit takes over the datatypes of the unit before it",
         demo=PRE + UNITS + '''
with World() as w:
    w.write("q.yaml", Q)
    w.write("u.yaml", unit("a", "uint8") + unit("b") + unit("c", "float"))
    for u, dt, ok in (("a", "uint8", 1), ("b", "uint8", 0), ("c", "float", 1), ("c", "uint8", 0)):
        w.write("m.vspec", H + leaf("V.A", datatype=dt, unit=u))
        expect((w.export("yaml", "-s", "m.vspec", "-q", "q.yaml", "-u", "u.yaml", "-o", "o.yaml") == 0) == bool(ok), u + dt + w.out)
'''),
    dict(id="binary-min-zero", property="C15", also=["C16", "C17"],
         edits=[(X + "vss2binary.py", "    f.write(create_l8v_string(str(data.get(\"min\", \"\"))))\n", "    f.write(create_l8v_string(str(data.get(\"min\") or \"\")))\n")],
         needs="a signal whose minimum is 0",
         breaks="the minimum is missing in the binary tree",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + leaf("V.A", min=0, max=9))
    expect(w.export("binary", "-s", "m.vspec", "-o", "o.bin") == 0, w.out)
    b = open(os.path.join(w.dir, "o.bin"), "rb").read()
    expect(b"\\x05uint8\\x010\\x019" in b, b)
'''),
    dict(id="apigear-deprecated-struct", property="C24",
         edits=[(X + "vss2apigear.py", "        struct_name = node_name(node)\n", "        struct_name = node.get_fqn(\"_\")\n")],
         needs="a deprecated struct that a signal uses",
         breaks="the struct is defined under another name than the one its uses refer to",
         demo=PRE + '''
import yaml
with World() as w:
    w.write("m.vspec", H + leaf("V.A", datatype="T.S"))
    w.write("t.vspec", branch("T") + branch("T.S", type="struct", deprecation="old") + leaf("T.S.p", type="property"))
    expect(w.export("apigear", "-s", "m.vspec", "-t", "t.vspec", "--output-dir", "o") == 0, w.out)
    m = yaml.safe_load(w.read("o/V.module.yaml"))
    used = {p["type"] for i in m["interfaces"] for p in i["properties"]}
    expect(used <= {s["name"] for s in m["structs"]}, str(m))
'''),
    dict(id="franca-old-path", property="C26",
         edits=[(X + "vss2franca.py", "            output += f'\\tname: \"{node.get_fqn()}\"'\n", "            output += f'\\tname: \"{data.fqn or node.get_fqn()}\"'\n")],
         needs="nodes two levels below an instance",
         breaks="the signal has the path recorded before the node was moved",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + branch("V.D", instances='["L", "R"]') + branch("V.D.W") + leaf("V.D.W.P") + branch("V.D.W.X") + leaf("V.D.W.X.Y"))
    expect(w.export("franca", "-s", "m.vspec", "-o", "o.fidl") == 0, w.out)
    t = w.read("o.fidl")
    for f in ("V.D", "V.D.L", "V.D.R", "V.D.L.W", "V.D.L.W.P", "V.D.R.W.P", "V.D.L.W.X.Y", "V.D.R.W.X.Y"):
        expect(t.count(f'name: "{f}"') == 1, f + t)
'''),
]
