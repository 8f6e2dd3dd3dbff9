SRC = "src/vss_tools/vspec/"
X = SRC + "vssexporters/"
PRE = '''
H = "V:\\n  type: branch\\n  description: d\\n"


def leaf(name, **kw):
    kw = {"type": "sensor", "datatype": "uint8", "description": "d", **kw}
    return f"{name}:\\n" + "".join(f"  {k}: {v}\\n" for k, v in kw.items())


def branch(name, **kw):
    return leaf(name, type="branch", datatype="X", **kw).replace("  datatype: X\\n", "")


'''
BUGS = [
    dict(id="override-loses-arraysize", property="C04", also=["C05"],
         edits=[(SRC + "tree.py", '''        deep_update(self_data, other_data)
''', '''        deep_update(self_data, {"arraysize": None, **other_data} if "datatype" in self_data else other_data)
''')],
         needs="an array of fixed size that is overridden under one instance path",
         breaks="the overridden instance does not inherit the array size, so a default of another size is accepted there",
         demo=PRE + '''
with World() as w:
    B = H + branch("V.S", instances='["L", "R"]') + leaf("V.S.A", datatype="uint8[]", arraysize=2)
    w.write("m.vspec", B + leaf("V.S.L.A", datatype="uint8[]", default="[1, 2]"))
    expect(w.export("json", "-s", "m.vspec", "-o", "o.json") == 0, w.out)
    w.write("m.vspec", B + leaf("V.S.L.A", datatype="uint8[]", default="[1, 2, 3]"))
    expect(w.export("json", "-s", "m.vspec", "-o", "o2.json") != 0, "default of the wrong size")
'''),
    dict(id="only-leaves-validated", property="C06",
         edits=[(SRC + "main.py", "    for node in PreOrderIter(root):\n        ok = True\n", "    for node in root.leaves:\n        ok = True\n")],
         needs="a branch (with a leaf of its own) below a signal",
         breaks="only the parents of leaves are looked at, so a branch below a signal is accepted",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + leaf("V.A") + branch("V.A.B") + leaf("V.A.B.C"))
    expect(w.export("json", "-s", "m.vspec", "-o", "o.json") != 0, "branch below a sensor")
    expect(not w.exists("o.json"), "output")
    w.write("m.vspec", H + branch("V.A") + branch("V.A.B") + leaf("V.A.B.C"))
    expect(w.export("json", "-s", "m.vspec", "-o", "o.json") == 0, w.out)
'''),
    dict(id="uint64-without-uint8", property="C08",
         edits=[(SRC + "datatypes.py", '''    UINT64 = "uint64", is_uint64, ["uint32", "uint16", "uint8"]''', '''    UINT64 = "uint64", is_uint64, ["uint32", "uint16"]''')],
         needs="a unit that lists uint64 used with an uint8 signal",
         breaks="a narrower integer type is not covered by a wider one",
         demo=PRE + '''
with World() as w:
    w.write("q.yaml", "length:\\n  definition: d\\n")
    w.write("u.yaml", "mm:\\n  definition: d\\n  unit: mm\\n  quantity: length\\n  allowed-datatypes: [uint64]\\n")
    for t in ("uint64", "uint32", "uint16", "uint8", "uint8[]"):
        w.write("m.vspec", H + leaf("V.A", datatype=t, unit="mm"))
        expect(w.export("json", "-s", "m.vspec", "-q", "q.yaml", "-u", "u.yaml", "-o", "o.json") == 0, w.out)
'''),
    dict(id="whitelist-substring", property="C10",
         edits=[(SRC + "main.py", "    extra_attributes = root.get_extra_attributes(extended_attributes)\n", "    extra_attributes = root.get_extra_attributes(\",\".join(extended_attributes))  # type: ignore[arg-type]\n")],
         needs="an unknown attribute whose name is a part of a whitelisted one",
         breaks="an attribute counts as whitelisted when its name occurs within a whitelisted name",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + leaf("V.A", source="x", sou="y"))
    expect(w.export("json", "-s", "m.vspec", "--strict", "-e", "source", "-e", "sou", "-o", "o.json") == 0, w.out)
    expect(w.export("json", "-s", "m.vspec", "--strict", "-e", "source", "-o", "o2.json") != 0, "attribute 'sou' accepted")
'''),
    dict(id="drop-empty-strings", property="C12", also=["C11"],
         edits=[(SRC + "model.py", "                if v == []:\n                    continue\n", "                if v == [] or v == \"\":\n                    continue\n")],
         needs="an attribute that is stated as the empty text (a description, a default)",
         breaks="empty texts are left out of the exports, so an exported node may lack its description and does not load again",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + leaf("V.A", datatype="string", description="''", default="''"))
    expect(w.export("yaml", "-s", "m.vspec", "-o", "o.vspec") == 0, w.out)
    expect(w.export("yaml", "-s", "o.vspec", "-o", "o2.vspec") == 0, w.out)
    expect(w.read("o.vspec") == w.read("o2.vspec") and "default: ''" in w.read("o.vspec"), w.read("o.vspec"))
'''),
    dict(id="required-leaves-only", property="C14",
         edits=[(X + "vss2jsonschema.py", '''json_dict[node.name]["required"] = [child.name for child in node.children]''', '''json_dict[node.name]["required"] = [child.name for child in node.children if child.is_leaf]''')],
         needs="--require-all-properties and a branch within a branch",
         breaks="branches are not required",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + branch("V.B") + leaf("V.B.C") + leaf("V.A"))
    expect(w.export("jsonschema", "-s", "m.vspec", "-o", "o.json", "--require-all-properties") == 0, w.out)
    d = json.loads(w.read("o.json"))
    expect(sorted(d["required"]) == ["A", "B"] and d["properties"]["B"]["required"] == ["C"], d)
'''),
    dict(id="allowed-length-digit-a", property="C15",
         edits=[(X + "vss2binary.py", "    if hexInt < 10:\n", "    if hexInt <= 10:\n")],
         needs="an allowed value whose byte length has the hexadecimal digit A",
         breaks="the length prefix of an allowed value of 10, 26, 42.. bytes is written with a wrong digit",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + leaf("V.A", datatype="string", allowed="[abcdefghij, k]"))
    expect(w.export("binary", "-s", "m.vspec", "-o", "o.bin") == 0, w.out)
    d = open(os.path.join(w.dir, "o.bin"), "rb").read()
    expect(b"0Aabcdefghij01k" in d, d)
'''),
    dict(id="c-validate-buffer", property="C16",
         edits=[("binary/c_parser/cparserlib.c", "	char validate[10+1+7+1];  // access control + consent data", "	char validate[10+7+1];  // access control + consent data")],
         needs="writing back a node that is both read-write and with consent",
         breaks="one byte is written behind the buffer of the access control text",
         demo=PRE + '''
import subprocess
with World() as w:
    w.write("m.vspec", H + leaf("V.A", validate="read-write+consent"))
    expect(w.export("binary", "-s", "m.vspec", "-o", "o.bin", "-e", "validate") == 0, w.out)
    w.write("main.c", \'#include <stdio.h>\\n#include <stdint.h>\\n#include <stdbool.h>\\n#include "cparserlib.h"\\nint main() { long r = VSSReadTree("o.bin"); VSSWriteTree("o2.bin", r); return 0; }\\n\')
    lib = os.path.join(REPO, "binary", "c_parser")
    p = subprocess.run(["clang", "-w", "-g", "-O0", "-fsanitize=address", "-I", lib, "main.c", os.path.join(lib, "cparserlib.c"), "-o", "main"], cwd=w.dir, capture_output=True, text=True)
    expect(p.returncode == 0, p.stderr)
    p = subprocess.run(["./main"], cwd=w.dir, capture_output=True, text=True, env={"ASAN_OPTIONS": "detect_leaks=0"})
    expect(p.returncode == 0, p.stderr[:1500])
    expect(open(os.path.join(w.dir, "o.bin"), "rb").read() == open(os.path.join(w.dir, "o2.bin"), "rb").read(), "files differ")
'''),
    dict(id="go-stale-list-mode", property="C17",
         edits=[("binary/go_parser/parserlib/parser.go", "	isGetLeafNodeList = false\n	isGetUuidList = false\n\n	initContext(", "	isGetLeafNodeList = false\n\n	initContext(")],
         needs="a search after a UUID list was written in the same process",
         breaks="the search still is in list mode and returns no node",
         demo=PRE + '''
import subprocess
with World() as w:
    w.write("m.vspec", H + leaf("V.A") + leaf("V.B"))
    expect(w.export("binary", "-s", "m.vspec", "-o", "o.bin", "--uuid") == 0, w.out)
    gp = os.path.join(REPO, "binary", "go_parser")
    base = "github.com/COVESA/vss-tools/binary/go_parser/"
    w.write("go.mod", "module drv\\n\\ngo 1.14\\n\\n" + "".join(f"replace {base}{m} => {gp}/{m}\\n" for m in ("datamodel", "parserlib")) + "".join(f"require {base}{m} v0.0.0-20220329142604-d2e9f2e54f70\\n" for m in ("datamodel", "parserlib")))
    w.write("main.go", """package main

import (
	"fmt"
	"os"

	p "github.com/COVESA/vss-tools/binary/go_parser/parserlib"
)

func main() {
	root := p.VSSReadTree("o.bin")
	a, n := p.VSSsearchNodes("V.*", root, 10, true, true, 0, nil, nil)
	p.VSSGetUuidList(root, "u.json")
	p.VSSGetLeafNodesList(root, "l.json")
	p.VSSGetUuidList(root, "u.json")
	b, m := p.VSSsearchNodes("V.*", root, 10, true, true, 0, nil, nil)
	if n != 2 || m != 2 || a[1].NodePath != b[1].NodePath {
		fmt.Println(n, m, a[1].NodePath, b[1].NodePath)
		os.Exit(1)
	}
}
""")
    env = dict(os.environ, GOFLAGS="-mod=mod -buildvcs=false", GOPROXY="off", GOTOOLCHAIN="local", GONOSUMDB="*", GOCACHE=os.path.join(w.dir, "gocache"), HOME=w.dir)
    p = subprocess.run(["go", "run", "."], cwd=w.dir, capture_output=True, text=True, env=env)
    expect(p.returncode == 0, p.stdout + p.stderr)
'''),
    dict(id="unicode-lower", property="C18",
         edits=[(SRC + "utils/idgen_utils.py", "        return node_identifier.lower()\n", "        return node_identifier.decode().lower().encode()\n")],
         needs="an upper case letter beyond ASCII in an allowed value or a unit",
         breaks="the hash input is no longer the documented one for such nodes, so their identifier changes",
         demo=PRE + '''
def fnv(s):
    h = 2166136261
    for b in s:
        h = (h * 16777619 & 0xFFFFFFFF) ^ b
    return f"0x{h:08X}"


with World() as w:
    w.write("m.vspec", H + leaf("V.A", datatype="string", allowed='["\\u00c4B"]'))
    expect(w.export("id", "-s", "m.vspec", "-o", "o.yaml") == 0, w.out)
    want = fnv("V.A: unit: , datatype: string, type: sensorallowed: ['\\u00c4B']min: max: ".encode().lower())
    expect(want in w.read("o.yaml") or fnv("V.A: unit: , datatype: string, type: sensorallowed: ['\\u00c4B']min: max: ".strip().encode().lower()) in w.read("o.yaml"), w.read("o.yaml"))
'''),
    dict(id="first-fka-only", property="C19",
         edits=[(SRC + "utils/vss2id_val.py", '''            for fka_val in v["fka"]:\n''', '''            for fka_val in v["fka"][:1]:\n''')],
         needs="a node with two former names of which the second is the name in the validation file",
         breaks="only the first former name is looked up, so a rename is reported as an addition and a deletion",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + leaf("V.Old"))
    expect(w.export("id", "-s", "m.vspec", "-o", "old.vspec") == 0, w.out)
    w.write("m.vspec", H + leaf("V.New", fka='["V.Mid", "V.Old"]'))
    expect(w.export("id", "-s", "m.vspec", "-o", "new.vspec", "--validate-static-uid", "old.vspec") == 0, w.out)
    expect("it used to be 'V.Old'" in " ".join(w.out.split()) and "DELETED" not in w.out and "ADDED" not in w.out, w.out)
'''),
    dict(id="description-case", property="C19",
         edits=[(SRC + "utils/vss2id_val.py", '''            assert v["description"] == data.description\n''', '''            assert v["description"].strip() == data.description.strip()\n''')],
         needs="a description change that is only in blanks at its ends",
         breaks="such a change is not reported",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + leaf("V.A", description='"text"'))
    expect(w.export("id", "-s", "m.vspec", "-o", "old.vspec") == 0, w.out)
    w.write("m.vspec", H + leaf("V.A", description='"text "'))
    expect(w.export("id", "-s", "m.vspec", "-o", "new.vspec", "--validate-static-uid", "old.vspec") == 0, w.out)
    expect("DESCRIPTION MISMATCH" in w.out, w.out)
'''),
    dict(id="proto-reserved-19999", property="C20",
         edits=[(X + "vss2protobuf.py", "            if fieldNumber < 20000 and fieldNumber >= 19000:\n", "            if fieldNumber < 19999 and fieldNumber >= 19000:\n")],
         needs="a static identifier that maps to the last number of the reserved range",
         breaks="a field gets the number 19999, which protobuf reserves",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H.replace("description: d", "description: d\\n  staticUID: '0x00000400'") + leaf("V.A", staticUID="'" + hex(20000 * 8) + "'"))
    expect(w.export("protobuf", "-s", "m.vspec", "-o", "o.proto", "--static-uid", "-e", "staticUID") == 0, w.out)
    for n in (19000, 19500, 19999):
        w.write("m.vspec", H.replace("description: d", "description: d\\n  staticUID: '0x00000400'") + leaf("V.A", staticUID="'" + hex(n * 8) + "'"))
        expect(w.export("protobuf", "-s", "m.vspec", "-o", "o2.proto", "--static-uid", "-e", "staticUID") != 0, f"number {n}")
'''),
    dict(id="gql-branch-deprecation", property="C21",
         edits=[(X + "vss2graphql.py", "        deprecation_reason=data.deprecation,\n", "        deprecation_reason=data.deprecation if description_prefix else None,\n")],
         needs="a deprecated branch or signal as field of its parent",
         breaks="the field of a deprecated node is not marked as deprecated",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + branch("V.B", deprecation="gone") + leaf("V.B.C"))
    expect(w.export("graphql", "-s", "m.vspec", "-o", "o.graphql") == 0, w.out)
    expect('b: V_B @deprecated(reason: "gone")' in w.read("o.graphql"), w.read("o.graphql"))
'''),
    dict(id="idl-range-zero", property="C23",
         edits=[(X + "vss2ddsidl.py", "            if min is not None and max is not None and generate_all_idl_features:\n", "            if min is not None and max and generate_all_idl_features:\n")],
         needs="a range that ends at 0, with --all-idl-features",
         breaks="the range is not stated",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + leaf("V.A", datatype="int8", min=-5, max=0))
    expect(w.export("ddsidl", "-s", "m.vspec", "-o", "o.idl", "--all-idl-features") == 0, w.out)
    expect("@range(min=-5 ,max=0)" in w.read("o.idl"), w.read("o.idl"))
'''),
    dict(id="apigear-array-of-struct", property="C24",
         edits=[(X + "vss2apigear.py", '''    if is_array and apigear_type is not None:\n''', '''    if is_array and t.count(".") < 3:\n''')],
         needs="an array of a user struct in a namespace two levels below the types root",
         breaks="an array of structs is exported as a single struct",
         demo=PRE + '''
import yaml
T = "Types:\\n  type: branch\\n  description: d\\nTypes.B:\\n  type: branch\\n  description: d\\nTypes.B.C:\\n  type: branch\\n  description: d\\nTypes.B.C.S:\\n  type: struct\\n  description: d\\nTypes.B.C.S.x:\\n  type: property\\n  datatype: uint8\\n  description: d\\n"
with World() as w:
    w.write("m.vspec", H + leaf("V.A", datatype="Types.B.C.S[]"))
    w.write("t.vspec", T)
    expect(w.export("apigear", "-s", "m.vspec", "--types", "t.vspec", "--output-dir", "o") == 0, w.out)
    d = yaml.safe_load(w.read("o/V.module.yaml"))
    p = d["interfaces"][0]["properties"][0]
    expect(p["type"] == d["structs"][0]["name"] and p.get("array") is True, d)
'''),
    dict(id="franca-max-equals-min", property="C26",
         edits=[(X + "vss2franca.py", "            if max is not None:\n", "            if max is not None and max != min:\n")],
         needs="a signal whose maximum equals its minimum",
         breaks="the maximum is left out",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + leaf("V.A", min=7, max=7) + leaf("V.B", min=1, max=9))
    expect(w.export("franca", "-s", "m.vspec", "-o", "o.fidl") == 0, w.out)
    expect("max: 7" in w.read("o.fidl") and "max: 9" in w.read("o.fidl"), w.read("o.fidl"))
'''),
    dict(id="proto-unsorted-imports", property="C27",
         edits=[(X + "vss2protobuf.py", "    imports.sort()\n", "")],
         needs="two imports and another seed of the hash randomisation",
         breaks="the order of the import statements depends on the hash seed",
         demo=PRE + '''
T = "Types:\\n  type: branch\\n  description: d\\n" + "".join(f"Types.{b}:\\n  type: branch\\n  description: d\\nTypes.{b}.S:\\n  type: struct\\n  description: d\\nTypes.{b}.S.x:\\n  type: property\\n  datatype: uint8\\n  description: d\\n" for b in "ABCDEF")
with World() as w:
    w.write("m.vspec", H + "".join(leaf(f"V.{b}", datatype=f"Types.{b}.S") for b in "ABCDEF"))
    w.write("t.vspec", T)
    outs = set()
    for seed in "0123":
        expect(w.run("export", "protobuf", "-s", "m.vspec", "--types", "t.vspec", "--types-out-dir", "td", "-o", "o.proto", seed=seed) == 0, w.out)
        outs.add(w.read("o.proto"))
    expect(len(outs) == 1, outs)
'''),
    dict(id="franca-early-truncate", property="C28",
         edits=[(X + "vss2franca.py", '    log.info("Generating Franca output...")\n', '    log.info("Generating Franca output...")\n    # an output that cannot be written is better known before the work\n    output.write_text("")\n')],
         needs="a rejected specification and an existing output file",
         breaks="a failed export empties the existing output",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + leaf("V.A"))
    expect(w.export("franca", "-s", "m.vspec", "-o", "o.fidl") == 0, w.out)
    old = w.read("o.fidl")
    expect(w.export("franca", "-s", "m.vspec", "-o", "o.fidl") == 0 and w.read("o.fidl") == old, "again")
    w.write("m.vspec", H + leaf("V.A", datatype="uint7"))
    expect(w.export("franca", "-s", "m.vspec", "-o", "o.fidl") != 0, "accepted")
    expect(w.read("o.fidl") == old, "output was touched")
'''),
    dict(id="schema-uuid-leaves", property="C29",
         edits=[(X + "vss2jsonschema.py", "        if print_uuid:\n", "        if print_uuid and isinstance(data, VSSDataDatatype):\n")],
         needs="a JSON schema with UUIDs and all extended attributes of a model with nested branches",
         breaks="branches have no UUID in the JSON schema",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + branch("V.B") + leaf("V.B.C"))
    expect(w.export("jsonschema", "-s", "m.vspec", "-o", "o.json", "--uuid", "--extend-all-attributes") == 0, w.out)
    expect(w.export("csv", "-s", "m.vspec", "-o", "o.csv", "--uuid") == 0, w.out)
    d = json.loads(w.read("o.json"))
    expect(d["properties"]["B"]["x-uuid"] in w.read("o.csv"), d)
'''),
    dict(id="franca-drops-deprecated", property="C30", also=["C26"],
         edits=[(X + "vss2franca.py", "        if node.parent:\n", "        if node.parent and not data.deprecation:\n")],
         needs="a deprecated signal",
         breaks="the Franca export leaves out deprecated nodes that all others contain",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + leaf("V.A", deprecation="gone") + leaf("V.B"))
    expect(w.export("franca", "-s", "m.vspec", "-o", "o.fidl") == 0, w.out)
    expect('"V.A"' in w.read("o.fidl") and '"V.B"' in w.read("o.fidl"), w.read("o.fidl"))
'''),
]
