SRC = "src/vss_tools/vspec/"
X = SRC + "vssexporters/"
PRE = '''
H = "V:\\n  type: branch\\n  description: d\\n"


def leaf(name, **kw):
    kw = {"type": "sensor", "datatype": "uint8", "description": "d", **kw}
    return f"{name}:\\n" + "".join(f"  {k}: {v}\\n" for k, v in kw.items())


def branch(name, **kw):
    return leaf(name, type="branch", datatype="X", **kw).replace("  datatype: X\\n", "")


'''
GO = '''
import subprocess


def go_run(w, body):
    gp = os.path.join(REPO, "binary", "go_parser")
    base = "github.com/COVESA/vss-tools/binary/go_parser/"
    w.write("go.mod", "module drv\\n\\ngo 1.14\\n\\n" + "".join(f"replace {base}{m} => {gp}/{m}\\n" for m in ("datamodel", "parserlib")) + "".join(f"require {base}{m} v0.0.0-20220329142604-d2e9f2e54f70\\n" for m in ("datamodel", "parserlib")))
    w.write("main.go", "package main\\n\\nimport (\\n\\t\\"fmt\\"\\n\\t\\"os\\"\\n\\n\\tp \\"github.com/COVESA/vss-tools/binary/go_parser/parserlib\\"\\n)\\n\\nfunc main() {\\n" + body + "\\n\\tfmt.Println()\\n\\tos.Exit(0)\\n}\\n")
    env = dict(os.environ, GOFLAGS="-mod=mod -buildvcs=false", GOPROXY="off", GOTOOLCHAIN="local", GONOSUMDB="*", GOCACHE=os.path.join(w.dir, "gocache"), HOME=w.dir)
    p = subprocess.run(["go", "run", "."], cwd=w.dir, capture_output=True, text=True, env=env)
    expect(p.returncode == 0, p.stdout + p.stderr)


'''
BUGS = [
    dict(id="include-target-once", property="C01",
         edits=[(SRC + "vspec.py", "    for include in vspec.includes:\n", "    for include in {i.target: i for i in vspec.includes}.values():\n")],
         needs="one file that is included twice by the same file, under two prefixes",
         breaks="only the last of the two includes is followed",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + branch("V.A") + branch("V.B") + "#include x.vspec V.A\\n#include x.vspec V.B\\n")
    w.write("x.vspec", leaf("S"))
    expect(w.export("yaml", "-s", "m.vspec", "-o", "o.yaml") == 0, w.out)
    expect("V.A.S:" in w.read("o.yaml") and "V.B.S:" in w.read("o.yaml"), w.read("o.yaml"))
'''),
    dict(id="overlay-include-dir", property="C02", also=["C01"],
         edits=[(SRC + "vspec.py", "        includes = [s.parent] + include_dirs\n", "        includes = [specs[0].parent] + include_dirs\n")],
         needs="an overlay in another directory that includes a file whose name also exists next to the base specification",
         breaks="the overlay's include takes the file next to the base, so what the overlay states is lost",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + "#include x.vspec V\\n")
    w.write("x.vspec", leaf("S", description="base"))
    w.write("ov/o.vspec", "#include x.vspec V\\n")
    w.write("ov/x.vspec", leaf("S", description="overlay"))
    expect(w.export("yaml", "-s", "m.vspec", "-l", "ov/o.vspec", "-o", "o.yaml") == 0, w.out)
    expect("description: overlay" in w.read("o.yaml"), w.read("o.yaml"))
'''),
    dict(id="single-element-range", property="C03",
         edits=[(SRC + "tree.py", "    if int(match.group(2)) > int(match.group(3)):\n", "    if int(match.group(2)) >= int(match.group(3)):\n")],
         needs="a range of one number",
         breaks="a range such as Row[2,2] is rejected",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + branch("V.S", instances='"Row[2,2]"') + leaf("V.S.A"))
    expect(w.export("yaml", "-s", "m.vspec", "-o", "o.yaml") == 0, w.out)
    expect("V.S.Row2.A:" in w.read("o.yaml"), w.read("o.yaml"))
'''),
    dict(id="arraysize-zero", property="C05",
         edits=[(SRC + "model.py", "        if self.arraysize is not None:\n", "        if self.arraysize:\n")],
         needs="an array size of 0 on a scalar",
         breaks="an array size without an array is accepted when it is 0",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + leaf("V.A", datatype="uint8[]", arraysize=0))
    expect(w.export("json", "-s", "m.vspec", "-o", "o.json") == 0, w.out)
    w.write("m.vspec", H + leaf("V.A", arraysize=0))
    expect(w.export("json", "-s", "m.vspec", "-o", "o.json") != 0, "accepted")
'''),
    dict(id="tree-falsy-attr", property="C13",
         edits=[(X + "vss2tree.py", "            if content is None:\n", "            if not content:\n")],
         needs="a requested attribute whose value is 0, false or empty",
         breaks="the tree export leaves the attribute out",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + leaf("V.A", min=0))
    expect(w.export("tree", "-s", "m.vspec", "-o", "o.txt", "--attr", "min") == 0, w.out)
    expect("min=0" in w.read("o.txt"), w.read("o.txt"))
'''),
    dict(id="schema-empty-branch-open", property="C14",
         edits=[(X + "vss2jsonschema.py", "        if no_additional_properties:\n", "        if no_additional_properties and node.children:\n")],
         needs="--no-additional-properties and a branch without children",
         breaks="an empty branch accepts any property",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + branch("V.B") + leaf("V.A"))
    expect(w.export("jsonschema", "-s", "m.vspec", "-o", "o.json", "--no-additional-properties") == 0, w.out)
    d = json.loads(w.read("o.json"))
    expect(d["additionalProperties"] is False and d["properties"]["B"]["additionalProperties"] is False, d)
'''),
    dict(id="c-search-prefix", property="C16",
         edits=[("binary/c_parser/cparserlib.c", "	if (strcmp(nodeName, pathName) == 0 || strcmp(pathName, \"*\") == 0) {", "	if (strncmp(nodeName, pathName, strlen(nodeName)) == 0 || strcmp(pathName, \"*\") == 0) {")],
         needs="a search for a name that starts with the name of another node",
         breaks="a search also finds nodes whose name is the beginning of the searched one",
         demo=PRE + '''
import subprocess
with World() as w:
    w.write("m.vspec", H + leaf("V.Pos") + leaf("V.Position"))
    expect(w.export("binary", "-s", "m.vspec", "-o", "o.bin") == 0, w.out)
    w.write("main.c", \'#include <stdio.h>\\n#include <stdint.h>\\n#include <stdbool.h>\\n#include "cparserlib.h"\\nstatic searchData_t d[10];\\nint main() { long r = VSSReadTree("o.bin"); int v; return VSSSearchNodes("V.Position", r, 10, d, false, true, 0, NULL, &v); }\\n\')
    lib = os.path.join(REPO, "binary", "c_parser")
    p = subprocess.run(["gcc", "-w", "-I", lib, "main.c", os.path.join(lib, "cparserlib.c"), "-o", "main"], cwd=w.dir, capture_output=True, text=True)
    expect(p.returncode == 0, p.stderr)
    p = subprocess.run(["./main"], cwd=w.dir, capture_output=True, text=True)
    expect(p.returncode == 1, f"found {p.returncode}")
'''),
    dict(id="go-long-description", property="C17",
         edits=[("binary/go_parser/parserlib/parser.go", "        buf[1] = byte((intVal.(uint16) & 0xFF00)/256)\n        buf[0] = byte(intVal.(uint16) & 0x00FF)\n", "        buf[1] = byte((intVal.(uint16) & 0x7F00)/256)\n        buf[0] = byte(intVal.(uint16) & 0x00FF)\n")],
         needs="writing back a description of 32768 bytes or more",
         breaks="the length of a long text is written without its highest bit, so the file does not decode",
         demo=PRE + GO + '''
with World() as w:
    w.write("m.vspec", H + leaf("V.A", description="x" * 33000) + leaf("V.B"))
    expect(w.export("binary", "-s", "m.vspec", "-o", "o.bin") == 0, w.out)
    go_run(w, """	root := p.VSSReadTree("o.bin")
	p.VSSWriteTree("o2.bin", root)""")
    expect(open(os.path.join(w.dir, "o.bin"), "rb").read() == open(os.path.join(w.dir, "o2.bin"), "rb").read(), "files differ")
'''),
    dict(id="proto-optional-repeated", property="C20",
         edits=[(X + "vss2protobuf.py", '''                data_type = "repeated " + data_type
            elif add_optional:
''', '''                data_type = "repeated " + data_type
            if add_optional:
''')],
         needs="--add-optional and an array",
         breaks="an array field is both optional and repeated, which is no valid proto3",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + leaf("V.A", datatype="uint8[]") + leaf("V.B"))
    expect(w.export("protobuf", "-s", "m.vspec", "-o", "o.proto", "--add-optional") == 0, w.out)
    expect("  repeated uint32 A" in w.read("o.proto") and "  optional uint32 B" in w.read("o.proto"), w.read("o.proto"))
'''),
    dict(id="gql-uint32-array", property="C21",
         edits=[(X + "vss2graphql.py", "    Datatypes.UINT32_ARRAY[0]: GraphQLList(GraphQLFloat),\n", "    Datatypes.UINT32_ARRAY[0]: GraphQLList(GraphQLInt),\n")],
         needs="an array of uint32",
         breaks="the element type cannot hold the values of the datatype",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + leaf("V.A", datatype="uint32[]"))
    expect(w.export("graphql", "-s", "m.vspec", "-o", "o.graphql") == 0, w.out)
    expect("value: [Float]" in w.read("o.graphql"), w.read("o.graphql"))
'''),
    dict(id="idl-wstring", property="C23",
         edits=[(X + "vss2ddsidl.py", '    "wstring",\n', '')],
         needs="a node named like the keyword wstring",
         breaks="the keyword is not escaped",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + leaf("V.Wstring"))
    expect(w.export("ddsidl", "-s", "m.vspec", "-o", "o.idl") == 0, w.out)
    expect("struct _Wstring" in w.read("o.idl"), w.read("o.idl"))
'''),
    dict(id="include-dirs-set", property="C27", also=["C01"],
         edits=[(SRC + "main.py", '''    unique_include_dirs = []
    for include_dir in include_dirs:
        if include_dir not in unique_include_dirs:
            unique_include_dirs.append(include_dir)
''', '''    unique_include_dirs = list(set(include_dirs))
''')],
         needs="several include directories with a file of the same name, and another hash seed",
         breaks="which of the files is taken depends on the hash randomisation, not on the order of the options",
         demo=PRE + '''
with World() as w:
    w.write("m/m.vspec", H + "#include x.vspec V\\n")
    for d in "abcd":
        w.write(f"{d}/x.vspec", leaf("S", description=f"from {d}"))
    for seed in "012345":
        expect(w.run("export", "yaml", "-s", "m/m.vspec", "-I", "a", "-I", "b", "-I", "c", "-I", "d", "-o", "o.yaml", seed=seed) == 0, w.out)
        expect("from a" in w.read("o.yaml"), w.read("o.yaml"))
'''),
    dict(id="id-written-before-validation", property="C28",
         edits=[(X + "vss2id.py", '''    id_counter, _ = export_node(signals_yaml_dict, tree, id_counter, case_sensitive)

''', '''    id_counter, _ = export_node(signals_yaml_dict, tree, id_counter, case_sensitive)

    if not validate_only:
        output.write_text(yaml.dump(signals_yaml_dict), encoding="utf-8")

''')],
         needs="a validation file that is rejected",
         breaks="the output is written although the command fails",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + leaf("V.A"))
    w.write("old.vspec", "V:\\n  type: nothing\\n")
    expect(w.export("id", "-s", "m.vspec", "-o", "o.yaml") == 0, w.out)
    expect(w.export("id", "-s", "m.vspec", "-o", "o2.yaml", "--validate-static-uid", "old.vspec") != 0, "accepted")
    expect(not w.exists("o2.yaml"), "output")
'''),
    dict(id="samm-min-zero", property="C25",
         edits=[(X + "vss2samm/helpers/ttl_builder_helper.py", "    if vss_node.data.min is not None:  # type: ignore\n", "    if vss_node.data.min:  # type: ignore\n")],
         needs="a range that begins at 0",
         breaks="the minimum is not part of the constraint",
         demo=PRE + '''
import glob
with World() as w:
    w.write("Vehicle.vspec", branch("Vehicle") + leaf("Vehicle.A", min=0, max=9))
    expect(w.export("samm", "-s", "Vehicle.vspec", "-tf", "out", "--no-split") == 0, w.out)
    t = "".join(open(f).read() for f in glob.glob(os.path.join(w.dir, "out", "**", "*.ttl"), recursive=True))
    expect("minValue" in t and "maxValue" in t, t)
'''),
    dict(id="samm-array-type", property="C25",
         edits=[(X + "vss2samm/helpers/vss_helper.py", "        data_type = data_type[:-2]\n", "        data_type = data_type.strip(\"[]8\")\n")],
         needs="an array of 8 bit integers",
         breaks="the element type of an int8 or uint8 array is not found",
         demo=PRE + '''
import glob
with World() as w:
    w.write("Vehicle.vspec", branch("Vehicle") + leaf("Vehicle.A", datatype="uint8[]"))
    expect(w.export("samm", "-s", "Vehicle.vspec", "-tf", "out", "--no-split") == 0, w.out)
    t = "".join(open(f).read() for f in glob.glob(os.path.join(w.dir, "out", "**", "*.ttl"), recursive=True))
    expect("xsd:unsignedByte" in t, t)
'''),
]
