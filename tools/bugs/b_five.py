from bugs.b_four import PRE
from bugs.b_three import SRC, X

DEEP = '''
M = H + branch("V.B", instances="Row[1,2]")
'''
BUGS = [
    dict(id="invalid-node-old-path", property="C34",
         edits=[(SRC + "main.py", "            entry = f\"'{node.get_fqn()} ({node.data.__class__.__name__})',\"\n", "            entry = f\"'{node.data.fqn} ({node.data.__class__.__name__})',\"\n")],
         needs="a wrongly placed node two levels below a branch with instances",
         breaks="the message names a path that does not exist",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + branch("V.B", instances="Row[1,2]") + leaf("V.B.S") + leaf("V.B.S.T"))
    expect(w.export("yaml", "-s", "m.vspec", "-o", "o.yaml") != 0, w.out)
    text = w.out.replace("\\n", "").replace(" ", "")
    expect("V.B.Row1.S.T" in text and "V.B.Row2.S.T" in text, w.out)
'''),
    dict(id="unknown-attribute-once", property="C34",
         edits=[(SRC + "main.py", "    extra_attributes = root.get_extra_attributes(extended_attributes)\n", "    extra_attributes = list({a[1]: a for a in root.get_extra_attributes(extended_attributes)}.values())\n")],
         needs="two nodes with the same unknown attribute",
         breaks="only one of the nodes is named",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + leaf("V.A", foo=1) + leaf("V.B", foo=2))
    expect(w.export("yaml", "-s", "m.vspec", "-o", "o.yaml") == 0, w.out)
    expect("'V.A':'foo'" in w.out and "'V.B':'foo'" in w.out, w.out)
'''),
    dict(id="override-falsy-lost", property="C04",
         edits=[(SRC + "tree.py", "        deep_update(self_data, other_data)\n", "        deep_update(self_data, {k: v for k, v in other_data.items() if v or not self_data.get(k)})\n")],
         needs="the override of an instance's signal with a minimum of zero or a default of false",
         breaks="the instance keeps the common value",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + branch("V.B", instances="Row[1,2]") + leaf("V.B.S", min=2, max=9) + leaf("V.B.Row1.S", min=0))
    expect(w.export("yaml", "-s", "m.vspec", "-o", "o.yaml") == 0, w.out)
    out = w.read("o.yaml")
    expect("min: 0" in out.split("V.B.Row1.S:")[1].split("V.B.Row2")[0], out)
'''),
    dict(id="schema-write-error-logged", property="C33",
         edits=[(X + "vss2jsonschema.py", "    with open(output, \"w\", encoding=\"utf-8\") as output_file:\n        json.dump(json_schema, output_file, indent=indent, sort_keys=False)\n",
                 "    try:\n        with open(output, \"w\", encoding=\"utf-8\") as output_file:\n            json.dump(json_schema, output_file, indent=indent, sort_keys=False)\n    except OSError as e:\n        log.error(f\"Could not write {output}: {e}\")\n")],
         needs="an output on a full device, or in a directory that does not exist",
         breaks="the export exits with 0 without its output",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + leaf("V.A"))
    expect(w.export("jsonschema", "-s", "m.vspec", "-o", "ok.json") == 0, w.out)
    expect(w.export("jsonschema", "-s", "m.vspec", "-o", "none/o.json") != 0, w.out)
'''),
    dict(id="binary-no-truncate", property="C33",
         edits=[(X + "vss2binary.py", "    with open(str(output), \"wb\") as f:\n", "    with open(output, \"r+b\" if output.exists() else \"wb\") as f:\n")],
         needs="an existing output that is longer than the new one",
         breaks="the end of the old output stays behind the new",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + leaf("V.A"))
    w.write("o.bin", "x" * 5000)
    expect(w.export("binary", "-s", "m.vspec", "-o", "new.bin") == 0, w.out)
    expect(w.export("binary", "-s", "m.vspec", "-o", "o.bin") == 0, w.out)
    sizes = [os.path.getsize(os.path.join(w.dir, f)) for f in ("new.bin", "o.bin")]
    expect(sizes[0] == sizes[1], str(sizes))
'''),
    dict(id="const-uid-unchecked", property="C18",
         edits=[(X + "vss2id.py", "    for key, value in get_all_keys_values(data):\n", "    for key, value in get_all_keys_values({} if node_data.constUID else data):\n")],
         needs="a fixed constant that is also the constant of an earlier node",
         breaks="two nodes share an identifier",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + leaf("V.A", constUID="'0x12345678'") + leaf("V.B", constUID="'0x12345678'"))
    expect(w.export("id", "-s", "m.vspec", "-o", "o.yaml") != 0, w.out)
'''),
    dict(id="yaml-types-whitelist", property="C12",
         edits=[(X + "vss2yaml.py", "        datatype_tree_data = datatype_tree.as_flat_dict(extend_all_attributes, extended_attributes)\n", "        datatype_tree_data = datatype_tree.as_flat_dict(extend_all_attributes)\n")],
         needs="a type file with a whitelisted attribute",
         breaks="the attribute is missing in the exported types",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + leaf("V.A", foo=1))
    w.write("t.vspec", branch("T") + branch("T.S", type="struct", foo="bar") + leaf("T.S.p", type="property"))
    expect(w.export("yaml", "-s", "m.vspec", "-t", "t.vspec", "-e", "foo", "-o", "o.yaml") == 0, w.out)
    expect("foo: bar" in w.read("o.yaml") and "foo: 1" in w.read("o.yaml"), w.read("o.yaml"))
'''),
]
