from bugs.b_four import PRE
from bugs.b_three import SRC, X

BUGS = [
    dict(id="include-search-inherited", property="C01",
         edits=[(SRC + "vspec.py", "        vspecs.extend(get_vspecs(includes, include_spec, include.prefix))\n", "        vspecs.extend(get_vspecs(includes + [vspec.source.parent], include_spec, include.prefix))\n")],
         needs="a file in a sub directory that is included by another one, both directories holding a file of the name it includes",
         breaks="the file of the including file's directory is taken instead of the one beside the file with the include",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + "#include a/one.vspec V\\n")
    w.write("a/one.vspec", leaf("One") + "#include b/two.vspec\\n")
    w.write("a/b/two.vspec", leaf("Two") + "#include part.vspec\\n")
    w.write("a/b/part.vspec", leaf("Right"))
    w.write("a/part.vspec", leaf("Wrong"))
    expect(w.export("yaml", "-s", "m.vspec", "-o", "o.yaml") == 0, w.out)
    expect("V.Right:" in w.read("o.yaml") and "Wrong" not in w.read("o.yaml"), w.read("o.yaml"))
'''),
    dict(id="include-prefix-own-name", property="C01",
         edits=[(SRC + "vspec.py", '                new_key = f"{prefix}.{k}"\n', '                new_key = k if k.split(".")[0] == prefix else f"{prefix}.{k}"\n')],
         needs="an included node that is named like the prefix it is included under",
         breaks="the node lands on its own parent",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + "#include x.vspec V\\n")
    w.write("x.vspec", branch("V", description="inner") + leaf("V.S"))
    expect(w.export("yaml", "-s", "m.vspec", "-o", "o.yaml") == 0, w.out)
    expect("V.V:" in w.read("o.yaml") and "V.V.S:" in w.read("o.yaml"), w.read("o.yaml"))
'''),
    dict(id="property-below-property", property="C06",
         edits=[(SRC + "main.py", "            if not isinstance(node.parent.data, VSSDataStruct):\n", "            if not isinstance(node.parent.data, (VSSDataStruct, VSSDataProperty)):\n")],
         needs="a property below a property of a struct",
         breaks="such a type tree is accepted",
         demo=PRE + '''
T = branch("T") + leaf("T.S", type="struct").replace("  datatype: uint8\\n", "") + leaf("T.S.P", type="property")
with World() as w:
    w.write("m.vspec", H + leaf("V.A"))
    w.write("t.vspec", T)
    expect(w.export("yaml", "-s", "m.vspec", "-t", "t.vspec", "-o", "o.yaml") == 0, w.out)
    w.write("t.vspec", T + leaf("T.S.P.Q", type="property"))
    expect(w.export("yaml", "-s", "m.vspec", "-t", "t.vspec", "-o", "p.yaml") != 0, w.out)
'''),
    dict(id="json-whitelist-opens", property="C11", also=["C10"],
         edits=[(X + "vss2json.py", "    data = node.data.as_dict(with_extra_attributes, extended_attributes=extended_attributes)\n", "    data = node.data.as_dict(with_extra_attributes or bool(extended_attributes), extended_attributes=extended_attributes)\n")],
         needs="two unknown attributes of which one is whitelisted, and not --extend-all-attributes",
         breaks="the other one is exported too",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + leaf("V.A", seen=1, unseen=2))
    expect(w.export("json", "-s", "m.vspec", "-e", "seen", "--no-extend-all-attributes", "-o", "o.json") == 0, w.out)
    expect("unseen" not in w.read("o.json") and '"seen"' in w.read("o.json"), w.read("o.json"))
'''),
    dict(id="instance-names-unchecked", property="C10",
         edits=[(SRC + "tree.py", "            if not match:\n                violations.append", "            if not match and not getattr(node.data, \"is_instance\", False):\n                violations.append")],
         needs="an instance label that is no CamelCase name, with --strict",
         breaks="the names of instances are not checked",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + branch("V.B", instances="[left, Right]") + leaf("V.B.S"))
    expect(w.export("yaml", "-s", "m.vspec", "-o", "o.yaml") == 0, w.out)
    expect(w.export("yaml", "-s", "m.vspec", "--strict", "-o", "p.yaml") != 0, w.out)
'''),
    dict(id="csv-description-stripped", property="C13",
         edits=[(X + "vss2csv.py", "            data.description,\n", "            data.description.strip(),\n")],
         needs="a description with blanks or line breaks at its ends",
         breaks="the CSV states another description",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + leaf("V.A", description="'  indented'"))
    expect(w.export("csv", "-s", "m.vspec", "-o", "o.csv") == 0, w.out)
    expect(",  indented," in w.read("o.csv"), w.read("o.csv"))
'''),
    dict(id="root-rename-unseen", property="C19",
         edits=[(SRC + "utils/vss2id_val.py", "                if semantic_match is None:\n", "                if not semantic_match:\n")],
         needs="a second former name that is the first node of the validation file",
         breaks="the rename is reported as an addition and a deletion",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + leaf("V.A"))
    expect(w.export("id", "-s", "m.vspec", "-o", "old.vspec") == 0, w.out)
    w.write("n.vspec", H.replace("V:", "W:") + "  fka: [Q, V]\\n" + leaf("W.A", fka="[Q.A, V.A]"))
    expect(w.export("id", "-s", "n.vspec", "--validate-static-uid", "old.vspec", "-o", "new.vspec") == 0, w.out)
    expect("ADDED" not in w.out and "DELETED" not in w.out, w.out)
'''),
]
