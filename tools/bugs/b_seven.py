from bugs.b_four import C, PRE
from bugs.b_three import SRC, X

BUGS = [
    dict(id="uuid-ascii-names", property="C29",
         edits=[(SRC + "tree.py", "uuid.uuid5(namespace_uuid, node.get_fqn()).hex", 'uuid.uuid5(namespace_uuid, node.get_fqn().encode("ascii", "ignore").decode()).hex')],
         needs="nodes whose names differ only in letters beyond ASCII",
         breaks="different nodes have the same UUID",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + leaf("V.S\\u00e9") + leaf("V.S\\u00fc"))
    expect(w.export("yaml", "-s", "m.vspec", "--uuid", "-o", "o.yaml") == 0, w.out)
    ids = [x for x in w.read("o.yaml").split("\\n") if "uuid:" in x]
    expect(len(ids) == 3 and len(set(ids)) == 3, ids)
'''),
    dict(id="id-ascii-names", property="C18",
         edits=[(SRC + "utils/idgen_utils.py", "    ).encode()\n", '    ).encode("ascii", "replace")\n')],
         needs="nodes whose names differ only in letters beyond ASCII",
         breaks="two different signals have the same identifier",
         demo=PRE + '''
import re

with World() as w:
    ids = []
    for n in ("\\u65e5", "\\u672c"):
        w.write("m.vspec", H + leaf("V.S" + n))
        w.export("id", "-s", "m.vspec", "-o", "o.vspec")
        ids += re.findall(r"staticUID: *[\\"']?(0x[0-9A-Fa-f]+)", w.read("o.vspec"))[-1:]
    expect(len(ids) == 2 and ids[0] != ids[1], ids)
'''),
    dict(id="franca-no-empty-branch", property="C30",
         edits=[(X + "vss2franca.py", "        if node.parent:\n", '        if node.parent and (node.children or hasattr(data, "datatype")):\n')],
         needs="a branch without children",
         breaks="the branch is missing in the Franca file",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + branch("V.A") + branch("V.B") + leaf("V.B.S"))
    expect(w.export("franca", "-s", "m.vspec", "-o", "o.fidl") == 0, w.out)
    expect('"V.A"' in w.read("o.fidl") and '"V.B"' in w.read("o.fidl"), w.read("o.fidl"))
'''),
    dict(id="merge-shallow-mapping", property="C04",
         edits=[(SRC + "tree.py", "        deep_update(self_data, other_data)\n", "        self_data.update(other_data)\n")],
         needs="an extended attribute that is a mapping, of which one instance states a part",
         breaks="the rest of the mapping is lost for that instance",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + branch("V.D", instances="Row[1,2]") + leaf("V.D.S", x="{a: one, b: two}") + leaf("V.D.Row1.S", x="{a: three}"))
    expect(w.export("json", "-s", "m.vspec", "-e", "x", "--pretty", "-o", "o.json") == 0, w.out)
    import json
    x = json.loads(w.read("o.json"))["V"]["children"]["D"]["children"]["Row1"]["children"]["S"]["x"]
    expect(x == {"a": "three", "b": "two"}, x)
'''),
    dict(id="orphans-shown-two", property="C34",
         edits=[(SRC + "main.py", 'log.error(f"Model has orphans\\n{list(orphans.keys())}")', 'log.error(f"Model has orphans\\n{list(orphans.keys())[:2]}")')],
         needs="more than two orphans",
         breaks="the third orphan is not reported",
         demo=PRE + '''
with World() as w:
    w.write("m.vspec", H + leaf("V.S") + leaf("W.One") + leaf("X.Two") + leaf("Y.Three") + leaf("Z.Four"))
    expect(w.export("yaml", "-s", "m.vspec", "-o", "o.yaml") != 0, w.out)
    expect(all(n in w.out.replace("\\n", "") for n in ("W.One", "X.Two", "Y.Three", "Z.Four")), w.out)
'''),
    dict(id="c-tool-search-one-less", property="C31",
         edits=[("binary/c_parser/testparser.c", "VSSSearchNodes(searchPath, rootNode, MAXFOUNDNODES, searchData, true", "VSSSearchNodes(searchPath, rootNode, MAXFOUNDNODES - 1, searchData, true")],
         needs="a search that matches exactly 1500 nodes or more",
         breaks="the last match is not shown",
         demo=PRE + C + '''
with World() as w:
    w.write("m.vspec", H + "".join(branch(f"V.B{b}") + "".join(leaf(f"V.B{b}.S{i}") for i in range(250)) for b in range(6)))
    expect(w.export("binary", "-s", "m.vspec", "-o", "t.bin") == 0, w.out)
    out = c_run(w, "s", "V.*.*", "q")
    expect("Number of elements found=1500" in out, [x for x in out.split("\\n") if "Number" in x])
'''),
]
