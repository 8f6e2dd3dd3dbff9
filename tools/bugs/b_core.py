SRC = "src/vss_tools/vspec/"
BASE = '''
BASE = """
V:
  type: branch
  description: d
V.Seat:
  type: branch
  description: d
  instances: [["Left", "Right"]]
V.Seat.Pos:
  type: sensor
  datatype: uint8
  description: pos
  min: 1
"""
'''
BUGS = [
    dict(id="overlay-null", property="C02",
         edits=[(SRC + "vspec.py", "        else:\n            base[key] = value\n", "        elif value is not None or key not in base:\n            base[key] = value\n")],
         needs="an overlay that takes back an attribute by stating it as null",
         breaks="the last overlay that states an attribute no longer wins when the stated value is null: the base value survives",
         demo=BASE.replace("BASE = ", "B = ") + '''
with World() as w:
    w.write("m.vspec", B)
    w.write("o.vspec", "V.Seat.Pos:\\n  type: sensor\\n  datatype: uint8\\n  min: null\\n  max: 7\\n")
    expect(w.export("json", "-s", "m.vspec", "-l", "o.vspec", "-o", "o.json") == 0, w.out)
    n = json.loads(w.read("o.json"))["V"]["children"]["Seat"]["children"]["Left"]["children"]["Pos"]
    expect("min" not in n and n["max"] == 7, n)
'''),
    dict(id="two-digit-range", property="C03",
         edits=[(SRC + "tree.py", r'''pattern = r".*(\[(\d+),(\d+)\]).*"''', r'''pattern = r".*(\[(\d),(\d+)\]).*"''')],
         needs="an instance range whose first number has two digits",
         breaks="the range is not expanded but taken as one label",
         demo='''
with World() as w:
    w.write("m.vspec", "V:\\n  type: branch\\n  description: d\\n  instances: Row[9,11]\\nV.S:\\n  type: sensor\\n  datatype: uint8\\n  description: d\\n")
    expect(w.export("yaml", "-s", "m.vspec", "-o", "o.yaml") == 0, w.out)
    expect("V.Row11.S:" in w.read("o.yaml"), w.read("o.yaml"))
    w.write("m.vspec", "V:\\n  type: branch\\n  description: d\\n  instances: Row[10,11]\\nV.S:\\n  type: sensor\\n  datatype: uint8\\n  description: d\\n")
    expect(w.export("yaml", "-s", "m.vspec", "-o", "o.yaml") == 0, w.out)
    expect("V.Row11.S:" in w.read("o.yaml"), w.read("o.yaml"))
'''),
    dict(id="override-undeletes", property="C07",
         edits=[(SRC + "tree.py", '''        deep_update(self_data, other_data)
''', '''        deep_update(self_data, {"delete": False, **other_data})
''')],
         needs="a node deleted in its un-expanded form that is also overridden under one instance path",
         breaks="the deletion mark is lost where an instance override is merged, so the node survives in that instance",
         demo='''
with World() as w:
    w.write("m.vspec", """
V:
  type: branch
  description: d
V.Seat:
  type: branch
  description: d
  instances: [["Left", "Right"]]
V.Seat.Pos:
  type: sensor
  datatype: uint8
  description: pos
V.Seat.Other:
  type: sensor
  datatype: uint8
  description: other
V.Seat.Left.Pos:
  type: sensor
  datatype: uint8
  description: left
""")
    w.write("o.vspec", "V.Seat.Pos:\\n  type: sensor\\n  datatype: uint8\\n  delete: true\\n")
    expect(w.export("yaml", "-s", "m.vspec", "-l", "o.vspec", "-o", "o.yaml") == 0, w.out)
    t = w.read("o.yaml")
    expect("Pos" not in t and "V.Seat.Left.Other:" in t, t)
'''),
    dict(id="allowed-first-default", property="C05",
         edits=[(SRC + "model.py", "            for v in values:  # type: ignore", "            for v in list(values)[:1]:  # type: ignore")],
         needs="an array default whose first element is allowed and a later one is not",
         breaks="only the first element of an array default is compared with the allowed values",
         demo='''
with World() as w:
    t = "V:\\n  type: branch\\n  description: d\\nV.S:\\n  type: sensor\\n  datatype: string[]\\n  description: d\\n  allowed: [a, b]\\n  default: [a, %s]\\n"
    w.write("m.vspec", t % "b")
    expect(w.export("yaml", "-s", "m.vspec", "-o", "o.yaml") == 0, w.out)
    w.write("m.vspec", t % "c")
    expect(w.export("yaml", "-s", "m.vspec", "-o", "p.yaml") != 0, "default outside allowed accepted")
'''),
    dict(id="include-prefix-nested", property="C01",
         edits=[(SRC + "vspec.py", '''                self.prefix += f".{split[2]}"''', '''                self.prefix = f"{self.prefix.split('.')[0]}.{split[2]}"''')],
         needs="three include levels that each carry a prefix",
         breaks="the prefixes of nested includes are no longer concatenated beyond two levels",
         demo='''
with World() as w:
    b = "%s:\\n  type: branch\\n  description: d\\n"
    w.write("m.vspec", b % "V" + "#include a.vspec V\\n")
    w.write("a.vspec", b % "A" + "#include b.vspec A\\n")
    w.write("b.vspec", b % "B" + "#include c.vspec B\\n")
    w.write("c.vspec", "S:\\n  type: sensor\\n  datatype: uint8\\n  description: d\\n")
    expect(w.export("yaml", "-s", "m.vspec", "-o", "o.yaml") == 0, w.out)
    expect("V.A.B.S:" in w.read("o.yaml"), w.read("o.yaml"))
'''),
    dict(id="json-empty-dict", property="C11",
         edits=[(SRC + "model.py", "                if v == []:\n                    continue\n                if v is None:\n                    continue", "                if v is None or (not v and not isinstance(v, (bool, int, float))):\n                    continue")],
         needs="an empty string (comment, default) or an empty mapping as attribute value",
         breaks="attributes with an empty string or mapping are dropped from JSON and YAML exports",
         demo='''
with World() as w:
    w.write("m.vspec", "V:\\n  type: branch\\n  description: d\\nV.S:\\n  type: attribute\\n  datatype: string\\n  description: d\\n  default: ''\\n")
    expect(w.export("json", "-s", "m.vspec", "-o", "o.json") == 0, w.out)
    n = json.loads(w.read("o.json"))["V"]["children"]["S"]
    expect(n.get("default") == "", n)
'''),
    dict(id="csv-falsy-default", property="C13",
         edits=[(SRC + "vssexporters/vss2csv.py", '''            getattr_nn(data, "default", ""),''', '''            getattr(data, "default", None) or "",''')],
         needs="a default of zero or false",
         breaks="falsy defaults become empty cells in the CSV export",
         demo='''
import csv
with World() as w:
    w.write("m.vspec", "V:\\n  type: branch\\n  description: d\\nV.S:\\n  type: sensor\\n  datatype: boolean\\n  description: d\\n  default: false\\n")
    expect(w.export("csv", "-s", "m.vspec", "-o", "o.csv") == 0, w.out)
    rows = list(csv.reader(w.read("o.csv").splitlines()))
    expect(rows[2][10] == "False", rows)
'''),
]
