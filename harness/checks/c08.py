"""C08: unit and quantity definitions are enforced as declared."""
import gen
import ref
from common import *

N_QUICK, N_THOROUGH = 1800, 18000
RULE = ("Random unit and quantity files (1..4 files each, any split and order, default files next to the specification, explicit files that "
        "replace them, duplicates across files, unknown quantities and datatypes, both spellings of the datatype list, empty and missing "
        "lists) and a signal or struct property using a unit by key or name with any scalar or array datatype. Oracle: independent "
        "predicate; accepted exports must show the unit; permuting the files must not change the verdict or the export. "
        "Non-trivial: a unit is used or a definition is broken.")
NEED = {"accepted_models": 250, "rejected_models": 250, "permutations": 200}


def random_case(case, i):
    rng = case.rng
    upper = rng.random() < 0.3
    quantities = {f"{'Q' if upper and j != 1 else 'q'}{j}": {"definition": f"quantity {j}"} for j in range(rng.randint(1, 4))}
    for q in quantities.values():
        if rng.random() < 0.3:
            q["remark" if rng.random() < 0.5 else "comment"] = "c"
    units, perm = {}, {}
    alltypes = ref.SCALARS + ["numeric"]
    errs = []
    for j in range(rng.randint(1, 5)):
        k = f"u{j}"
        dts = rng.sample(alltypes, rng.randint(1, 3) if rng.random() < 0.9 else rng.randint(4, len(alltypes)))
        u = {"definition": "d", "unit": rng.choice([f"Unit {j}", f"U{j}\u00b0", f"unit{j}"]), "quantity": rng.choice(list(quantities))}
        key = rng.choice(["allowed-datatypes"] * 3 + ["allowed_datatypes"])
        r = rng.random()
        if r < 0.15:
            dts = []
            if rng.random() < 0.3:
                u[key] = []
        else:
            u[key] = dts
        if rng.random() < 0.1:
            u["unit"] = None
        units[k] = u
        perm[k] = dts
        if u["unit"]:
            perm[u["unit"]] = dts
    odd = "none"
    r = rng.random()
    if r < 0.06:
        k = rng.choice(list(units))
        units[k]["quantity"] = "nope"
        odd = "unknown-quantity"
    elif r < 0.12:
        k = rng.choice(list(units))
        kk = "allowed-datatypes"
        units[k].pop("allowed_datatypes", None)
        units[k][kk] = perm[k] + [rng.choice(["numerics", "uint", "uint8 ", "Uint8", "int128"])]
        odd = "unknown-datatype"
    elif r < 0.16:
        k = rng.choice(list(units))
        units[k].pop(rng.choice(["definition", "quantity"]))
        odd = "incomplete-unit"
    elif r < 0.19:
        quantities[rng.choice(list(quantities))].pop("definition")
        odd = "incomplete-quantity"
    elif r < 0.21:
        units[rng.choice(list(units))] = None
        odd = "null-unit"
    elif r < 0.23:
        quantities[rng.choice(list(quantities))] = None
        odd = "null-quantity"
    if odd != "none":
        errs.append(odd)

    def split(d, stem):
        nf = rng.randint(1, min(4, max(1, len(d))))
        files = [{} for _ in range(nf)]
        for k, v in d.items():
            rng.choice(files)[k] = v
        out = []
        for j, f in enumerate(files):
            out.append(case.write(f"{stem}{j}.yaml", gen.dump(f) if f else rng.choice(["", "# empty\n"])))
        return out
    qf, uf = split(quantities, "q"), split(units, "u")
    r = rng.random()
    if r < 0.05:
        k = rng.choice(list(units))
        case.write("udup.yaml", gen.dump({k: {"definition": "again", "unit": "Again", "quantity": next(iter(quantities)), "allowed-datatypes": ["numeric"]}}))
        uf.append("udup.yaml")
        errs.append("redefined unit")
        odd = "redefined-unit"
    elif r < 0.1:
        case.write("qdup.yaml", gen.dump({rng.choice(list(quantities)): {"definition": "again"}}))
        qf.append("qdup.yaml")
        errs.append("redefined quantity")
        odd = "redefined-quantity"
    elif r < 0.13:
        uf.append(uf[0])
        if case.read(uf[0]).strip() not in ("", "# empty"):
            errs.append("same unit file twice")
            odd = "unit-file-twice"
    mode = rng.choice(["explicit", "explicit", "default", "default-units", "default-replaced", "none"])
    sdir = "spec/"
    if mode in ("default", "default-units"):
        # only one default file of each kind exists
        case.write(sdir + "units.yaml", gen.dump(units))
        errs = [e for e in errs if e not in ("redefined unit", "same unit file twice")]
        if mode == "default":
            case.write(sdir + "quantities.yaml", gen.dump(quantities))
            errs = [e for e in errs if e != "redefined quantity"]
    elif mode == "default-replaced":
        # defaults that would make anything valid or invalid must not be considered
        case.write(sdir + "units.yaml", gen.dump({"dflt": {"definition": "d", "unit": "Dflt", "quantity": "qd", "allowed-datatypes": alltypes}}))
        case.write(sdir + "quantities.yaml", gen.dump({"qd": {"definition": "d"}}))
    elif mode == "none":
        perm, errs, odd = {}, [], "no-files"

    # the use
    names = list(perm) + ["dflt", "Dflt", "U0", "u9", "unit 0", "", " "] + [n + rng.choice([" ", "s", "."]) for n in perm]
    dt = rng.choice(ref.SCALARS + (["numeric"] if rng.random() < 0.2 else []))
    good = [n for n, d in perm.items() if any(dt in ref.NARROWER[x] for x in d)]
    use = rng.choice(good) if good and rng.random() < 0.5 else rng.choice(names)
    # a use that other units of the same files permit and this one does not
    foreign = [(n, t) for n in perm for t in ref.SCALARS
               if not any(t in ref.NARROWER[x] for x in perm[n]) and any(t in ref.NARROWER[x] for d in perm.values() for x in d)]
    if foreign and rng.random() < 0.2:
        bare = [(n, t) for n, t in foreign if not perm[n]]
        use, dt = rng.choice(bare if bare and rng.random() < 0.6 else foreign)
        case.count("foreign_uses")
    if rng.random() < 0.1:
        use = None
    leaf = {"type": rng.choice(gen.LEAF_TYPES), "datatype": dt + ("[]" if rng.random() < 0.3 else ""), "description": "d"}
    if use is not None:
        leaf["unit"] = use
    m = {"V": {"type": "branch", "description": "d"}, "V.IsX": {"type": "sensor", "datatype": "boolean", "description": "d"}}
    extra = []
    where = rng.choice(["signal", "signal", "overlay", "property", "instance"])
    prop = None
    if where == "property":
        leaf["type"] = "property"
        case.write(sdir + "t.vspec", gen.file_text({"T": {"type": "branch", "description": "d"}, "T.S": {"type": "struct", "description": "d"}, "T.S.P": leaf}))
        extra = ["-t", sdir + "t.vspec"]
    elif where == "instance":
        m["V.I"] = {"type": "branch", "description": "d", "instances": "Row[1,2]"}
        m["V.I.P"] = leaf
    elif where == "overlay":
        m["V.P"] = {"type": "sensor", "datatype": "string", "description": "d"}
        case.write("o.vspec", gen.file_text({"V.P": leaf}))
        extra = ["-l", "o.vspec"]
    else:
        m["V.P"] = leaf
    if use is not None:
        if use not in perm:
            errs.append("unknown unit")
        elif not any(dt in ref.NARROWER[x] for x in perm[use]):
            errs.append("datatype not permitted")
    case.write(sdir + "m.vspec", gen.file_text(m))
    args = ["-s", sdir + "m.vspec"] + extra

    def fargs(qf, uf):
        a = []
        if mode in ("explicit", "default-replaced"):
            for f in qf:
                a += ["-q", f]
            for f in uf:
                a += ["-u", f]
        elif mode == "default-units":
            for f in qf:
                a += ["-q", f]
        return a
    case.sig = model_sig([units, quantities, leaf, mode, where, len(qf), len(uf)])
    case.nontrivial = use is not None or bool(errs)
    case.note = {"units": units, "use": leaf, "mode": mode, "where": where, "errors": errs}
    case.state(mode, where, odd, dt if not errs else errs[-1][:20])
    r1 = case.export("yaml", *args, *fargs(qf, uf), "-o", "out.yaml")
    if errs:
        case.count("rejected_models")
        expect_reject(case, r1, "accepted-" + errs[0].replace(" ", "-"), {"errors": errs, "note": case.note})
    else:
        case.count("accepted_models")
        if case.check(r1.ok, "valid-rejected", lambda: {"note": case.note, **r1.brief()}):
            d = load_yaml(case.read("out.yaml"))
            shown = [(d["ComplexDataTypes"] if where == "property" else d)[k].get("unit") for k in
                     {"property": ["T.S.P"], "instance": ["V.I.Row1.P", "V.I.Row2.P"]}.get(where, ["V.P"])]
            case.check(all(x == use for x in shown), "unit-not-shown", lambda: {"shown": shown, "use": use})
    # the order of the files is irrelevant
    if mode in ("explicit", "default-replaced", "default-units") and len(qf) + len(uf) > 2:
        q2, u2 = qf[:], uf[:]
        rng.shuffle(q2)
        rng.shuffle(u2)
        r2 = case.export("yaml", *args, *fargs(q2, u2), "-o", "perm.yaml")
        case.count("permutations")
        if case.check(r2.code == r1.code or (r2.code != 0 and r1.code != 0), "order-changes-verdict", lambda: {"orders": [qf + uf, q2 + u2], **r2.brief()}) and r1.ok:
            case.check(case.read("out.yaml") == case.read("perm.yaml"), "order-changes-export", lambda: {"orders": [qf + uf, q2 + u2]})
