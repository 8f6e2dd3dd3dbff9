"""Case loop, verdicts, evidence, known findings and replay for every check."""
from __future__ import annotations

import csv
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import sys
import tempfile
import time
import traceback

import yaml

import runner

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Inconclusive(Exception):
    pass


class Skip(Exception):
    """The generated case does not apply (counted, never silently folded into 'held')."""


class Case:
    """One workload: a scratch directory, the events seen, the violations found."""

    def __init__(self, prop, name, rng, dir, tier):
        self.prop, self.name, self.rng, self.dir, self.tier = prop, name, rng, dir, tier
        self.events = {}
        self.states = set()
        self.bad = []
        self.note = None
        self.nontrivial = False
        self.sig = None
        self.driven = False  # the code under test has run

    # -- observation ---------------------------------------------------
    def count(self, what, n=1):
        self.events[what] = self.events.get(what, 0) + n

    def state(self, *parts):
        self.states.add("/".join(str(p) for p in parts))

    def fail(self, sig, detail):
        """A violation. sig identifies the mechanism, detail is the witness."""
        if len(self.bad) < 20:
            self.bad.append((sig, detail))

    def check(self, cond, sig, detail):
        self.count("monitor_evaluations")
        if not cond:
            self.fail(sig, detail() if callable(detail) else detail)
        return bool(cond)

    # -- driving -------------------------------------------------------
    def path(self, *p):
        return os.path.join(self.dir, *p)

    def write(self, name, text):
        f = self.path(name)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        if isinstance(text, bytes):
            with open(f, "wb") as fh:
                fh.write(text)
        else:
            with open(f, "w", encoding="utf-8", newline="") as fh:
                fh.write(text)
        return name

    def read(self, name):
        with open(self.path(name), encoding="utf-8", newline="") as fh:
            return fh.read()

    def exists(self, name):
        return os.path.exists(self.path(name))

    def vspec(self, *args, cwd=None, **kw):
        self.count("cli_calls")
        self.driven = True
        return runner.vspec(args, cwd or self.dir, **kw)

    def export(self, fmt, *args, **kw):
        self.count("export_" + fmt)
        r = self.vspec("--log-level", kw.pop("loglevel", "WARNING"), "export", fmt, *args, **kw)
        self.state("exit", fmt, r.code)
        return r


def _seed(prop, seed, name):
    return int.from_bytes(hashlib.sha256(f"{prop}:{seed}:{name}".encode()).digest()[:8], "big")


_MOD = None
_ENV = None
UNREADABLE = (LookupError, ValueError, TypeError, AttributeError, SyntaxError, ArithmeticError, FileNotFoundError, yaml.YAMLError, csv.Error)


def own_file(e, d):
    f = str(e.filename or "")
    return not os.path.isabs(f) or os.path.realpath(f).startswith(os.path.realpath(d) + os.sep)


def _run_one(job):
    kind, name = job
    prop, seed, tier, scratch = _ENV
    rng = random.Random(_seed(prop, seed if kind == "random" else "probe", name))
    d = tempfile.mkdtemp(prefix="c", dir=scratch)
    case = Case(prop, name, rng, d, tier)
    t = time.monotonic()
    err = None
    skip = False
    snap = {}
    try:
        if kind == "random":
            _MOD.random_case(case, int(name))
        else:
            _MOD.PROBES[name](case)
    except Skip as e:
        skip = str(e) or "skip"
    except Inconclusive as e:
        err = "inconclusive: " + str(e)
    except runner.Timeout as e:
        err = "inconclusive: " + str(e)
    except UNREADABLE as e:
        # the judging code reads what the tool wrote; it never stumbles on the outputs this property allows
        if case.driven and not (isinstance(e, FileNotFoundError) and not own_file(e, d)):
            case.fail("unreadable-output", {"error": traceback.format_exc()[-1500:]})
        else:
            err = "harness error: " + traceback.format_exc()
    except Exception:
        err = "harness error: " + traceback.format_exc()
    if case.bad:
        # what was observed before stands
        err, skip = None, False
    if case.bad or err:
        snap = snapshot_text(d)
    shutil.rmtree(d, ignore_errors=True)
    return {"kind": kind, "name": name, "events": case.events, "states": sorted(case.states), "bad": case.bad,
            "note": case.note, "nontrivial": case.nontrivial, "sig": case.sig, "err": err, "skip": skip,
            "files": snap, "dt": time.monotonic() - t}


def snapshot_text(d, limit=60000):
    out = {}
    for root, _, files in os.walk(d):
        for f in sorted(files):
            p = os.path.join(root, f)
            try:
                b = open(p, "rb").read(limit)
            except OSError:
                continue
            out[os.path.relpath(p, d)] = b.decode("utf-8", "backslashreplace")
    return out


def load_known(prop):
    """Lines: `known: property=<id> probe=<name> sig=<signature> <description>` (fixed: lines suppress nothing)."""
    known = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            f = dict(x.split("=", 1) for x in line.split()[1:4])
            if f["property"] == prop:
                known[(f["probe"], f["sig"])] = line.split(None, 4)[4]
    return known


def main(prop, argv):
    global _MOD, _ENV
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    only = None
    n_override = None
    it = iter(argv)
    for a in it:
        if a == "--replay":
            replay = next(it)
        elif a == "--only":
            only = next(it)
        elif a == "--n":
            n_override = int(next(it))
        elif a == "--thorough":
            tier = "thorough"
    t0 = time.monotonic()
    _MOD = importlib.import_module("checks." + prop.lower())
    # what this check's models may contain, whatever other checks it borrows from
    gen = importlib.import_module("gen")
    gen.FOREIGN_SHARE = getattr(_MOD, "FOREIGN_SHARE", 0.0)
    gen.NUMBER_SHARE = getattr(_MOD, "NUMBER_SHARE", 0.0)
    runner.load()
    base = os.environ.get("TMPDIR", "/tmp")
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-", dir=base)
    try:
        return _main(prop, tier, seed, replay, only, n_override, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(prop, tier, seed, replay, only, n_override, t0, scratch):
    global _ENV
    if replay:
        rp = json.load(open(replay))
        seed, tier = rp["seed"], rp["tier"]
    _ENV = (prop, seed, tier, scratch)
    if hasattr(_MOD, "setup"):
        _MOD.setup(scratch, tier)
    probes = list(getattr(_MOD, "PROBES", {}))
    n = (_MOD.N_THOROUGH if tier == "thorough" else _MOD.N_QUICK) if hasattr(_MOD, "random_case") else 0
    n = max(1, int(n * float(os.environ.get("VERIF_SCALE", "1")))) if n else 0
    if n_override is not None:
        n = n_override
    jobs = [("probe", p) for p in probes] + [("random", str(i)) for i in range(n)]
    if replay:
        jobs = [(rp["kind"], rp["case"])]
    if only:
        jobs = [("probe", only)] if only in probes else [("random", only)]
    budget = float(os.environ.get("VERIF_BUDGET", "700" if tier == "thorough" else "420"))
    known = load_known(prop)
    events, states, sigs, samples, errs, skips = {}, set(), set(), [], [], {}
    evaluations = 0
    violations, known_hit = [], {}
    cut = False
    procs = int(os.environ.get("VERIF_JOBS", "8"))
    deadline = t0 + budget
    max_dt = 0
    sig_count = {}
    ctx = mp.get_context("fork")
    with ctx.Pool(procs) as pool:
        for r in pool.imap_unordered(_run_one, jobs, chunksize=1 if len(jobs) < 400 else 4):
            evaluations += 1
            max_dt = max(max_dt, r["dt"])
            for k, v in r["events"].items():
                events[k] = events.get(k, 0) + v
            states.update(r["states"])
            if r["skip"]:
                skips[r["skip"]] = skips.get(r["skip"], 0) + 1
                continue
            if r["err"]:
                errs.append((r["kind"], r["name"], r["err"], r["files"]))
                if len(errs) > 20:
                    break
                continue
            if r["nontrivial"] and r["sig"]:
                sigs.add(r["sig"])
            if r["note"] is not None and (len(samples) < 4 or (r["kind"] == "probe" and len(samples) < 6)):
                samples.append({"case": f'{r["kind"]}:{r["name"]}', "what": r["note"]})
            for sig, detail in r["bad"]:
                if r["kind"] == "probe" and (r["name"], sig) in known:
                    known_hit[(r["name"], sig)] = known[(r["name"], sig)]
                else:
                    violations.append((r, sig, detail))
            if len({v[0]["name"] for v in violations}) > (0 if os.environ.get("VERIF_STOP") else 40):
                cut = True
                pool.terminate()
                break
            if time.monotonic() > deadline:
                cut = True
                pool.terminate()
                break
    wall = time.monotonic() - t0
    if hasattr(_MOD, "finish"):
        _MOD.finish(events, states)
    for (pn, sig), d in sorted(known_hit.items()):
        print(f"KNOWN-FINDING: property={prop} probe={pn} {sig}: {d}")
    code = 0
    first = True
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    seen = set()
    for r, sig, detail in violations:
        if sig in seen and not (only or replay):
            continue
        seen.add(sig)
        if len(seen) > 8:
            break
        path = os.path.join(EVID, "replay", f"{prop}-{r['kind']}-{r['name']}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier, "kind": r["kind"], "case": r["name"], "signature": sig,
                       "witness": detail, "files": r["files"],
                       "how": f"cd /verif && ./check {prop} --replay {os.path.relpath(path, VERIF)}"}, f, indent=1, default=str)
        print(f"VIOLATION property={prop} replay={os.path.relpath(path, VERIF)}")
        print(f"  {sig} [{r['kind']} case {r['name']}]: {json.dumps(detail, default=str)[:1500]}")
        code = 1
    if errs and code == 0:
        for k, nme, e, files in errs[:3]:
            print(f"INCONCLUSIVE property={prop} {k} case {nme}: {e[-3000:]}")
        code = 2
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(_MOD, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(sigs),
            "rule": _MOD.RULE,
            "samples": samples or [{"case": "none", "what": "no case completed"}],
            "events_observed": dict(sorted(events.items())),
            "distinct_states_observed": len(states),
            "states_seen": sorted(states)[:80],
            "probes": len(probes),
            "skipped": skips,
            "cut_short": cut,
            "slowest_case_s": round(max_dt, 3),
            "known_findings_reproduced": len(known_hit),
            "inconclusive_cases": len(errs),
        },
        "assumptions": getattr(_MOD, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    if not (replay or only):
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        # A monitor that saw nothing has not decided anything.
        if code == 0:
            need = getattr(_MOD, "NEED", {"monitor_evaluations": 1})
            for k, v in need.items():
                if events.get(k, 0) < v:
                    print(f"INCONCLUSIVE property={prop}: observed {events.get(k, 0)} {k}, need {v}")
                    code = 2
            if len(sigs) < 2:
                print(f"INCONCLUSIVE property={prop}: only {len(sigs)} distinct non-trivial cases")
                code = 2
    if violations:
        by = {}
        for _, sig, _ in violations:
            by[sig] = by.get(sig, 0) + 1
        print("  signatures: " + ", ".join(f"{k} x{v}" for k, v in sorted(by.items(), key=lambda x: -x[1])[:30]))
    ev_str = ", ".join(f"{k}={v}" for k, v in sorted(events.items()))
    print(f"{prop} {tier} seed={seed}: {evaluations} cases, {len(sigs)} distinct non-trivial, {len(states)} states, "
          f"{len(violations)} violations, {len(known_hit)} known, {sum(skips.values())} skipped, {wall:.1f}s [{ev_str}]")
    return code
