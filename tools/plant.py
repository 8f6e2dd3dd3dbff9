#!/opt/venv/bin/python
"""plant.py [ids...]: makes, validates and tries the bugs described in tools/bugs/*.py.

For each: applies the edit to /repo, writes seeded/<id>/, checks that the stable tests pass with it, that the demonstration passes
without and fails with it, runs the property's check, and undoes the edit.
"""
import glob, json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
sys.path.insert(0, os.path.join(V, "tools"))
sys.dont_write_bytecode = True


def git(*a, **k):
    return subprocess.run(["git", "-C", REPO, *a], capture_output=True, text=True, **k)


def load():
    out = {}
    for f in sorted(glob.glob(os.path.join(V, "tools", "bugs", "b_*.py"))):
        ns = {}
        exec(compile(open(f).read(), f, "exec"), ns)
        for b in ns["BUGS"]:
            assert b["id"] not in out, b["id"]
            out[b["id"]] = b
    return out


BASE = "363c700"


def mine(b):
    """Removed or replaced lines that are no lines of the original repository."""
    out, base = [], {}
    for l in git("diff", "-U0").stdout.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
            base[f] = git("show", f"{BASE}:{f}").stdout.splitlines()
        elif l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in base[f]:
            out.append(l)
    return out


def main():
    bugs = load()
    argv = sys.argv[1:]
    notest = "--notest" in argv
    nocheck = "--nocheck" in argv
    ids = [a for a in argv if not a.startswith("-")] or list(bugs)
    assert not git("status", "--porcelain").stdout.strip(), "repo not clean"
    for i in ids:
        b = bugs[i]
        d = os.path.join(V, "seeded", i)
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(REPO, f)
                s = open(p).read()
                assert s.count(old) == 1, f"{i}: {s.count(old)} matches in {f} of {old!r}"
                open(p, "w").write(s.replace(old, new))
            patch = git("diff").stdout
            own = [l for l in mine(b) if l]
            git("checkout", "--", ".")
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(os.path.join(d, "patch.diff"), "w").write(patch)
            open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            shutil.copy(os.path.join(V, "tools", "bugs", "lib.py"), os.path.join(d, "lib.py"))
            open(os.path.join(d, "demo.py"), "w").write("import json\nimport os\nimport sys\nimport tempfile\n\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom lib import *\n\n" + b["demo"].lstrip("\n"))
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            clean = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=REPO, capture_output=True, text=True)
            r = git("apply", os.path.join(d, "patch.diff"))
            assert r.returncode == 0, r.stderr
            dirty = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=REPO, capture_output=True, text=True)
            tests = "skipped" if notest else subprocess.run(["bash", os.path.join(V, "tools", "t.sh")], capture_output=True, text=True).stdout.strip().splitlines()[-1]
            res = []
            if not nocheck:
                for c in [b["property"]] + b.get("also", []):
                    t = time.time()
                    p = subprocess.run(["./check", c], cwd=V, capture_output=True, text=True)
                    sigs = [l.strip()[:110] for l in p.stdout.splitlines() if l.startswith("  ")][:2]
                    res.append(f"{c}: exit {p.returncode} {time.time()-t:.0f}s {sigs if p.returncode == 1 else p.stdout.strip()[-300:]}")
            ok = clean.returncode == 0 and dirty.returncode != 0 and ("missing []" in tests or notest)
            if own:
                ok = False
                print("not original:", own)
            print(f"{'OK ' if ok else 'BAD'} {i}: demo {clean.returncode}/{dirty.returncode} tests: {tests[-60:]}\n     " + "\n     ".join(res), flush=True)
            if clean.returncode:
                print(clean.stdout[-1500:], clean.stderr[-1500:])
            if not dirty.returncode or "Error" in dirty.stderr:
                print("dirty:", dirty.stdout[-800:], dirty.stderr[-800:])
        except AssertionError as e:
            print(f"BAD {i}: {e}", flush=True)
        finally:
            git("checkout", "--", ".")


main()
