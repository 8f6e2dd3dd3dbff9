#!/opt/venv/bin/python
"""hand.py FILE [-w N] [-j J]: tries hand-written changes (FILE defines M = [(property, file, old, new), ...]) on copies of the repository.

Prints which are not reported by the property's check, and whether the stable tests see them.
"""
import argparse, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "src/vss_tools/vspec/"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("-w", type=int, default=2)
    ap.add_argument("-j", type=int, default=4)
    ap.add_argument("--only", type=int, nargs="*")
    a = ap.parse_args()
    ns = {"B": B, "X": B + "vssexporters/"}
    exec(open(a.file).read(), ns)
    base = tempfile.mkdtemp(prefix="hand-")
    pool = Queue()
    for k in range(a.w):
        d = os.path.join(base, str(k))
        os.makedirs(d)
        subprocess.run(f"git -C /repo archive HEAD | tar x -C {d}", shell=True, check=True)
        pool.put(d)

    def one(j):
        props, f, old, new = ns["M"][j]
        d = pool.get()
        p = os.path.join(d, f)
        orig = open(p).read()
        try:
            if orig.count(old) != 1:
                print(f"#{j} {orig.count(old)} MATCHES {props} {f} {old!r}", flush=True)
                return
            open(p, "w").write(orig.replace(old, new))
            env = dict(os.environ, VERIF_REPO=d, VERIF_JOBS=str(a.j), VERIF_STOP="1", VERIF_EVID=os.path.join(d, "evid"))
            res = []
            for c in props.split():
                r = subprocess.run(["timeout", "600", "./check", c], cwd=V, env=env, capture_output=True, text=True)
                res.append((c, r.returncode))
                if r.returncode == 1:
                    break
            ok = res[-1][1] == 1
            t = ""
            if not ok and f.endswith(".py"):
                r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "tests", "--ignore", "tests/backward_compatibility", "-p", "no:cacheprovider"], cwd=d, env=dict(env, PYTHONPATH=os.path.join(d, "src"), PYTHONDONTWRITEBYTECODE="1", PATH="/opt/venv/bin:" + os.environ["PATH"]), capture_output=True, text=True)
                t = "tests: " + (r.stdout.strip().splitlines() or ["?"])[-1]
            print(f"#{j} {'caught' if ok else 'MISSED'} {res} {f} {new.strip()[:100]!r} {t}", flush=True)
        except Exception as e:
            print(f"#{j} error {e}", flush=True)
        finally:
            open(p, "w").write(orig)
            pool.put(d)
    with ThreadPoolExecutor(a.w) as ex:
        list(ex.map(one, a.only if a.only else range(len(ns["M"]))))
    shutil.rmtree(base)


main()
