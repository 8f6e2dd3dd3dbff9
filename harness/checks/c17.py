"""C17: the Go parser agrees with the binary tree and never panics."""
import os
import resource
import shutil
import subprocess

import bintree
import gen
from core import Inconclusive
from runner import REPO

FOREIGN_SHARE = 0.08
TECHNIQUE = "runtime monitoring: panics recorded and reference-tree oracle over operation sequences on the real Go packages"
N_QUICK, N_THOROUGH = 900, 12000
LEVEL_NOTE = "bounds-checked runtime of Go plus reference tree, search and file oracle"
RULE = ("The parser packages are compiled from the working tree into a driver that calls their public functions from a command file, recovering and recording every "
        "panic. Trees: files written by the exporter and files in the documented format that stress depth, width, field sizes and value lists. Each case runs one "
        "random sequence of reads, tree dumps, searches (well-aimed, wildcards, hostile paths, small match limits, no-scope lists, subtree roots), leaf and UUID "
        "lists and write-backs in one process, over new and over existing longer files. Tree dump, search results, lists and written bytes are compared with a reference. "
        "Non-trivial: every case; distinct by tree and operations.")
NEED = {"op_S": 2000, "searches_compared": 1000, "matches_compared": 3000, "nodes_compared": 10000, "files_compared": 200, "lists_compared": 100}
BIN = []


def setup(scratch, tier):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    d = os.path.join(scratch, "godrv")
    os.makedirs(d)
    shutil.copy(os.path.join(here, "native", "go", "driver.go"), d)
    base = "github.com/COVESA/vss-tools/binary/go_parser/"
    gp = os.path.join(REPO, "binary", "go_parser")
    with open(os.path.join(d, "go.mod"), "w") as f:
        f.write("module drv\n\ngo 1.14\n\n" + "".join(f"replace {base}{m} => {gp}/{m}\n" for m in ("datamodel", "parserlib")) +
                "\nrequire (\n" + "".join(f"\t{base}{m} v0.0.0-20220329142604-d2e9f2e54f70\n" for m in ("datamodel", "parserlib")) + ")\n")
    env = dict(os.environ, GOFLAGS="-mod=mod -buildvcs=false", GOPROXY="off", GOTOOLCHAIN="local", GONOSUMDB="*", GOFLAGS_EXTRA="", GONOSUMCHECK="1", HOME=scratch)
    p = subprocess.run(["go", "build", "-o", os.path.join(scratch, "godriver"), "."], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if p.returncode:
        raise Inconclusive(f"the Go parser does not compile: {p.stdout[-2000:]}")
    BIN.append(os.path.join(scratch, "godriver"))


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (200 << 20, 200 << 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def random_case(case, i):
    tree, data = bintree.make(case, i)
    ops, nodes = bintree.program(case, tree)
    bintree.script(case, ops)
    case.sig, case.nontrivial = hash((data, open(case.path("script")).read())), True
    case.note = {"nodes": len(nodes), "bytes": len(data), "operations": len(ops)}
    try:
        case.driven = True
        p = subprocess.run([BIN[0], "script", "result"], cwd=case.dir, env={"PATH": os.environ["PATH"], "GOMAXPROCS": "2"}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        case.fail("hang", {"after": "60 s"})
        return
    with open(case.path("result"), encoding="utf-8", errors="surrogateescape") as f:
        res = f.read()
    if p.returncode != 0:
        got, _ = bintree.parse(res)
        k = max(0, len(got) - 1)
        case.fail("crash", {"exit": p.returncode, "output": p.stdout.decode("utf-8", "replace")[-2500:], "operation": repr(ops[k])[:800] if k < len(ops) else None})
        return
    bintree.judge(case, ops, nodes, tree, data, res, "go")
