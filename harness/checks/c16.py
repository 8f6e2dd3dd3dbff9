"""C16: the C parser is memory safe and agrees with the binary tree."""
import os
import resource
import subprocess

import bintree
import gen
from core import Inconclusive
from runner import REPO

FOREIGN_SHARE = 0.08
TECHNIQUE = "compiler sanitizers (ASan, UBSan, MSan) on the real C library plus reference-tree oracle over operation sequences"
N_QUICK, N_THOROUGH = 700, 8000
LEVEL_NOTE = "address, undefined-behaviour and memory (uninitialised data) sanitizers over random trees and operation sequences"
RULE = ("The parser library is compiled from the working tree with clang -fsanitize=address,undefined and again with -fsanitize=memory, driven by a command file "
        "through its public functions with buffers of exactly the stated size. Trees: files written by the exporter and files in the documented format that "
        "stress depth, width, field sizes and value lists. Each case runs one random sequence of reads, tree dumps, searches (well-aimed, wildcards, hostile paths, "
        "small match limits, no-scope lists, subtree roots), leaf and UUID lists and write-backs in one process under one of the sanitizers. Any report, crash or hang is a violation; "
        "tree dump, search results, lists and written bytes are compared with a reference. Non-trivial: every case; distinct by tree and operations.")
NEED = {"op_S": 2000, "searches_compared": 1000, "matches_compared": 3000, "nodes_compared": 10000, "files_compared": 200, "lists_compared": 100, "runs_asan": 100, "runs_msan": 100}
BIN = {}
FLAGS = {"asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"], "msan": ["-fsanitize=memory", "-fsanitize-memory-track-origins=0", "-fno-sanitize-recover=all"]}


def setup(scratch, tier):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    lib = os.path.join(REPO, "binary", "c_parser")
    ps = []
    for k, f in FLAGS.items():
        out = os.path.join(scratch, "cdrv-" + k)
        ps.append((k, out, subprocess.Popen(["clang", "-g", "-O1", "-w", "-fno-omit-frame-pointer", *f, "-I", lib, os.path.join(here, "native", "driver.c"),
                                            os.path.join(lib, "cparserlib.c"), "-o", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for k, out, p in ps:
        o = p.communicate()[0]
        if p.returncode:
            raise Inconclusive(f"the C parser does not compile: {o[-2000:]}")
        BIN[k] = out


def limits():
    resource.setrlimit(resource.RLIMIT_FSIZE, (200 << 20, 200 << 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def random_case(case, i):
    tree, data = bintree.make(case, i)
    ops, nodes = bintree.program(case, tree)
    bintree.script(case, ops)
    kind = "asan" if (i // 10 + i) % 2 else "msan"
    case.sig, case.nontrivial = hash((data, open(case.path("script")).read())), True
    case.note = {"sanitizer": kind, "nodes": len(nodes), "bytes": len(data), "operations": len(ops)}
    run(case, kind, ops, nodes, tree, data)


def run(case, kind, ops, nodes, tree, data):
    env = {"PATH": os.environ["PATH"], "ASAN_OPTIONS": "detect_leaks=0:hard_rss_limit_mb=1500:abort_on_error=0:allocator_may_return_null=1:malloc_fill_byte=190:max_malloc_fill_size=100000",
           "UBSAN_OPTIONS": "print_stacktrace=1", "MSAN_OPTIONS": "abort_on_error=0:hard_rss_limit_mb=1500"}
    case.count("runs_" + kind)
    try:
        case.driven = True
        p = subprocess.run([BIN[kind], "script", "result"], cwd=case.dir, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60,
                           preexec_fn=limits)
    except subprocess.TimeoutExpired:
        case.fail("hang", {"after": "60 s", "result": (case.read("result") if case.exists("result") else "")[-400:]})
        return
    text = p.stdout.decode("utf-8", "replace")
    with open(case.path("result"), encoding="utf-8", errors="surrogateescape") as f:
        res = f.read()
    if p.returncode != 0:
        got, _ = bintree.parse(res)
        k = max(0, len(got) - 1)
        at = next((t for t in ("AddressSanitizer", "MemorySanitizer", "runtime error") if t in text), f"exit {p.returncode}")
        j = text.find(at)
        case.fail("sanitizer", {"report": text[max(0, j - 200):j + 2500], "operation": repr(ops[k])[:800] if k < len(ops) else None})
        return
    bintree.judge(case, ops, nodes, tree, data, res, "c")
