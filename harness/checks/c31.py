"""C31: the interactive parser tools show the encoded tree and survive any input."""
import os
import re
import resource
import shutil
import subprocess

import binfmt
import bintree
from common import load_json
from core import Inconclusive
from runner import REPO

TECHNIQUE = "compiler sanitizers (ASan, UBSan, MSan) on the C tool, panic monitor on the Go tool, and a reference session model over random input sequences"
N_QUICK, N_THOROUGH = 1500, 40000
LEVEL_NOTE = "both command line tools run as processes over random command sequences; every answer judged against the encoded tree"
RULE = ("binary/c_parser/testparser.c is compiled from the working tree with clang -fsanitize=address,undefined and again with -fsanitize=memory, binary/go_parser/testparser.go "
        "with go build. Each case reads one tree (written by the exporter, or in the documented format with extreme depth, width or field sizes) and feeds one random session to one of the "
        "tools: navigation, searches, subtree listings, leaf and UUID lists, write-back, help, quit, ended by a quit command or by the end of the input at any point; hostile sessions add "
        "paths that match nothing, words far longer than any buffer, absurd depths, non-numbers and (for the files) missing or unreadable arguments. Monitors: no sanitizer report, panic, "
        "signal or hang; every answer (node data, child, match counts and paths, list files, rewritten file) equals that of a reference model of the session. Distinct by tree and session.")
NEED = {"answers_compared": 5000, "searches_compared": 300, "subtrees_compared": 150, "files_compared": 60, "lists_compared": 60, "runs_asan": 80, "runs_msan": 80, "runs_go": 150,
        "sessions_hostile": 100, "sessions_eof": 60}
BIN = {}
FLAGS = {"asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"], "msan": ["-fsanitize=memory", "-fsanitize-memory-track-origins=0", "-fno-sanitize-recover=all"]}
PROMPT = re.compile(r"^'u'/'d'/'l'/'r'/'s'/'m'/'n'/'i'/'w'/'h', or any other to quit: ", re.M)
MAXFOUND = 1500


def setup(scratch, tier):
    lib = os.path.join(REPO, "binary", "c_parser")
    ps = []
    for k, f in FLAGS.items():
        out = os.path.join(scratch, "ctest-" + k)
        ps.append((k, out, subprocess.Popen(["clang", "-g", "-O1", "-w", "-fno-omit-frame-pointer", *f, "-I", lib, os.path.join(lib, "testparser.c"),
                                            os.path.join(lib, "cparserlib.c"), "-o", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    d = os.path.join(scratch, "gotest")
    shutil.copytree(os.path.join(REPO, "binary", "go_parser"), d)
    env = dict(os.environ, GOFLAGS="-mod=mod -buildvcs=false", GOPROXY="off", GOTOOLCHAIN="local", GONOSUMDB="*", HOME=scratch)
    out = os.path.join(scratch, "gotestparser")
    ps.append(("go", out, subprocess.Popen(["go", "build", "-o", out, "testparser.go"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for k, out, p in ps:
        o = p.communicate()[0]
        if p.returncode:
            raise Inconclusive(f"the {k} test parser does not compile: {o[-2000:]}")
        BIN[k] = out


def limits():
    resource.setrlimit(resource.RLIMIT_FSIZE, (100 << 20, 100 << 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_CPU, (130, 130))  # nothing outlives a run that was stopped


def run(case, tool, args, stdin, what):
    env = {"PATH": os.environ["PATH"], "GOMAXPROCS": "2", "UBSAN_OPTIONS": "print_stacktrace=1", "MSAN_OPTIONS": "abort_on_error=0:hard_rss_limit_mb=1500",
           "ASAN_OPTIONS": "detect_leaks=0:hard_rss_limit_mb=1500:abort_on_error=0:allocator_may_return_null=1:malloc_fill_byte=190:max_malloc_fill_size=100000"}
    case.driven = True
    case.count("runs_" + tool)
    with open(case.path("stdout"), "wb") as o, open(case.path("stderr"), "wb") as e:
        try:
            p = subprocess.run([BIN[tool], *args], cwd=case.dir, env=env, input=stdin, stdout=o, stderr=e, timeout=60, preexec_fn=limits)
        except subprocess.TimeoutExpired:
            case.fail("hang", {"tool": tool, "session": stdin[:600].decode("utf-8", "replace")})
            return None
    with open(case.path("stdout"), "rb") as f:
        out = f.read().decode("utf-8", "surrogateescape")
    err = open(case.path("stderr"), "rb").read().decode("utf-8", "replace")
    at = next((t for t in ("AddressSanitizer", "MemorySanitizer", "runtime error", "panic:", "fatal error:") if t in err), None)
    if at or p.returncode < 0 or (what == "session" and p.returncode):
        j = max(0, err.find(at or ""))
        case.fail("crash-" + ("go" if tool == "go" else "c"), {"tool": tool, "exit": p.returncode, "report": err[max(0, j - 100):j + 2000], "session": stdin[-600:].decode("utf-8", "replace"), "end": out[-300:]})
        return None
    return p.returncode, out


class Session:
    """What the tools answer, by their own help text."""

    def __init__(self, tree):
        self.tree = tree
        self.par = {}
        for _, n in binfmt.walk(tree):
            for c in n["children"]:
                self.par[id(c)] = n
        self.cur, self.child = tree, 0

    def go(self, c):
        n = self.cur
        if c == "u" and id(n) in self.par:
            self.cur, self.child = self.par[id(n)], 0
        elif c == "d" and n["children"]:
            self.cur, self.child = n["children"][self.child], 0
        elif c == "l" and self.child > 0:
            self.child -= 1
        elif c == "r" and self.child < len(n["children"]) - 1:
            self.child += 1

    def facts(self, tool):
        n = self.cur
        v = bintree.VALID[n["validate"]]
        inner = n["type"] in bintree.INNER
        out = [f"Node: name = {n['name']}, type = {n['type'].upper()}, uuid = {n['uuid']}, validate = {v}, children = {len(n['children'])},\ndescription = {n['description']}\n"]
        if n["children"]:
            out.append(f"\nNode child[{self.child}]={n['children'][self.child]['name']}\n")
        if not inner:
            if tool == "go":
                out += [f"\nAllowed[{j}]={x}\n" for j, x in enumerate(n["allowed"])]
            else:
                out.append(f"\n#allowed={len(n['allowed'])}\n")
            if n["datatype"]:
                out.append(f"\nDatatype = {n['datatype']}\n")
            if n["unit"]:
                out.append(f"\nUnit = {n['unit']}\n")
        return out


def listing(text, key, attrs):
    """Found entries: [{...}] from the lines between the count and the prompt."""
    m = re.search(r"^Number of elements found=(-?\d+)$", text, re.M)
    if not m:
        return None, []
    rest = text[m.end():]
    return int(m.group(1)), re.findall(rf"^{re.escape(key)}=(.*)$", rest, re.M)


def fits(tree):
    return all(len(f.encode()) < 512 for f, _ in binfmt.walk(tree))


def random_case(case, i):
    rng = case.rng
    tree, data = bintree.make(case, i)
    tool = ["asan", "go", "msan", "go"][(i + i // 40) % 4]
    kind = rng.choice(["plain", "plain", "plain", "eof", "hostile"])
    nodes = list(binfmt.walk(tree))
    flat = dict(nodes)
    names = sorted({n["name"] for _, n in nodes})
    tp, leaves = [f for f, _ in nodes], [f for f, n in nodes if n["type"] not in bintree.INNER]
    steps = []
    for _ in range(rng.randint(5, 60)):
        r = rng.random()
        if r < 0.72:
            # long walks that reach deep and far nodes
            steps.append((rng.choice("udlrdrdr"),) if rng.random() < 0.8 else (rng.choice("udlr"),))
            if rng.random() < 0.15:
                steps += [steps[-1]] * rng.randint(1, 30)
        elif r < 0.8:
            steps.append(("s", bintree.paths(rng, names, tp, leaves)))
        elif r < 0.9:
            d = rng.choice([0, 1, 2, 2, 3, 4, 8, -1])
            steps.append(("m", bintree.paths(rng, names, tp, leaves) if rng.random() < 0.5 else rng.choice(tp), str(d)))
        elif r < 0.93:
            steps.append(("n",))
        elif r < 0.96:
            steps.append(("i",))
        elif r < 0.98:
            steps.append(("w",))
        else:
            steps.append(("h",))
    if len(nodes) > 1400:
        for p in rng.sample(["V.*.*", "V.*", "*.*.*", "V.B1.*"], 2):
            steps.insert(rng.randint(0, len(steps)), ("s", p))
    # words of the tools end at blanks and the tools pass at most 511 bytes on
    steps = [s for s in steps if all(w and len(w.encode()) < 512 and not re.search(r"\s", w) for w in s)]
    if kind == "hostile":
        case.count("sessions_hostile")
        for _ in range(rng.randint(1, 3)):
            long = rng.choice(["x", "*.", "A.", "\u65e5", "V.*.", "u"]) * rng.choice([9, 10, 11, 511, 512, 513, 5000, 100000])
            bad = rng.choice([("m", "No.Such.Path", "3"), ("m", rng.choice(tp) + ".NoSuch", "1"), ("m", long, "2"), ("s", long), ("m", rng.choice(tp), rng.choice(
                ["1000", "255", "257", "100000", "2147483647", "-2147483648", "99999999999999999999", "abc", "1.5", "0x10", "+3"])), (rng.choice("udlrnwih") + long,), ("s", "%s%n%d%n"),
                ("m", "%n%s%x", "1"), ("",), ("", "", ""), (" ",), ("\t\tu",), ("u d l r",), ("\x00",), ("\xff\xfe",), ("s", ""), ("m", "", ""), ("m", rng.choice(tp), ""), ("s", "caf\u00e9.*")])
            steps.insert(rng.randint(0, len(steps)), bad)
    text = "".join("".join(w + "\n" for w in s) for s in steps)
    stdin = text.encode("utf-8", "surrogateescape")
    if kind == "plain":
        stdin += rng.choice([b"q\n", b"x\n", b"Q\n", b"0\n", b"quit\n"])
    else:
        case.count("sessions_eof")
        if kind == "eof" and rng.random() < 0.7:
            stdin = stdin[:rng.randint(0, len(stdin))]
    case.sig, case.nontrivial = hash((data, stdin, tool)), True
    case.note = {"tool": tool, "kind": kind, "nodes": len(nodes), "steps": [" ".join(s)[:60] for s in steps[:12]]}
    case.state("session", tool, kind)
    for f in ("nodelist.txt", "uuidlist.txt"):
        case.write(f, "previous content\n" * rng.choice([1, 20000]))
    got = run(case, tool, ["in.bin"], stdin, "session")
    if got is None:
        return
    parts = PROMPT.split(got[1])
    if kind == "hostile":
        return
    ses = Session(tree)
    if not case.check(facts_in(ses, tool, parts[0]), "start-node", lambda: {"tool": tool, "expected": ses.facts(tool), "got": parts[0][-1500:]}):
        return
    levels = lambda n: 1 + max((levels(c) for c in n["children"]), default=0)
    for line in (f"Total number of nodes in VSS tree = {len(nodes)}", f"Max depth of VSS tree = {levels(tree)}", *([f"VSS tree root name = {tree['name']}"] if tool == "go" else [])):
        case.check(line in parts[0].split("\n"), "tree-summary", lambda: {"tool": tool, "expected": line, "got": parts[0][:600]})
    if kind == "plain":
        if not case.check(len(parts) == len(steps) + 2, "answers", lambda: {"tool": tool, "steps": len(steps), "prompts": len(parts), "last": parts[-1][-300:]}):
            return
    small = fits(tree)
    wrote = {}
    # the last answers of a session that ends early may be incomplete
    done = steps if kind == "plain" else steps[:max(0, len(parts) - 3)]
    for s, ans in zip(done, parts[1:]):
        c = s[0]
        ctx = {"tool": tool, "step": s}
        case.count("answers_compared")
        case.state("command", tool, c)
        if c in "udlr":
            ses.go(c)
            if not case.check(facts_in(ses, tool, ans), "node-data", lambda: {**ctx, "expected": ses.facts(tool)[:6], "got": ans[:1500]}):
                return
        elif c == "s":
            n, found = listing(ans, "Found path", None)
            exp, _ = bintree.search(tree, s[1], True, True)
            real = case.check(n is not None and 0 <= n <= MAXFOUND and len(found) == n, "search-count", lambda: {**ctx, "got": ans[:800]})
            if exp is not None and real and small:
                case.count("searches_compared")
                case.check(found == exp[:MAXFOUND], "search", lambda: {**ctx, "expected": exp[:20], "got": found[:20]})
                types = re.findall(r"^Found node type=(.*)$", ans, re.M)
                dts = re.findall(r"^Found node datatype=(.*)$", ans, re.M)
                case.check(types == [flat[f]["type"].upper() for f in exp[:MAXFOUND]], "search-types", lambda: {**ctx, "got": types[:20]})
                case.check([x if x != "(null)" else "" for x in dts] == [flat[f]["datatype"] for f in exp[:MAXFOUND]], "search-datatypes", lambda: {**ctx, "got": dts[:20]})
        elif c == "m":
            n, found = listing(ans, "Node path", None)
            if not case.check(n is not None and 0 <= n <= MAXFOUND and len(found) == n, "subtree-count", lambda: {**ctx, "got": ans[:800]}) or not small:
                continue
            exp, _ = bintree.search(tree, s[1], False, False)
            if exp is None or len(exp) > MAXFOUND:
                continue
            if not exp:
                case.check(n == 0, "subtree-none", lambda: {**ctx, "got": ans[:600]})
                continue
            top = flat[exp[-1]]
            sub, _ = bintree.search(top, top["name"] + ".*" * max(0, int(s[2]) - 1), False, False)
            if sub is None or len(sub) > MAXFOUND:
                continue
            case.count("subtrees_compared")
            at = dict(binfmt.walk(top))
            case.check(found == sub, "subtree", lambda: {**ctx, "expected": sub[:20], "got": found[:20]})
            vals = re.findall(r"^Node validation=(.*)$", ans, re.M)
            case.check(vals == [str(bintree.VALID[at[f]["validate"]]) for f in sub], "subtree-validation", lambda: {**ctx, "got": vals[:20]})
        elif c in "ni":
            m = re.search(r"list with (\d+) nodes found", ans)
            if small:
                case.check(bool(m) and int(m.group(1)) == len(leaves), "list-count", lambda: {**ctx, "leaves": len(leaves), "got": ans[:300]})
            wrote[c] = True
        elif c == "w":
            wrote[c] = True
    if small:
        for c, f in (("n", "nodelist.txt"), ("i", "uuidlist.txt")):
            if c in wrote:
                exp = {"leafpaths": leaves} if c == "n" else {"leafuuids": [{"path": x, "uuid": flat[x]["uuid"]} for x in leaves]}
                try:
                    doc = load_json(open(case.path(f), encoding="utf-8").read())
                except (ValueError, OSError) as e:
                    case.fail("list-file", {"tool": tool, "file": f, "error": str(e)})
                    continue
                case.count("lists_compared")
                case.check(doc == exp, "list-file", lambda: {"tool": tool, "file": f, "expected": repr(exp)[:600], "got": repr(doc)[:600]})
    b = open(case.path("in.bin"), "rb").read()
    case.check(b == data, "tree-file", lambda: {"tool": tool, "written": "w" in wrote, "sizes": [len(b), len(data)]})
    if "w" in wrote:
        case.count("files_compared")


def facts_in(ses, tool, text):
    """All expected lines, in order."""
    pos = 0
    for f in ses.facts(tool):
        j = text.find(f.lstrip("\n") if pos == 0 else f, max(0, pos - 1))
        if j < 0:
            return False
        pos = j + len(f)
    return True


def probe_arguments(case):
    """No, too many, missing and unreadable files: a message, an error code, no crash."""
    os.mkdir(case.path("adir"))
    case.write("empty.bin", "")
    tree = bintree.synthetic(case.rng, "plain")
    with open(case.path("in.bin"), "wb") as f:
        f.write(binfmt.encode(tree))
    for tool in BIN:
        for args in ([], ["missing.bin"], ["no/such/dir/x.bin"], [""]):
            got = run(case, tool, args, b"d\nq\n", "arguments")
            if got is None:
                continue
            case.check(got[0] != 0, "argument-accepted", lambda: {"tool": tool, "args": args, "out": got[1][:300]})
            case.check(bool(got[1].strip()) or bool(case.read("stderr").strip()), "argument-silent", {"tool": tool, "args": args})
            case.check("Node: name" not in got[1], "argument-data", {"tool": tool, "args": args})
    case.sig, case.nontrivial, case.note = "arguments", True, {}


def probe_no_match(case):
    """Subtree of a path that matches nothing, then the session goes on."""
    tree = bintree.synthetic(case.rng, "plain")
    data = binfmt.encode(tree)
    with open(case.path("in.bin"), "wb") as f:
        f.write(data)
    for tool in BIN:
        for mid in (b"m\nNo.Such\n3\n", b"s\nNo.Such\n", b"m\nV\n400\n", b"m\nV\n1000000000\n", b"m\nV\n-5\n"):
            got = run(case, tool, ["in.bin"], mid + b"d\nq\n", "session")
            if got is None:
                continue
            parts = PROMPT.split(got[1])
            ses = Session(tree)
            ses.go("d")
            case.check(len(parts) == 4 and facts_in(ses, tool, parts[2]), "session-goes-on", lambda: {"tool": tool, "input": mid.decode(), "out": got[1][-600:]})
            n, _ = listing(parts[1], "Node path", None)
            case.check(n is not None and (n == 0 or b"V" in mid), "no-match-count", lambda: {"tool": tool, "input": mid.decode(), "out": got[1][-600:]})
    case.sig, case.nontrivial, case.note = "no-match", True, {}


def probe_end_of_input(case):
    """The input ends at every possible point."""
    tree = bintree.synthetic(case.rng, "plain")
    with open(case.path("in.bin"), "wb") as f:
        f.write(binfmt.encode(tree))
    for tool in BIN:
        whole = b"d\nu\nm\nV\n2\ns\nV.*\nn\ni\nh\n"
        for k in range(len(whole) + 1):
            run(case, tool, ["in.bin"], whole[:k], "session")
    case.sig, case.nontrivial, case.note = "eof", True, {}


PROBES = {"arguments": probe_arguments, "no-match": probe_no_match, "end-of-input": probe_end_of_input}
