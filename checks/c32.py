import os
import shlex

from hypothesis import strategies as st

from vp import cli, model
from vp.behave import begun, set_behaviour, take_events
from vp.core import Campaign, check, check_eq
from vp.history import histories, play, rarely, simple_spec
from vp.model import closure, selected, split_args
from vp.project import write_project
from vp.world import book_files, files, read_bytes, records, snapshot_text, tree

PROPERTY = "C32"
RULE = ("histories of every command over suites whose case names and book directory contain blanks, quotes, shell meta characters, "
        "option-like, dotted and non-ASCII parts, against the model used for plain names; listings, printed paths and texts, and the "
        "arguments viewing tools get are compared, and everything beside the book directory has to stay as it is. command line: "
        "the same by the tool. non-trivial: a name or directory with a special character, and a case accepted or shown in a tool")


def beside(root):
    """ everything that is not in the book """
    rv = {}
    top = os.path.normpath(root)
    for k, v in tree(".").items():
        if not (k.rstrip("/") == top or k.startswith(top + "/") or top.startswith(k) or k.startswith(("vpstate/", "tools.log"))):
            rv[k] = v
    return rv


def decoys(root, names):
    """ files that a shell or a glob would make of the names """
    parts = set()
    for name in [root] + names:
        parts.update(name.split(" "))
        parts.update(name.replace("/", " ").split(" "))
        parts.update([name.replace("'", ""), name.replace('"', ""), name.replace("\\", ""), name.split(";")[0], name.split("&")[0], name.split("#")[0]])
    for p in sorted(parts):
        p = p.strip()
        if p and not os.path.isabs(p) and ".." not in p.split("/") and not root.startswith(p + "/") and p != root and len(p) < 100 \
                and not p.startswith(root + "/") and p not in (".", "vpstate"):
            try:
                os.makedirs(os.path.join(p, "keep"))
                with open(os.path.join(p, "keep", "file.md"), "w") as f:
                    f.write("keep")
            except (FileExistsError, NotADirectoryError):
                pass


def tool():
    with open("tool.py", "w") as f:
        f.write("import json, sys\nwith open('tools.log', 'a') as f:\n    f.write(json.dumps(sys.argv[1:]) + '\\n')\n")
    with open("tool.sh", "w") as f:
        # without starting python, arguments are written between marks
        f.write('printf "<%s>" "$@" >> tools.log\necho >> tools.log\n')
    for k in ("MD_VIEWER", "LOG_VIEWER", "DIFF_TOOL", "FAST_DIFF_TOOL"):
        os.environ["BOOKTEST_" + k] = f"sh {shlex.quote(os.path.abspath('tool.sh'))} {k}"


def tool_calls():
    if not os.path.exists("tools.log"):
        return []
    with open("tools.log") as f:
        rv = f.read().split("\n")[:-1]
    os.remove("tools.log")
    return rv


KEYS = {"v": "MD_VIEWER", "l": "LOG_VIEWER", "d": "DIFF_TOOL", "D": "FAST_DIFF_TOOL"}


def expected_calls(root, p, before):
    rv = []
    for n, k in p.tools:
        exp, out = f"{root}/{n}.md", f"{root}/.out/{n}.md"
        args = [f"{root}/.out/{n}.log"] if k == "l" else [out] if k == "v" and before.snapshots[n] is None else [exp, out]
        rv.append("".join(f"<{x}>" for x in [KEYS[k]] + args))
    return rv


def odd(text):
    return any(not (c.isalnum() and c.isascii()) and c not in "/" for c in text)


def oracle(case, ctx):
    root = case["root"]
    tool()
    decoys(root, case["names"])
    untouched = beside(root)
    seen = {"accepted": 0, "tools": 0}

    def each(h, step, rv):
        p, before, after, result, events = rv
        about = f"of {step['cmd']} {step['args']}"
        check_eq(beside(root), untouched, f"files beside the book {root!r} after {step['cmd']} {step['args']}")
        calls = tool_calls()
        if p is not None:
            check_eq(calls, expected_calls(root, p, before), "viewing tools run by " + str(step))
            seen["accepted"] += len(p.accepted)
            seen["tools"] += len(calls)
            return
        flags, selection = split_args(step["args"])
        cases, todo = model.todo_of(h.order, h.deps, flags, selection, before)
        if step["cmd"] == "list":
            check_eq(result.out, "".join(f"  {n}\n" for n in todo), "output " + about)
        elif step["cmd"] == "path":
            check_eq(result.out, "".join(f"{root}/{n}.md\n" for n in todo), "output " + about)
        elif step["cmd"] == "print":
            check_eq(result.out, "".join(before.snapshots[n] or "" for n in todo), "output " + about)
        elif step["cmd"] in ("garbage", "clean"):
            out = [line[len("removed "):] if step["cmd"] == "clean" else line for line in result.out.split("\n")[:-1]]
            mine = set(f"{root}/{n}.md" for n in h.order) | {f"{root}/index.md"}
            for n in h.order:
                mine.update(f"{root}/{n}/{f}" for f in before.snapshot_files[n])
            check(not set(out) & mine, "garbage", sorted(set(out) & mine))
            if step["cmd"] == "clean":
                for f in out:
                    check(not os.path.lexists(f), "removed", f, "is there")
        ctx.label(step["cmd"])
    play(case, ctx, ["snapshots", "readonly", "verdicts", "records", "exit", "executed", "asked", "stored"], each, root)
    if os.path.exists(os.path.join(root, "index.md")):
        text = read_bytes(os.path.join(root, "index.md")).decode()
        for n in case["names"]:
            check(f"[{n.split('/')[-1]}]({n}.md)" in text, "case", n, "is not in the index", text)
    ctx.nontrivial(any(odd(n) for n in case["names"] + [root]) and (seen["accepted"] or seen["tools"]))
    ctx.label("acceptances", seen["accepted"])
    ctx.label("tools", seen["tools"])


def by_tool(case, ctx):
    root, names = case["root"], case["names"]
    write_project(simple_spec(names, [False] * len(names)), ".")
    decoys(root, names)
    untouched = beside(root)
    env = {"BOOKTEST_BOOKS_PATH": root, "BOOKTEST_MD_VIEWER": f"sh {shlex.quote(os.path.abspath('tool.sh'))} MD_VIEWER"}
    tool()
    untouched = beside(root)

    def behave(text):
        set_behaviour({n: {"ops": [["tln", text], ["file", "f.txt", text]]} for n in names})

    def command(args):
        r = cli.booktest(args, ".", env)
        check_eq(beside(root), untouched, f"files beside the book {root!r} after {args}")
        return r, begun(take_events())
    behave("1")
    r, ran = command(["-a", "*"] + case["flags"])
    check_eq(r.code, 0, "exit status of the accepting run", r.out[-800:], r.err[-800:])
    check_eq(sorted(ran), sorted(names), "cases run")
    expected = {f"{n}.md": b"1\n" for n in names}
    expected.update({f"{n}/f.txt": b"1" for n in names})
    check_eq(book_files(root), expected, "snapshots")
    r, ran = command(["*"] + case["flags"])
    check_eq(r.code, 0, "exit status of the second run", r.out[-800:], r.err[-800:])
    behave("2")
    name = names[0]
    r, ran = command([name] + case["flags"])
    mine = sorted(n for n in names if selected([name], n))
    check_eq(sorted(ran), mine, "cases run with", name)
    check(r.code != 0, "a changed case passes")
    check_eq(sorted(n for n, v in records(root) if v != "OK"), mine, "cases that are not OK")
    r, ran = command(["-a", "-c", "*"] + case["flags"])
    check_eq(sorted(ran), mine, "cases continued")
    check_eq(snapshot_text(root, name), "2\n", "accepted snapshot")
    r, _ = command(["-l", "*"])
    check_eq(sorted(r.out.split("\n")[:-1]), sorted("  " + n for n in names), "listing")
    r, _ = command(["--path", name])
    check_eq(sorted(r.out.split("\n")[:-1]), sorted(f"{root}/{n}.md" for n in mine), "paths")
    r, _ = command(["--view", name])
    check_eq(tool_calls(), ["<MD_VIEWER>" + "".join(f"<{root}/{n}.md>" for n in names if n in mine)], "viewed files")
    snapshots = book_files(root)
    r, _ = command(["--clean"])
    check_eq({k: v for k, v in files(root).items() if k != "index.md"}, snapshots, "book after cleaning")
    ctx.nontrivial(any(odd(n) for n in names + [root]))
    ctx.label("names", len(names))


WORDS = ["a", "b", "ab", "a b", "a  b", "it's", 'say "x"', "$HOME", "`id`", "$(id)", "a;b", "a&b", "a|b", "a>b", "a<b", "*", "?", "[a]", "{a,b}", "~",
         "#a", "a#b", "!", "a\\b", "é", "ä ö", "漢字", "😀", "a.b", "b.c", "a-b", "-r", "--clean", "a=b", "a:b", "a,b", "a+b", "%41", "100%", "%s",
         "{0}", "@", "^", "(a)", "a'b'c", "'", '"', "\\", "a'; touch pwned; '", "x$(touch pwned)x", "e\u0301", "A", "nul", "ß", "a/b", "$", "&&", "a_b", "1", "0"]
WORD = st.one_of(st.sampled_from(WORDS), st.sampled_from(WORDS), st.sampled_from(WORDS),
                 st.text(alphabet=st.sampled_from("ab'\"$;&|*? .é#%\\-`()"), min_size=1, max_size=8))


def good(part):
    return part == part.strip() and part.strip(".") != "" and not part.startswith(".") and part != "" and \
        not part.endswith((".md", ".txt", ".log", ".bin", ".tmp"))


@st.composite
def names_of(draw, maximum=4):
    rv = []
    for _ in range(draw(st.integers(1, maximum))):
        parts = draw(st.lists(WORD.filter(good), min_size=1, max_size=3))
        if rarely(draw, 6):
            first = draw(WORD.filter(good).filter(lambda x: not x.startswith(("-", "skip:")) and x.split("/")[0] != "*"))
        else:
            first = "test"
        rv.append("/".join([first] + parts))
    rv = [n for k, n in enumerate(rv) if n not in rv[:k] and all(good(p) for p in n.split("/"))]
    # one test's directory is not another test, the console writes .. after a name
    rv = [n for n in rv if not any(m.startswith(n + "/") for m in rv) and n != "index" and n != "*"]
    return rv or ["test/a b"]


ROOT = st.one_of(st.just("books"), st.just("my books"), st.builds("{}/{}".format, st.sampled_from(["dir", "a b", "it's"]), WORD.filter(good)),
                 WORD.filter(good).map(lambda x: "r" + x))


@st.composite
def cases(draw):
    names = draw(names_of())
    rv = draw(histories(["run"] * 6 + ["review"] * 2 + ["forget", "list", "list", "print", "path", "garbage", "clean"], min_names=len(names),
                        max_names=len(names), min_steps=2, max_steps=6, parallel=4, pool=names, select=3,
                        modes=[[], [], ["-a"], ["-a"], ["-a"], ["-u"], ["-i"], ["-i"], ["-I"]],
                        answers=("a", "a", "c", "c", "v", "l", "d", "D", "q")))
    for s in rv["steps"]:
        # most names are selected by *, for all that are not in the default
        if not any(not a.startswith("-") for a in s["args"]) and draw(st.booleans()):
            s["args"] = s["args"] + ["*"]
    rv["root"] = draw(ROOT.filter(lambda r: r.split("/")[0] not in ("vpstate", "test", "home")))
    return rv


@st.composite
def tool_cases(draw):
    return {"names": draw(names_of(3)), "root": draw(ROOT.filter(lambda r: r.split("/")[0] not in ("vpstate", "test", "home"))),
            "flags": draw(st.sampled_from([[], [], ["-p2"]]))}


CAMPAIGNS = [Campaign("histories", cases, oracle, 2400, 60000, hang_s=60),
             Campaign("command line", tool_cases, by_tool, 24, 800, hang_s=200)]
