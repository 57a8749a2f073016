import os

from hypothesis import strategies as st

from vp.core import Campaign, check, check_eq
from vp.world import files, perform, read_bytes, run, verdict

PROPERTY = "C22"
RULE = ("histories of runs, acceptances, tests added, renamed and dropped, stray files and links under and beside the book, garbage "
        "listings and cleanings, against a model of which files belong to existing tests; non-trivial: a cleaning that removes "
        "something of a dropped test and keeps snapshot files of another one")

NAMES = ["test/a", "test/ab", "test/b", "test/b2/c", "test/d/e/f", "other", "test/x.y", "test/é", "test/with blank"]
FILES = ["f.txt", "img.png", ".env.json", "sub.md"]

JUNK = ["junk.txt", "index.md.old", "test/index.md", "test/a.md.bak", "test/a.txt", "test/a2.md", "test/aX/f.txt", "test/b.md~", "other.md2",
        "test/d/e/junk", "test/d/e.md", "test/d.md", "testx/a.md", "new dir/x y.md", ".hidden", "test/.a.md", "test/ab/.keep", "test/é.txt",
        "a.md", "test.md", "$(touch pwned).md", "'quoted'.md", "test/A/f.txt", "TEST/a/f.txt", "Test/b.md", "Index.md", "test/É/f.txt", "test/X.Y/img.png",
        "test/AB/.env.json"]


def mine(names, rel):
    return rel == "index.md" or any(rel == n + ".md" or rel.startswith(n + "/") for n in names)


def listing(root):
    """ all the files, links included and not followed """
    rv = {}
    for base, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(base, f)
            rv[os.path.relpath(p, root)] = b"->" + os.readlink(p).encode() if os.path.islink(p) else read_bytes(p)
    return rv


def oracle(case, ctx):
    os.makedirs("outside/books")
    for k, name in enumerate(["outside/keep.txt", "outside/books/test.md", "books.txt", "booksX.md"]):
        with open(name, "w") as f:
            f.write(f"keep {k}")
    versions = {}

    def outside():
        return {k: v for k, v in listing(".").items() if not k.startswith("books/")}

    def make(name):
        def test(t):
            perform(t, versions[name])
        return test

    def suite():
        return [[n, make(n)] for n in current]

    def arguments(args):
        return [a.replace("@", current[0]) for a in args]

    current = []
    outer = outside()
    for step in case["steps"]:
        kind = step[0]
        if kind == "suite":
            current = list(step[1])
            for n, v in step[2].items():
                versions[n] = v
        elif kind == "run":
            run(suite(), arguments(step[1]))
        elif kind == "junk":
            for name in step[1]:
                p = os.path.join("books", name)
                try:
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, "wb") as f:
                        f.write(b"junk")
                except (FileExistsError, NotADirectoryError, IsADirectoryError):
                    pass
        elif kind == "link":
            os.makedirs("books/test", exist_ok=True)
            for src, dst in step[1]:
                if not os.path.lexists("books/" + dst):
                    os.symlink(os.path.abspath(src), "books/" + dst)
        elif kind in ("garbage", "clean"):
            before = listing("books") if os.path.isdir("books") else {}
            expected = sorted(rel for rel in before if not mine(current, rel))
            r = run(suite(), ["--" + kind] + arguments(step[1]))
            check_eq(r.code, 0, f"exit status of --{kind}")
            lines = [x for x in r.out.split("\n") if x]
            if kind == "clean":
                lines = [x[len("removed "):] if x.startswith("removed ") else x for x in lines]
            check_eq(sorted(os.path.relpath(x, "books") for x in lines), expected, f"files printed by --{kind}")
            after = listing("books") if os.path.isdir("books") else {}
            left = before if kind == "garbage" else {k: v for k, v in before.items() if mine(current, k)}
            check_eq(sorted(after), sorted(left), f"files left by --{kind}")
            check(after == left, f"--{kind} changed files", [k for k in left if after[k] != left[k]])
            check_eq(outside(), outer, f"files outside of the book after --{kind}")
            ctx.label(kind + " with garbage" if expected else kind + " without garbage")
            if kind == "clean":
                r = run(suite(), ["--garbage"])
                check_eq(r.out.strip(), "", "garbage after cleaning")
                dropped = [n for n in versions if n not in current]
                ctx.nontrivial(any(mine([n], rel) and rel != "index.md" for n in dropped for rel in expected) and
                               any("/" in rel and not rel.endswith(".md") for rel in left))
                accepted = [n for n in current if n + ".md" in before]
                if step[2]:
                    old = {n: before[n + ".md"] for n in accepted}
                    run(suite(), ["*"])
                    for n in accepted:
                        want = "FAIL" if ["fail"] in versions[n] else "OK" if expected_text(versions[n]) == old[n].decode() else "DIFF"
                        check_eq(verdict("books", n), want, f"verdict of {n} after cleaning")
    check_eq(outside(), outer, "files outside of the book at the end")


def expected_text(ops):
    return "".join(op[1] + "\n" for op in ops if op[0] == "tln")


@st.composite
def cases(draw):
    def version():
        ops = [["tln", draw(st.sampled_from(["text", "other", "third"]))]]
        for f in draw(st.lists(st.sampled_from(FILES), unique=True, max_size=2)):
            ops.append(["file", f, draw(st.sampled_from(["x", "y"]))])
        if draw(st.integers(0, 8)) == 0:
            ops.append(["fail"])
        if draw(st.integers(0, 4)) == 0:
            ops.append(["tmp", "t", "x"])
        return ops

    steps = []
    first = draw(st.lists(st.sampled_from(NAMES), unique=True, min_size=1, max_size=5))
    steps.append(["suite", first, {n: version() for n in NAMES}])
    # every text run is tested selected by all names, also the ones outside of test and book
    steps.append(["run", ["-a", "*"]])
    for _ in range(draw(st.integers(2, 8))):
        kind = draw(st.sampled_from(["suite", "run", "junk", "junk", "link", "garbage", "clean", "clean"]))
        if kind == "suite":
            names = draw(st.lists(st.sampled_from(NAMES), unique=True, min_size=1, max_size=5))
            steps.append([kind, names, {n: version() for n in names if draw(st.integers(0, 3)) == 0}])
        elif kind == "run":
            steps.append([kind, draw(st.sampled_from([[], ["-a"], ["-a", "*"], ["-u"], ["-f"], ["-a", "@"], ["-a", "skip:@"]]))])
        elif kind == "junk":
            steps.append([kind, draw(st.lists(st.sampled_from(JUNK), unique=True, min_size=1, max_size=4))])
        elif kind == "link":
            steps.append([kind, [draw(st.sampled_from([["outside/keep.txt", "link.md"], ["outside", "linkdir"], ["outside/keep.txt", "test/link"],
                                                       ["nothing", "dangling.md"], ["outside/books", "test/linkdir"]]))]])
        else:
            steps.append([kind, draw(st.sampled_from([[], [], [], ["@"], ["skip:@"], ["-c"], ["*"]])), draw(st.booleans())])
    if draw(st.booleans()):
        steps.append(["suite", draw(st.lists(st.sampled_from(NAMES), unique=True, min_size=1, max_size=4)), {}])
    steps.append(["clean", [], True])
    return {"steps": steps}


CAMPAIGNS = [
    Campaign("histories", cases, oracle, 2400, 60000),
]
