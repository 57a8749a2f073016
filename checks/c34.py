import os
import re
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from vp import cli
from vp.core import Campaign, check, check_eq
from vp.history import rarely
from vp.world import book_files, files, of_no_case, read_text, records

PROPERTY = "C34"
RULE = ("test modules with tests of all outcomes and branches, given the same histories of commands (sequential, parallel, selections, "
        "fail-fast, continue, accept) with --cov in one directory and without in another; records, snapshots, outputs and exit status "
        "must be equal, and the coverage report must mark exactly the lines executed by that run; non-trivial: a run that executed "
        "some but not all of the tests or branches")

KINDS = ["ok", "ok", "ok", "fail", "raise", "exit"]


def source(tests):
    """ text and, by test, the numbers of the body line, of the line of the branch, and of the last line """
    rv = ["import os", "import sys", "import booktest as bt", "", ""]
    at = {}
    for k, t in enumerate(tests):
        rv.append(f"{'async ' if t['async'] else ''}def test_t{k}(t):")
        rv.append("    with open('ran', 'a') as f:")
        rv.append(f"        f.write('t{k}\\n')")
        body = len(rv)
        rv.append(f"    if os.path.exists('branch{k}'):")
        rv.append("        t.tln('branch')")
        branch = len(rv)
        if t["kind"] == "fail":
            rv.append("    t.fail()")
        elif t["kind"] == "raise":
            rv.append("    raise ValueError('x')")
        elif t["kind"] == "exit":
            rv.append("    sys.exit(3)")
        rv.append("    t.tln('end')")
        at[k] = (body, branch, len(rv))
        rv += ["", ""]
    return "\n".join(rv), at


def normal(data, d):
    text = data.replace(os.path.realpath(d).encode(), b"DIR")
    return text


def state(d, names):
    rv = {}
    for k, v in files(os.path.join(d, "books")).items():
        if of_no_case(k, names):
            continue
        rv[k] = normal(v, d)
    return rv


def hits(d):
    root = ET.parse(os.path.join(d, "coverage.xml")).getroot()
    rv = {}
    for c in root.iter("class"):
        if os.path.basename(c.get("filename")) == "x_test.py":
            for line in c.iter("line"):
                rv[int(line.get("number"))] = int(line.get("hits"))
    return rv


def oracle(case, ctx):
    dirs = [os.path.join(os.getcwd(), x) for x in ("plain", "measured")]
    text, at = source(case["tests"])
    for d in dirs:
        os.makedirs(os.path.join(d, "test"))
        with open(os.path.join(d, "test", "__init__.py"), "w"):
            pass
        with open(os.path.join(d, "test", "x_test.py"), "w") as f:
            f.write(text)
    env = {}
    if case["workers"]:
        with open(os.path.join(dirs[1], ".coveragerc"), "w") as f:
            f.write("[run]\nparallel=True\n")
        env["COVERAGE_PROCESS_START"] = os.path.join(dirs[1], ".coveragerc")
    good = False
    for step in case["steps"]:
        about = f"of {step['args']}"
        results, ran = [], []
        for d in dirs:
            for k in range(len(case["tests"])):
                flag = os.path.join(d, f"branch{k}")
                if k in step["branches"]:
                    open(flag, "w").close()
                elif os.path.exists(flag):
                    os.remove(flag)
            if os.path.exists(os.path.join(d, "ran")):
                os.remove(os.path.join(d, "ran"))
            with open(os.path.join(d, "ran"), "w"):
                pass
            measured = d == dirs[1]
            results.append(cli.booktest(step["args"] + (["--cov"] if measured else []), d, {**(env if measured else {}), "HOME": d}))
            ran.append(read_text(os.path.join(d, "ran")).split())
        parallel = "-p2" in step["args"]
        a, b = results
        told = (a.out[-600:], b.out[-300:], b.err[-1500:])
        check_eq(b.code, a.code, "exit status with --cov " + about, told)
        check_eq(sorted(ran[1]), sorted(ran[0]), "tests run with --cov " + about, told)
        ra, rb = [records(os.path.join(d, "books")) for d in dirs]
        check_eq(sorted(rb), sorted(ra), "records with --cov " + about, told)
        sa, sb = [state(d, [f"test/x/t{k}" for k in at]) for d in dirs]
        check_eq([k for k in sorted(set(sa) | set(sb)) if sa.get(k) != sb.get(k)], [], "files that differ with --cov " + about)
        check_eq(book_files(os.path.join(dirs[1], "books")), book_files(os.path.join(dirs[0], "books")), "snapshots with --cov " + about)
        ctx.label("parallel" if parallel else "sequential")
        check(os.path.exists(os.path.join(dirs[1], "coverage.xml")), "no coverage report", about, told)
        check("TOTAL" in b.out, "no coverage table on the console", about, told)
        if parallel and not case["workers"]:
            continue
        got = hits(dirs[1])
        expected = {}
        for k, t in enumerate(case["tests"]):
            executed = f"t{k}" in ran[1]
            body, branch, last = at[k]
            expected[body] = executed
            expected[branch] = executed and k in step["branches"]
            expected[last] = executed and t["kind"] in ("ok", "fail")
        check_eq({n: got.get(n, 0) > 0 for n in expected}, expected, "lines covered " + about, ran[1])
        if any(expected.values()) and not all(expected.values()):
            good = True
    ctx.nontrivial(good)


@st.composite
def cases(draw):
    n = draw(st.integers(1, 4))
    tests = [{"kind": draw(st.sampled_from(KINDS)), "async": draw(st.booleans())} for _ in range(n)]
    steps = []
    for _ in range(draw(st.integers(1, 3))):
        args = list(draw(st.sampled_from([[], ["-a"], ["-a"], ["-c"], ["-v"], ["-f"]])))
        if rarely(draw, 3) and "-f" not in args:
            args.append("-p2")
        if draw(st.booleans()):
            args.append(f"test/x/t{draw(st.integers(0, n - 1))}")
        steps.append({"args": args, "branches": [k for k in range(n) if draw(st.booleans())]})
    return {"tests": tests, "steps": steps, "workers": draw(st.booleans())}


CAMPAIGNS = [Campaign("coverage", cases, oracle, 40, 1200, hang_s=300)]
