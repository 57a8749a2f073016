import re

from hypothesis import strategies as st

from vp.behave import begun, set_behaviour, take_events
from vp.core import Campaign, check, check_eq
from vp.history import simple_spec
from vp.project import forked_workers, loaded
from vp.world import async_program, program, read_text, run

PROPERTY = "C23"
RULE = ("suites of 1 to 12 tests with random nested names in any definition order, run completely, partly, with failures, fail-fast, "
        "quitting, acceptance and in parallel, also after the suite changed; the index is parsed as an indented list and compared "
        "with the suite; non-trivial: at least 3 tests in 2 suites and a run that did not run all of them or did not succeed")

LINE = re.compile(r"^((?:    )*) \* (.*)$")
LINK = re.compile(r"^\[(.*?)\]\((.*)\.md\)$")


def parse(text):
    """ names listed, in order, from the indentation, and where they link to """
    rv, stack = [], []
    for line in text.split("\n"):
        m = LINE.match(line)
        if m is None:
            check(not line.strip() or line.startswith("#"), "unexpected line in the index", line)
            continue
        depth = len(m.group(1)) // 4
        link = LINK.match(m.group(2))
        if link is None:
            check(depth <= len(stack), "suite is indented deeper than its parent", line)
            stack = stack[:depth] + [m.group(2)]
        else:
            check(depth <= len(stack), "test is indented deeper than its suite", line)
            stack = stack[:depth]
            rv.append(("/".join(stack + [link.group(1)]), link.group(2)))
    return rv


def judge(names, about):
    listed = parse(read_text("books/index.md"))
    check_eq([n for n, _ in listed], names, "tests listed in the index after " + about)
    check_eq([l for _, l in listed], names, "links of the index after " + about)


def oracle(case, ctx):
    executed = []
    nontrivial = False
    for suite in case["suites"]:
        names = suite["names"]
        cases = []
        for k, n in enumerate(names):
            ops = [["tln", f"text {k}"]] + {"fail": [["fail"]], "raise": [["raise", "Program", "x"]], "ok": []}[suite["ends"][k % len(suite["ends"])]]
            cases.append([n, (async_program if k % 3 == 2 else program)(ops, executed, n)])
        for step in suite["runs"]:
            executed.clear()
            args = [a.replace("@", names[step["at"] % len(names)].split("/")[0]).replace("%", names[step["at"] % len(names)])
                    for a in step["args"]]
            r = run(cases, args, answers=["a", "q", "c", "q"] + ["c"] * 40)
            judge(names, f"run {args}")
            nontrivial = nontrivial or (len(names) >= 3 and len(set(n.rpartition("/")[0] for n in names)) > 1 and
                                        (len(executed) < len(names) or r.code != 0))
            ctx.label("complete" if len(executed) == len(names) else "partial")
    ctx.nontrivial(nontrivial)


COMPONENT = st.sampled_from(["a", "b", "c", "ab", "test", "x.y", "é", "with blank", "book", "1", "x-y"])
NAME = st.one_of(st.lists(COMPONENT, min_size=1, max_size=4), st.lists(st.sampled_from(["a", "b"]), min_size=1, max_size=4)).map("/".join)


@st.composite
def suites(draw):
    names = draw(st.lists(NAME, min_size=1, max_size=12, unique=True))
    if draw(st.integers(0, 2)) == 0:
        # suites in suites, left and entered at any level
        names = []
        at = []
        for k in range(draw(st.integers(2, 12))):
            at = at[:draw(st.integers(0, len(at)))] + draw(st.lists(st.sampled_from(["a", "b", "c d"]), min_size=1, max_size=4))
            at = at[:7]
            if "/".join(at) not in names:
                names.append("/".join(at))
    # argparse would take a name beginning with a dash as an option, and tests below another test share its files
    names = [n for n in names if not any(n != m and n.startswith(m + "/") for m in names)]
    return names


ARGS = [["*"], ["*", "-a"], ["@"], ["%"], ["skip:@"], ["*", "-f"], ["*", "-c"], ["*", "-i"], ["-I", "*"], ["*", "-u"], ["%", "-a"], []]


@st.composite
def cases(draw):
    rv = []
    for _ in range(draw(st.integers(1, 2))):
        names = draw(suites())
        rv.append({"names": names, "ends": draw(st.lists(st.sampled_from(["ok", "ok", "fail", "raise"]), min_size=1, max_size=4)),
                   "runs": [{"args": draw(st.sampled_from(ARGS)), "at": draw(st.integers(0, 11))} for _ in range(draw(st.integers(1, 3)))]})
        for r in rv[-1]["runs"]:
            n = names[r["at"] % len(names)]
            if n.startswith("-") and ("@" in r["args"] or "%" in r["args"]):
                r["args"] = ["*"]
    return {"suites": rv}


def parallel_oracle(case, ctx):
    spec = simple_spec(case["names"], [k % 2 == 0 for k in range(len(case["names"]))])
    set_behaviour({n: {"ops": [["tln", "x"]] + ([["fail"]] if k % 4 == case["fail"] else [])} for k, n in enumerate(case["names"])})
    with loaded(spec) as suite, forked_workers():
        for args in case["runs"]:
            args = [a.replace("@", case["names"][0]) for a in args]
            if any(a.lstrip("skip:").startswith("-") and a in case["names"] for a in args):
                continue
            run(suite, [f"-p{case['processes']}"] + args)
            judge(case["names"], f"parallel run {args}")
            executed = begun(take_events())
            ctx.nontrivial(len(case["names"]) >= 3 and 0 < len(executed))


@st.composite
def parallel_cases(draw):
    return {"names": draw(suites()), "fail": draw(st.integers(0, 7)), "processes": draw(st.sampled_from([1, 2, 4])),
            "runs": draw(st.lists(st.sampled_from([["*"], ["*", "-a"], ["@"], ["skip:@"], ["*", "-f"], ["*", "-c"]]), min_size=1, max_size=2))}


CAMPAIGNS = [
    Campaign("sequential", cases, oracle, 2400, 60000),
    Campaign("parallel", parallel_cases, parallel_oracle, 160, 6000),
]
