import os

from hypothesis import strategies as st

from vp.core import Campaign, check, check_eq
from vp.history import histories, play
from vp.quitting import oracle_of, quit_cases

PROPERTY = "C26"
RULE = ("histories of runs, interactive runs, reviews and forgets with random verdicts, selections and answers (viewing tools and "
        "unknown answers included), each step judged against a model of the reviewer's decisions; parallel runs with answers by case; non-trivial: a review or "
        "interactive run with at least 2 shown cases, an acceptance and another decision, or a parallel run quit before every case was reviewed")

TOOLS = {"v": "MD_VIEWER", "l": "LOG_VIEWER", "d": "DIFF_TOOL", "D": "FAST_DIFF_TOOL"}


def paths(name, letter, snapshot):
    exp, out = f"books/{name}.md", f"books/.out/{name}.md"
    if letter == "l":
        return [f"books/.out/{name}.log"]
    if letter == "v" and not snapshot:
        return [out]
    return [exp, out]


def oracle(case, ctx):
    with open("tool.sh", "w") as f:
        f.write('echo "$@" >> tools.log\nexit $1\n')
    for k, v in TOOLS.items():
        if k not in case["undefined"]:
            os.environ["BOOKTEST_" + v] = f"sh {os.getcwd()}/tool.sh {case['status']} {k}"

    def each(h, step, rv):
        p, before, after, result, events = rv
        log = []
        if os.path.exists("tools.log"):
            with open("tools.log") as f:
                log = f.read().split("\n")[:-1]
            os.remove("tools.log")
        if p is None:
            return
        # a tool that is not defined says so, and the question goes on
        expected = [" ".join([str(case["status"]), k] + [os.path.normpath(x) for x in paths(n, k, before.snapshots[n] is not None)])
                    for n, k in p.tools if k not in case["undefined"]]
        check_eq([" ".join(line.split(" ")[:2] + [os.path.normpath(x) for x in line.split(" ")[2:]]) for line in log],
                 expected, "tools run by", step)
        if p.tools:
            ctx.label("tools", len(p.tools))
        if step["cmd"] == "review" or p.asked:
            kinds = set("accept" if n in p.accepted else "keep" for n in p.verdicts)
            ctx.label("with " + "+".join(sorted(kinds)))
            ctx.nontrivial(len(p.shown) >= 2 and len(kinds) == 2)
        if step["cmd"] == "review":
            ctx.label("review with " + ("stop" if p.stopped else "end"))
            # questions are put after the verdict of the case and offer acceptance of what did not fail
            if p.asked:
                check_eq(result.out.count("(a)ccept") > 0, any(v != "FAIL" for n, v in p.verdicts.items()
                                                             if "-I" in step["args"] or v != "OK"), "offer of acceptance")
    play(case, ctx, ["snapshots", "verdicts", "records", "exit", "summary", "console", "executed", "asked", "stored"], each)


@st.composite
def cases(draw):
    rv = draw(histories(["run", "run", "run", "review", "review", "review", "forget"], min_names=2, max_names=5, min_steps=2, max_steps=6,
                        parallel=30, fail=5, select=3, extra=["-f", "-c", "-v"],
                        modes=[[], [], ["-i"], ["-i"], ["-i"], ["-I"], ["-a"], ["-u"], ["-u", "-i"], ["-a", "-I"], ["-u", "-I"]],
                        answers=("a", "a", "a", "c", "c", "q", "x", "", "v", "l", "d", "D", "A", "yes", "aa", " a")))
    rv["undefined"] = draw(st.lists(st.sampled_from(sorted(TOOLS)), max_size=1))
    rv["status"] = draw(st.sampled_from([0, 0, 1]))
    return rv


CAMPAIGNS = [Campaign("histories", cases, oracle, 3200, 80000, hang_s=60),
             Campaign("parallel reviews", quit_cases, oracle_of(["records", "asked", "snapshots", "exit"]), 120, 4000, hang_s=120)]
