from hypothesis import strategies as st

from vp import gen
from vp.core import Campaign, check, check_eq
from vp.history import histories, play, rarely
from vp.programs import programs
from vp.world import async_program, book_files, program, records, report_marks, run, verdict

PROPERTY = "C06"
RULE = ("programs over the whole output API with failures of 9 kinds at any point, over any snapshot state and command line mode, "
        "followed by reviews; and histories against a model; non-trivial: a failing case with a snapshot, or whose output "
        "differs as well, in a mode that accepts")

FAILS = [
    ["fail"], ["failln"],
    ["assertln", False, None], ["assertln", False, "went wrong"],
    ["it", "x", [1, 2], [["contain", 7]]], ["it", "x", 3, [["equal", 4]]], ["it", "x", "s", [["be_a", "int"]]],
    ["it", "x", 3, [["apply", "odd", False]]],
    ["tmsln", 1, -1.0],
    ["raise", "ValueError", "bad value"], ["raise", "KeyError", "k"], ["raise", "Program", ""], ["raise", "Assertion", "no\nway"],
    ["raise", "OSError", "\0 odd \u2028 message"],
    ["exit", 0], ["exit", 1], ["exit", None], ["exit", "message"],
    ["unstorable"],
]


def oracle(case, ctx):
    state = {"fixed": True}

    def make(p):
        def ops():
            rv = list(p["ops"])
            if state["fixed"]:
                return p["old"]
            for at, op in sorted(p["fails"], key=lambda x: x[0], reverse=True):
                rv[min(at, len(rv)):min(at, len(rv))] = [["fail"], ["tln", "failed"]] if op == ["failln"] else [op]
            return rv
        if p["async"]:
            async def test(t):
                return await async_program(ops())(t)
        else:
            def test(t):
                return program(ops())(t)
        return test

    cases = [[f"test/case{k}", make(p)] for k, p in enumerate(case["programs"])]
    executed = []
    names = [n for n, _ in cases]
    failing = [n for n, p in zip(names, case["programs"]) if p["fails"]]
    if case["accepted"]:
        run(cases, ["-a"])
        for n, p in zip(names, case["programs"]):
            if not p["snapshot"]:
                import os
                import shutil
                if os.path.exists(f"books/{n}.md"):
                    os.remove(f"books/{n}.md")
                shutil.rmtree(f"books/{n}", ignore_errors=True)
    state["fixed"] = False
    before = book_files("books")
    cases = [[n, spy(f, executed, n)] for n, f in cases]
    answers = case["answers"] + ["c"] * 40
    result = run(cases, case["args"], answers=list(answers))
    for n in failing:
        ctx.label("failing in " + (" ".join(a for a in case["args"] if a != "-v") or "plain"))
    ctx.nontrivial(bool(failing) and any(a in case["args"] for a in ("-a", "-u", "-i", "-I")) and case["accepted"])
    stopped = "q" in case["answers"] or "-f" in case["args"]
    if not stopped:
        check_eq(executed, names, "cases executed")
    for n in failing:
        if n in executed:
            judge(n, before)
    if any(n in executed for n in failing):
        check(result.code != 0, "exit status is 0 although", failing, "failed")
    # reviews do not turn it either
    for args in case["reviews"]:
        result = run(cases, ["-w"] + args, answers=list(answers))
        for n in failing:
            if n in executed:
                judge(n, before)
        if any(n in executed for n in failing):
            check(result.code != 0, f"exit status of review {args} is 0 although", failing, "failed")


def spy(f, executed, n):
    import inspect
    if inspect.iscoroutinefunction(f):
        async def test(t):
            executed.append(n)
            return await f(t)
    else:
        def test(t):
            executed.append(n)
            return f(t)
    return test


def judge(n, before):
    check_eq(verdict("books", n), "FAIL", "verdict of", n, report_marks("books", n)[-3:])
    after = {k: v for k, v in book_files("books").items() if k == n + ".md" or k.startswith(n + "/")}
    mine = {k: v for k, v in before.items() if k == n + ".md" or k.startswith(n + "/")}
    check_eq(after, mine, "snapshot of failed", n)


@st.composite
def cases(draw):
    ps = []
    for _ in range(draw(st.integers(1, 3))):
        ops = draw(programs(max_statements=4))
        ops = [op for op in ops if op[0] != "return"]
        fails = []
        if draw(st.integers(0, 3)) > 0:
            fails = draw(st.lists(st.tuples(st.integers(0, len(ops)), st.sampled_from(FAILS)).map(list), min_size=1, max_size=2))
        old = draw(st.one_of(st.just(ops), st.just(ops), programs(max_statements=3, side_effects=False)))
        ps.append({"ops": ops, "fails": fails, "old": old, "async": draw(st.booleans()), "snapshot": draw(st.integers(0, 3)) > 0})
    return {
        "programs": ps,
        "accepted": draw(st.integers(0, 4)) > 0,
        "args": draw(st.sampled_from([[], ["-a"], ["-a"], ["-u"], ["-a", "-u"], ["-i"], ["-I"], ["-a", "-i"], ["-u", "-I"], ["-a", "-v"],
                                      ["-v", "-L"], ["-a", "-L"], ["-a", "-f"], ["-s", "-a"], ["-S", "-a"], ["-S", "-u"]])),
        "reviews": draw(st.lists(st.sampled_from([[], ["-a"], ["-u"], ["-a", "-u"], ["-i"], ["-I"], ["-a", "-c"], ["-I", "-u"]]), max_size=2)),
        "answers": draw(st.lists(st.sampled_from(["a", "a", "a", "c", "q", "A", "accept", ""]), max_size=8)),
    }


def history_oracle(case, ctx):
    def each(h, step, rv):
        p, before, after, result, events = rv
        failed = [n for n, v in p.verdicts.items() if v == "FAIL"]
        last = dict(after.records)
        for n in failed:
            check_eq(last.get(n), "FAIL", f"verdict of failed {n} in {step['cmd']} {step['args']}")
            check_eq(after.snapshots[n], before.snapshots[n], f"snapshot of failed {n}")
            check_eq(after.snapshot_files[n], before.snapshot_files[n], f"snapshot files of failed {n}")
        if failed:
            check(result.code != 0, f"exit status of {step['cmd']} {step['args']} is 0 although {failed} failed")
            parallel = any(a.startswith("-p") for a in step["args"])
            ctx.label("parallel failing" if parallel else "failing")
            ctx.nontrivial(any(a in step["args"] for a in ("-a", "-u", "-i", "-I")) and
                           any(before.snapshots[n] is not None for n in failed))
    play(case, ctx, ["executed"], each)


def history_cases():
    return histories(["run", "run", "run", "review"], min_names=2, fail=2, min_steps=3, max_steps=5, parallel=12,
                     modes=[[], ["-a"], ["-a"], ["-a"], ["-u"], ["-u"], ["-i"], ["-I"], ["-a", "-u"], ["-a", "-I"], ["-u", "-i"]],
                     extra=["-f", "-c", "-v", "-s", "-S"], answers=("a", "a", "a", "a", "c", "q", "x", ""))


CAMPAIGNS = [
    Campaign("programs", cases, oracle, 2400, 60000),
    Campaign("histories", history_cases, history_oracle, 1600, 40000, hang_s=60),
]
