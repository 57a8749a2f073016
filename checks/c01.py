from hypothesis import strategies as st

from vp import gen
from vp.core import Campaign, check, check_eq
from vp.programs import kinds, programs
from vp.world import (async_program, book_files, program, records, report_marks, run, verdict)

PROPERTY = "C01"
RULE = ("random programs over the whole output API with arbitrary text; accepted in one of four ways, run again twice "
        "(also after an update); non-trivial: at least 3 calls of 2 kinds")


def accept(cases, how):
    if how == "auto":
        return run(cases, ["-a"])
    if how == "update":
        run(cases, ["-a"])
        return run(cases, ["-u"])
    if how == "ask":
        return run(cases, ["-i"], answers=["a"] * len(cases))
    run(cases, [])
    return run(cases, ["-w", "-i"], answers=["a"] * len(cases))


def oracle(case, ctx):
    cases = []
    for k, (ops, is_async) in enumerate(case["programs"]):
        cases.append([f"test/case{k}", async_program(ops) if is_async else program(ops)])
    names = [c[0] for c in cases]
    used = set().union(*[kinds(ops) for ops, _ in case["programs"]])
    ctx.nontrivial(sum(len(o) for o, _ in case["programs"]) >= 3 and len(used) >= 2)
    for k in used:
        ctx.label("op " + k)
    ctx.label("accepted by " + case["accept"])

    result = accept(cases, case["accept"])
    check_eq(result.code, 0, "exit status of accepting")
    check_eq(records("books"), [(n, "OK") for n in names], "records after accepting")
    for round in range(2):
        before = book_files("books")
        check(all(n + ".md" in before for n in names), "snapshot missing from", sorted(before))
        result = run(cases, case["args"])
        for n in names:
            marked = [m for m in report_marks("books", n) if m[0] != "  "]
            check_eq(marked, [], f"marked lines of {n} in run {round}, snapshot {before[n + '.md']!r}")
            check_eq(verdict("books", n), "OK", f"verdict of {n} in run {round}, snapshot {before[n + '.md']!r}")
        check_eq(result.code, 0, "exit status")
        check_eq(records("books"), [(n, "OK") for n in names], "records")
        check_eq(book_files("books"), before, "snapshots after run")
        if round == 0:
            result = run(cases, ["-u"])
            check_eq(result.code, 0, "exit status of update")
            check_eq(records("books"), [(n, "OK") for n in names], "records after update")


def cases():
    return st.fixed_dictionaries({
        "programs": st.lists(st.tuples(programs(), st.booleans()).map(list), min_size=1, max_size=3),
        "accept": st.sampled_from(["auto", "auto", "update", "ask", "review"]),
        "args": st.sampled_from([[], [], ["-v"], ["-f"], ["-v", "-L"], ["-a"]]),
    })


def long_cases():
    return st.fixed_dictionaries({
        "programs": st.tuples(programs(max_statements=30, side_effects=False), st.booleans()).map(lambda x: [list(x)]),
        "accept": st.just("auto"),
        "args": st.just([]),
    })


def simple_cases():
    return st.fixed_dictionaries({
        "programs": st.tuples(programs(max_statements=8, side_effects=False, text=gen.SIMPLE_LINE), st.booleans()).map(lambda x: [list(x)]),
        "accept": st.just("auto"),
        "args": st.just([]),
    })


CAMPAIGNS = [
    Campaign("simple", simple_cases, oracle, 2400, 60000),
    Campaign("programs", cases, oracle, 2400, 100000),
    Campaign("long", long_cases, oracle, 400, 10000),
]
