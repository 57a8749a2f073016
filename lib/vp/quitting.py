"""
Parallel runs with a review: the user answers by case, and may quit, when all cases of the run have ended
"""
import os
import time

from hypothesis import strategies as st

from vp import model
from vp.behave import begun, take_events
from vp.core import Violation, check, check_eq
from vp.history import NAMES, SHOWN, History, behaviours, dependency_specs, rarely, record_map, selections
from vp.model import World
from vp.world import run, summary


def oracle_of(aspects):
    def quit_oracle(case, ctx):
        """ a parallel run is quit in its review, when all of its cases have ended: their results are in the report """
        try:
            attempt(case, ctx, "first", 0.25, aspects)
        except Violation:
            # the results are collected by another thread, which may have been late
            ctx.label("tried again")
            attempt(case, ctx, "second", 5, aspects)
    return quit_oracle


def attempt(case, ctx, d, slack, aspects):
    d = os.path.join(ctx.dir, d)
    os.makedirs(d)
    os.chdir(d)
    h = History(case["spec"], ctx, ["executed", "verdicts", "exit"])
    order, deps = h.order, h.deps
    with h.open():
        h.set(case["start"])
        for args in case["before"]:
            h.command("run", args)
        for step in case["steps"]:
            h.set(step["set"])
            args = step["args"]
            take_events()
            before = World("books", order)
            plain = [a for a in args if a not in ("-i", "-I") and not a.startswith("-p")]
            p = model.predict_run(order, deps, h.behaviour, before, plain, [])
            asked, left = [], []

            def answer(out):
                check(not left, "question after quitting at", left, out)
                shown = [n for n, v in shown_cases(out, order)]
                check(shown, "question about no case", out)
                name = shown[-1]
                a = step["answers"].get(name, "c")
                if name in asked:
                    a = "c"  # accepting was not possible
                asked.append(name)
                if a in ("q", "^C"):
                    left.append(name)
                if a in ("q", "^C") or step["late"] and len(asked) == 1:
                    # the reports of all cases are waiting for the review
                    until = time.monotonic() + 30
                    while time.monotonic() < until:
                        ended = [e["case"] for e in take_events(keep=True) if e["kind"] == "end"]
                        if set(ended) >= set(p.executed):
                            break
                        time.sleep(0.005)
                    time.sleep(slack)
                if a == "^C":
                    raise KeyboardInterrupt()
                return a

            result = run(h.suite, args, answers=answer)
            executed = begun(take_events())
            after = World("books", order)
            about = f"after {args} with answers {step['answers']}, asked {asked}, left at {left}"
            final = {}
            accepted = []
            interrupted = left and step["answers"].get(left[0]) == "^C"
            for n in p.final:
                if interrupted and n == left[0]:
                    continue  # it was not decided on
                # the verdict of the run's worker is what is accepted
                accept = n in asked and step["answers"].get(n) == "a" and p.final[n] != "FAIL"
                if accept:
                    accepted.append(n)
                final[n] = "OK" if accept else p.final[n]
            ctx.label("interrupted" if interrupted else "quit" if left else "not quit")
            ctx.label("accepted", len(accepted))
            if "executed" in aspects:
                check_eq(sorted(executed), sorted(p.executed), "cases executed " + about)
            if "records" in aspects:
                expected = {n: [v] for n, v in before.records if n not in p.todo}
                expected.update({n: [v] for n, v in final.items()})
                check_eq(record_map(after.records), expected, "records " + about)
            if "asked" in aspects:
                due = sorted(n for n in p.final if "-I" in args or p.final[n] != "OK")
                got = sorted(set(asked))
                if left:
                    check(set(got) <= set(due), "questions", got, "are about cases not in", due, about)
                else:
                    check_eq(got, due, "questions " + about)
            if "exit" in aspects:
                check_eq(result.code, 0 if not interrupted and all(v == "OK" for v in final.values()) else 255, "exit status, final verdicts " +
                         str(final) + " " + about)
            if "summary" in aspects:
                s = summary(result.out)
                check(s is not None, "no summary on the console", result.out)
                bad = sorted(n for n, v in final.items() if v != "OK")
                check_eq((s[0], s[1], sorted(s[2])), (len(bad), len(final), bad), "console summary " + about)
                shown = sorted(n for n, v in shown_cases(result.out, order))
                if interrupted:
                    # the line of the question is not ended
                    shown = sorted(n for n in order if f"  {n}.." in result.out and n != left[0])
                check_eq(shown, sorted(final), "cases on the console " + about)
            if "snapshots" in aspects:
                for n in accepted:
                    p.accepted.append(n)
                    b = model.Behaviour(h.behaviour[n])
                    p.snapshots[n] = b.text
                    p.snapshot_files[n] = b.files
                model.check_snapshots(before, after, p, order)
            ctx.nontrivial(bool(left) and len(p.final) - len(set(asked)) >= 1)
            # and the run can be continued
            p, before, after, result, events = h.command("run", step["continue"])
            check_eq(record_map(after.records), {**{n: [v] for n, v in before.records if n not in p.todo},
                                                 **{n: [v] for n, v in p.final.items()}}, "records of the continued run", step["continue"])
    os.chdir(ctx.dir)


def shown_cases(out, names):
    rv = []
    for line in out.split("\n"):
        m = SHOWN.match(line)
        if m and m.group(1) in names:
            rv.append((m.group(1), m.group(2)))
    return rv


@st.composite
def quit_cases(draw):
    if draw(st.booleans()):
        spec = draw(dependency_specs(max_functions=4, max_books=0, resources=False))
    else:
        names = draw(st.lists(st.sampled_from(NAMES), min_size=2, max_size=6, unique=True))
        spec = {"functions": [{} for _ in names], "cases": [[n, ["f", i]] for i, n in enumerate(names)]}
    names = [n for n, _ in spec["cases"]]

    def step():
        args = [f"--parallel-count={draw(st.sampled_from([1, 2, 4, 8]))}", draw(st.sampled_from(["-I", "-I", "-i"]))]
        args += draw(st.sampled_from([[], [], [], ["-c"], ["-a"], ["-u"]]))
        if rarely(draw, 5):
            args += draw(selections(names))
        answers = {n: draw(st.sampled_from(case_answers)) for n in names}
        return {"set": {n: draw(behaviours(fail=6)) for n in names if draw(st.booleans())}, "args": args, "answers": answers,
                "late": rarely(draw, 3),
                "continue": draw(st.sampled_from([["-c"], ["-c", "-p2"], ["-c", "-a"]]))}

    # accepting all but the last one leaves an exit status to what was not reviewed
    case_answers = draw(st.sampled_from([["c", "a", "q", "q"], ["a", "a", "q"], ["a", "a", "a", "c"], ["a", "c", "^C"], ["a", "a", "q", "^C"]]))
    return {"spec": spec, "start": {n: draw(behaviours(fail=8)) for n in names},
            "before": draw(st.sampled_from([[], [["-a"]], [["-a"]], [[]]])),
            "steps": [step() for _ in range(draw(st.integers(1, 2)))]}
