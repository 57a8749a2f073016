import os
import sys

from booktest.detection import BookTestSetup
from hypothesis import strategies as st

from vp import cli
from vp.behave import set_behaviour, take_events
from vp.core import Campaign, check, check_eq
from vp.history import NAMES, VALUES, behaviours, dependency_specs, rarely
from vp.model import Behaviour
from vp.project import MODULE, dependency_cases, forked_workers, loaded, write_project
from vp.world import in_loop, records, run

PROPERTY = "C27"
RULE = ("random suites of functions and books with dependencies, synchronous and asynchronous, under stacks of setup/teardown "
        "decorators and a process setup, with outcomes of every kind (setups and teardowns that raise, interruptions), run in this "
        "process, with forked workers and by the command line tool; the log of setups, tests and teardowns must be exactly the "
        "bracketing of the executed cases; process setups that fail always or once, in sequential and parallel runs, of cases with shared resources. non-trivial: at least 2 executed cases, one of them decorated or failing")

PREAMBLE = ["from vp.behave import bracket", "", "def process_setup_teardown():", "    yield from bracket('process', {mode!r})()", ""]


def chain(f):
    """ the decorators from the outside, 'deps' where dependencies are resolved """
    return f.get("outer_labels", []) + (["deps"] if f.get("deps") else []) + f.get("inner_labels", [])


def expected_events(name, f, reached):
    """ events of one execution, and whether it failed on the way. reached: dependencies were there """
    rv, open_labels, failed = [], [], False
    for item in chain(f):
        if item == "deps":
            if not reached:
                failed = True
                break
        else:
            label, mode = item
            rv.append(("setup", label))
            if mode == "setup raises":
                failed = True
                break
            open_labels.append(item)
    else:
        rv += [("begin", name), ("end", name)]
    for label, mode in reversed(open_labels):
        rv.append(("teardown", label))
        failed = failed or mode == "teardown raises"
    return rv, failed


def fails(ops):
    return any(o[0] == "interrupt" for o in ops) or Behaviour(ops).fails


def functions_of(spec):
    return {n: spec["functions"][r[1]] if r[0] == "f" else spec["books"][r[1]]["methods"][r[3]] for n, r in spec["cases"]}


def describe(events):
    return [(e["kind"], e.get("label") or e.get("case")) for e in events if e["kind"] in ("setup", "begin", "end", "teardown")]


def oracle_by(engine):
    def oracle(case, ctx):
        spec = dict(case["spec"])
        if case["process"]:
            if engine == "cli":
                setup_source = "\n".join(PREAMBLE).format(mode=case["process"])
            else:
                spec["preamble"] = [x.format(mode=case["process"]) for x in PREAMBLE]
        deps = dependency_cases(spec)
        functions = functions_of(spec)
        names = [n for n, _ in spec["cases"]]
        process = [("setup", "process")] if case["process"] else []
        process_end = [("teardown", "process")] if case["process"] else []
        if engine == "cli":
            write_project(spec, ".", setup_source if case["process"] and not case["sub"] else None)
            if case["process"] and case["sub"]:
                os.makedirs("test/deep/er")
                with open("test/deep/er/__booktest__.py", "w") as f:
                    f.write(setup_source)
        with loaded(spec) as suite, forked_workers(), in_loop(case.get("loop", False)) as available:
            if not available:
                ctx.label("not available")
                return
            for name, method in suite.cases:
                ref = dict((n, r) for n, r in spec["cases"])[name]
                check_eq(method.__name__, f"f{ref[1]}" if ref[0] == "f" else f"test_m{ref[3]}", "name of the decorated function of", name)
            setup = None
            if engine != "cli" and case["process"]:
                setup = BookTestSetup(sys.modules[MODULE].process_setup_teardown)
            for step in case["steps"]:
                parallel = [f"--parallel-count={step['processes']}"] if step["processes"] else []
                set_behaviour({k: {"ops": v} for k, v in step["set"].items()})
                take_events()
                args = parallel + step["args"]
                interrupted = False
                if engine == "cli":
                    r = cli.booktest(args, ".", timeout=100)
                else:
                    try:
                        r = run(suite, args, setup=setup)
                    except KeyboardInterrupt:
                        interrupted = True
                events = take_events()
                judge(case, ctx, step, events, interrupted or any("interrupt" in [o[0] for o in v] for v in step["set"].values()),
                      process, process_end, deps, functions, names)
                check(os.environ.get("VP_SETUP", "") == "", "the set up state is left:", os.environ.get("VP_SETUP"))
                os.environ.pop("VP_SETUP", None)
    return oracle


def judge(case, ctx, step, events, may_stop, process, process_end, deps, functions, names):
    about = f"with {step['args']}, {step['processes']} processes"
    results = dict(records("books"))
    by_pid = {}
    for e in events:
        by_pid.setdefault(e["pid"], []).append(e)
    values = {e["case"]: e["value"] for e in events if e["kind"] == "return"}
    begun = set(e["case"] for e in events if e["kind"] == "begin")
    executed = []
    for pid, mine in by_pid.items():
        seen = describe(mine)
        at = 0

        def take(expected, what):
            nonlocal at
            check_eq(seen[at:at + len(expected)], expected, f"{what} {about}, all events {seen}, after {at}")
            at += len(expected)

        if not step["processes"]:
            take(process, "events before the first case")
        # split in executions: which case each one is of, is told by its outermost label or begin
        while at < len(seen) and (step["processes"] or seen[at:] != process_end):
            if step["processes"]:
                take(process, "events before a case")
                if process and seen[at:at + 1] == process_end:
                    # a case that lacks a dependency
                    take(process_end, "events after a case")
                    continue
                check(at < len(seen), "setup without a case", about, seen)
            owner = None
            for n in names:
                labels = [x for x in chain(functions[n]) if x != "deps"]
                first = ("setup", f"{labels[0][0]}") if labels else ("begin", n)
                if seen[at] == first:
                    candidate, _ = expected_events(n, functions[n], True)
                    shorter, _ = expected_events(n, functions[n], False)
                    if seen[at:at + len(candidate)] == candidate:
                        owner, expected = n, candidate
                        break
                    if functions[n].get("deps") and seen[at:at + len(shorter)] == shorter and shorter:
                        owner, expected = n, shorter
                        break
            check(owner is not None or at >= len(seen), "events", seen[at:], "are not the bracketed execution of any case", about,
                  "all events", seen)
            take(expected, f"events of {owner}")
            executed.append(owner)
            if step["processes"]:
                take(process_end, f"events after {owner}")
        if not step["processes"]:
            take(process_end, "events after the last case")
        check_eq(at, len(seen), f"events {about} of {seen}")
    if process and not step["processes"]:
        check_eq(len(by_pid), 1, "processes with events " + about)
        check(describe(events)[:1] == process, "no process setup", about)
    # what the executions saw and came to
    for e in events:
        if e["kind"] == "begin":
            n = e["case"]
            labels = [x[0] for x in chain(functions[n]) if x != "deps"]
            check_eq(e["setup"], "".join("/" + x for x in [p[1] for p in process] + labels), f"state seen by {n} {about}")
            for (d, value), got in zip(deps[n], e["args"]):
                if d is None:
                    check_eq(got, value, f"resource received by {n}")
                elif d in values and results.get(d) == "OK":
                    check_eq(got, values[d], f"value of {d} received by {n} {about}")
            check_eq(len(e["args"]), len(deps[n]), f"number of dependencies received by {n}")
            _, failed = expected_events(n, functions[n], True)
            if n in results and not may_stop:
                check_eq(results[n], "FAIL" if failed or fails(step["set"][n]) else "OK", f"verdict of {n} {about}")
            if failed:
                ctx.label("raising setup or teardown")
            if fails(step["set"][n]):
                ctx.label("failing case")
            if labels:
                ctx.label("decorated case")
    for n in executed:
        if n not in begun and n in results and not may_stop:
            check_eq(results[n], "FAIL", f"verdict of {n}, which was not set up, {about}")
    if not may_stop and "-f" not in step["args"]:
        for n in step["selected"]:
            _, failed = expected_events(n, functions[n], True)
            # a case that did not begin lacks a dependency or its setup raised
            if n not in begun and not any(m == "setup raises" for m in [x[1] for x in chain(functions[n]) if x != "deps"]):
                lacking = [d for d, _ in deps[n] if d is not None and (
                    d not in values or d not in begun or expected_events(d, functions[d], True)[1] or fails(step["set"][d]))]
                check(lacking, "case", n, "was not executed", about, describe(events))
    if process:
        ctx.label("process setup, " + ("parallel" if step["processes"] else "sequential"))
    ctx.nontrivial(len(executed) >= 2 and any(chain(functions[n]) or fails(step["set"][n]) for n in executed))


@st.composite
def cases(draw, engine="memory"):
    spec = draw(dependency_specs(max_functions=4, max_books=1))
    counter = [0]

    def decorate(f):
        def some(limit):
            labels, sources = [], []
            for _ in range(draw(st.integers(0, limit))):
                counter[0] += 1
                mode = draw(st.sampled_from(["plain", "finally"] * 5 + ["setup raises", "teardown raises"]))
                labels.append([f"s{counter[0]}", mode])
                sources.append(f"bt.setup_teardown(bracket('s{counter[0]}', {mode!r}))")
            if len(sources) == 2 and draw(st.booleans()):
                # the last one of combined decorators is the outermost one
                sources = [f"bt.combine_decorators({sources[1]}, {sources[0]})"]
            return labels, sources
        f["outer_labels"], f["outer"] = some(2)
        f["inner_labels"], f["inner"] = some(2)

    for f in spec["functions"]:
        if draw(st.booleans()):
            decorate(f)
    for b in spec["books"]:
        for m in b["methods"]:
            if draw(st.booleans()):
                decorate(m)
    names = [n for n, _ in spec["cases"]]
    steps = []
    for _ in range(draw(st.integers(1, 2 if engine == "cli" else 3))):
        args = draw(st.sampled_from([["-a"], ["-a"], ["-a", "-v"], ["-a", "-f"], ["-a", "-L"]]))
        select = draw(st.sampled_from([["*"], ["*"], ["*"], names[:1], names[-2:]]))
        behaviour = {n: draw(behaviours(fail=4, files=False, values=VALUES)) for n in names}
        processes = draw(st.sampled_from([0, 0, 2, 3] if engine != "cli" else [0, 2]))
        if engine != "cli" and not processes and rarely(draw, 10):
            behaviour[draw(st.sampled_from(names))] = [["tln", "x"], ["interrupt"]]
        if processes:
            args = [a for a in args if a != "-f"]
        steps.append({"args": args + ["-r"] + select, "selected": names if select == ["*"] else select, "set": behaviour,
                      "processes": processes})
    return {"spec": {**spec, "preamble": ["from vp.behave import bracket", ""]}, "steps": steps, "sub": draw(st.booleans()),
            "loop": engine != "cli" and rarely(draw, 4),
            "process": draw(st.sampled_from(["", "plain", "finally", "finally"]))}


# ---------------------------------------------------------------- process setups that fail

def failing_oracle(case, ctx):
    """ no case runs without its setup, and a run with one that failed is no success """
    names = case["names"]
    # cases that share a resource wait for each other
    spec = {"functions": [{"async": a, "deps": [["res", x]] if x else []} for a, x in zip(case["async"], case["resources"])], "cases": [[n, ["f", i]] for i, n in enumerate(names)],
            "preamble": ["from vp.behave import failing_process", "", "def process_setup_teardown():",
                         f"    yield from failing_process({case['setup']!r}, {case['teardown']!r})", ""]}
    with loaded(spec) as suite, forked_workers(), in_loop(case.get("loop", False)) as available:
        if not available:
            ctx.label("not available")
            return
        for step in case["steps"]:
            set_behaviour({k: {"ops": v} for k, v in step["set"].items()})
            take_events()
            parallel = [f"--parallel-count={step['processes']}"] if step["processes"] else []
            args = parallel + ["-a", "*"]
            about = f"with {args}, setup raising {case['setup']}, teardown raising {case['teardown']}"
            raised, code = False, None
            try:
                code = run(suite, args, setup=BookTestSetup(sys.modules[MODULE].process_setup_teardown)).code
            except ValueError:
                raised = True
            events = take_events()
            os.environ.pop("VP_SETUP", None)
            begun = [e["case"] for e in events if e["kind"] == "begin"]
            check_eq([e["case"] for e in events if e["kind"] == "begin" and e["setup"] != "/process"], [], "cases run without setup " + about)
            setups = sum(e["kind"] == "setup" for e in events)
            check_eq(setups, len(names) if parallel else 1, "process setups " + about)
            failed = setups - len(begun) if parallel else int(case["setup"] in ("always", 1))
            if not parallel:
                check_eq(begun, [] if failed else names, "cases executed " + about)
                check_eq(raised, bool(failed or case["teardown"]), "whether the failure is told " + about)
            else:
                check_eq(failed, len(names) if case["setup"] == "always" else int(case["setup"] is not None and case["setup"] <= len(names)),
                         "cases that could not be set up " + about)
                rs = records("books")
                expected = {n: "FAIL" if n not in begun or fails(step["set"][n]) else "OK" for n in names}
                check_eq(sorted(rs), sorted(expected.items()), "records " + about)
                if not raised:
                    check_eq(code == 0, all(v == "OK" for v in expected.values()), "success " + about)
            ctx.label("parallel" if parallel else "sequential")
            ctx.label(f"{'some' if failed else 'no'} setup failed")
            ctx.nontrivial(len(names) >= 2 and failed)


@st.composite
def failing_cases(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=True))
    return {"names": names, "async": draw(st.lists(st.booleans(), min_size=len(names), max_size=len(names))),
            "resources": draw(st.lists(st.sampled_from([0, 0, 1, 2]), min_size=len(names), max_size=len(names))),
            "setup": draw(st.sampled_from([None, "always", 1, 1, 2, 3])), "teardown": rarely(draw, 3), "loop": rarely(draw, 4),
            "steps": [{"processes": draw(st.sampled_from([0, 1, 2, 4])), "set": {n: draw(behaviours(fail=6, files=False)) for n in names}}
                      for _ in range(draw(st.integers(1, 2)))]}


CAMPAIGNS = [Campaign("failing process setup", failing_cases, failing_oracle, 200, 6000, hang_s=40),
             Campaign("in process", cases, oracle_by("memory"), 1600, 40000, hang_s=60),
             Campaign("command line", lambda: cases("cli"), oracle_by("cli"), 48, 1200, hang_s=200)]
