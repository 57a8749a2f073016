import os
import random

from hypothesis import strategies as st

from vp import cli
from vp.behave import STATE, begun, set_behaviour, take_events
from vp.core import Campaign, check, check_eq
from vp.history import NAMES, RESOURCES, VALUES, behaviours, dependency_specs, rarely, selections
from vp.project import dependency_cases, forked_workers, loaded, write_project
from vp.world import records, run

PROPERTY = "C13"
RULE = ("random suites with dependencies and exclusive resources (plain, ports, identified; several per case), durations, outcomes, "
        "recorded earlier durations and 1 to 8 processes; begin and end events of the tests are compared with the constraints, and "
        "independent tests that wait for each other must all get to run; forked workers in the bulk, spawned ones in the rest; "
        "non-trivial: at least one pair of cases bound by a dependency or a resource, and two cases that did overlap")


def identity(ref):
    if ref[0] == "port":
        return ("s", f"port={ref[1]}")
    value = ref[2] if ref[0] == "id" and ref[2] is not None else ref[1]
    return ("s", value) if isinstance(value, str) else ("v", value)


def resources_of(spec):
    rv = {}
    for name, ref in spec["cases"]:
        f = spec["functions"][ref[1]] if ref[0] == "f" else spec["books"][ref[1]]["methods"][ref[3]]
        rv[name] = set(identity(r) for r in f.get("deps", []) if r[0] in ("res", "port", "id"))
    return rv


def spans(events):
    rv = {}
    for e in events:
        if e["kind"] == "begin":
            check(e["case"] not in rv, "case", e["case"], "was begun twice")
            rv[e["case"]] = [e["time"], None]
        elif e["kind"] == "end":
            rv[e["case"]][1] = e["time"]
    return rv


def oracle_by(engine):
    def oracle(case, ctx):
        spec = case["spec"]
        d = os.getcwd()
        order = [n for n, _ in spec["cases"]]
        deps = {n: [x for x, _ in v if x is not None] for n, v in dependency_cases(spec).items()}
        resources = resources_of(spec)
        if engine == "cli":
            write_project(spec, d)
        behaviour = dict(case["start"])
        with loaded(spec) as suite, forked_workers():
            for step in case["steps"]:
                behaviour.update(step["set"])
                if step["durations"]:
                    os.makedirs("books/.out", exist_ok=True)
                    with open("books/.out/cases.txt", "w") as f:
                        for n, (v, t) in step["durations"].items():
                            f.write(f"{n}\t{v}\t{t}\n")
                set_behaviour(behaviour)
                take_events()
                # -r: the dependencies are part of the run
                args = [f"--parallel-count={step['processes']}"] + step["args"]
                r = cli.booktest(args, d, timeout=100) if engine == "cli" else run(suite, args)
                s = spans(take_events())
                about = f"with {args}"
                bound = overlapping = 0
                for n in s:
                    check(s[n][1] is not None, n, "did not end")
                    for x in deps[n]:
                        if x in s:
                            bound += 1
                            check(s[x][1] <= s[n][0], n, "began before its dependency", x, "had ended", about)
                names = sorted(s)
                for i, a in enumerate(names):
                    for b in names[i + 1:]:
                        shared = resources[a] & resources[b]
                        apart = s[a][1] <= s[b][0] or s[b][1] <= s[a][0]
                        if shared:
                            bound += 1
                            check(apart, a, "and", b, "ran at the same time, and both have resource", shared, about)
                        overlapping += not apart
                ctx.label(f"{step['processes']} processes")
                ctx.label("bound pairs", bound)
                ctx.label("overlapping pairs", overlapping)
                ctx.nontrivial(bound and overlapping)
                # every case had its turn: it was run, or it lacked a dependency
                if not step["selection"] and "-c" not in step["args"] and "-f" not in step["args"]:
                    for n in order:
                        if n.startswith(("test/", "book/")):
                            check(n in s or dict(records("books")).get(n) == "FAIL", "case", n, "had no turn", about)
    return oracle


@st.composite
def cases(draw, cli=False):
    spec = draw(dependency_specs(max_functions=8, max_books=2, resources=True))
    names = [n for n, _ in spec["cases"]]
    if draw(st.booleans()):
        # more conflicts
        r = draw(st.sampled_from(RESOURCES))
        for f in spec["functions"]:
            if draw(st.booleans()) and str(r) not in map(str, f["deps"]):
                f["deps"] = f["deps"] + [r]

    def behaviour():
        return {"ops": draw(behaviours(fail=8, files=False, values=VALUES)), "ms": draw(st.sampled_from([0, 1, 3, 8, 20]))}

    def step():
        args = list(draw(st.sampled_from([["-r"], ["-r"], ["-r"], [], ["-a"], ["-r", "-a"], ["-c"], ["-r", "-f"]])))
        selection = draw(selections(names)) if rarely(draw, 4) else []
        durations = {}
        if rarely(draw, 2):
            durations = {n: [draw(st.sampled_from(["OK", "FAIL", "DIFF"])), draw(st.sampled_from([0, 0.5, 1, 10, 1e6]))]
                         for n in names if draw(st.booleans())}
        return {"set": {n: behaviour() for n in names if rarely(draw, 3)}, "args": args + selection, "selection": bool(selection),
                "durations": durations, "processes": draw(st.sampled_from([1, 2, 3, 4, 8] if not cli else [2, 3, 4]))}

    return {"spec": spec, "start": {n: behaviour() for n in names},
            "steps": [step() for _ in range(draw(st.integers(1, 1 if cli else 3)))]}


# resources that look alike, and are not equal
APART = [["res", 7], ["res", "7"], ["port", 7], ["port", 8], ["res", "port"], ["id", 7, "cpu"], ["id", "cpu", "CPU"], ["id", "cpu", "cpu0"],
         ["id", 7, "cpu1"], ["res", None], ["res", ""], ["res", 0], ["res", 0.5], ["res", "port=9"], ["id", "cpu", "cp"], ["res", (7,)]]


def overlap_oracle(case, ctx):
    """ cases that share nothing run at the same time when there are processes for them """
    k = case["together"]
    spec = {"functions": [{"deps": [case["own"][i]] if case["own"] else []} for i in range(k)] +
                         [{"deps": [["f", 0]]} for _ in range(case["dependents"])],
            "cases": [[NAMES[i], ["f", i]] for i in range(k + case["dependents"])]}
    names = [n for n, _ in spec["cases"]]
    random.Random(case["shuffle"]).shuffle(spec["cases"])
    set_behaviour({n: {"ops": [], "barrier": k if i < k else None, "timeout": 30} for i, n in enumerate(names)})
    with loaded(spec) as suite, forked_workers():
        run(suite, [f"--parallel-count={case['processes']}", "*"])
    events = take_events()
    check_eq(sorted(begun(events)), sorted(names), "cases executed")
    met = [e for e in events if e["kind"] == "barrier"]
    check(len(met) == k and all(e["met"] for e in met), k, "independent cases did not run at the same time in", case["processes"], "processes")
    ctx.nontrivial(k >= 2)


# resources that are alike to one another in some way
GROUPS = [[["res", 7], ["port", 7], ["res", "7"], ["id", 7, "cpu1"]],
          [["id", "cpu", "CPU"], ["id", "cpu", "cpu0"], ["id", "cpu", "cp"], ["res", "cpu"]],
          [["res", None], ["res", ""], ["res", 0], ["res", 0.5]],
          [["port", 9], ["res", 9], ["id", 9, "port=8"], ["port", 90]]]


def own_resources(k):
    def of(resources):
        return st.lists(st.sampled_from(resources), min_size=k, max_size=k, unique_by=lambda r: str(identity(r)))
    return st.one_of(st.none(), of(APART), st.sampled_from(GROUPS).flatmap(of), st.sampled_from(GROUPS).flatmap(of))


def overlap_cases():
    return st.tuples(st.integers(2, 4), st.integers(0, 2)).flatmap(lambda x: st.fixed_dictionaries({
        "together": st.just(x[0]), "processes": st.just(x[0] + x[1]), "own": own_resources(x[0]), "dependents": st.integers(0, 2),
        "shuffle": st.integers(0, 5)}))


CAMPAIGNS = [
    Campaign("forked workers", cases, oracle_by("fork"), 800, 40000, hang_s=60),
    Campaign("overlap", overlap_cases, overlap_oracle, 48, 800, hang_s=100),
    Campaign("command line", lambda: cases(cli=True), oracle_by("cli"), 48, 1500, hang_s=300),
]
