import os

from hypothesis import strategies as st

from vp import model
from vp.behave import begun, set_behaviour, take_events
from vp.core import Campaign, check, check_eq
from vp.history import dependency_specs
from vp.model import World
from vp.project import dependency_cases, forked_workers, loaded
from vp.world import records, run, tree

PROPERTY = "C11"
RULE = ("random suites of hierarchical names that are string prefixes of each other, with dependencies, and lists of positive and "
        "excluding arguments or configured defaults, listed and run and compared with a reference; non-trivial: some but not all "
        "cases are selected, and a selection is a string prefix of a name that it does not select or a dependency is added")

PARTS = ["a", "ab", "a-b", "b", "a b", "é", "abc", "a.b", "a*", "*"]


@st.composite
def name_pools(draw):
    """ distinct names, none under another """
    names = []
    for _ in range(draw(st.integers(4, 8))):
        n = "/".join([draw(st.sampled_from(["test", "test", "test", "book", "tes", "testa", "other"]))] +
                     draw(st.lists(st.sampled_from(PARTS), min_size=1, max_size=3)))
        if not any(n == m or n.startswith(m + "/") or m.startswith(n + "/") for m in names):
            names.append(n)
    return names


@st.composite
def cases(draw):
    pool = draw(name_pools())
    spec = draw(dependency_specs(max_functions=min(len(pool), 6), max_books=1 if draw(st.integers(0, 4)) == 0 else 0,
                                 resources=False, pool=pool))
    names = [n for n, _ in spec["cases"]]
    parts = set()
    for n in names:
        c = n.split("/")
        parts.update("/".join(c[:k]) for k in range(1, len(c) + 1))
    parts = sorted(parts)
    some = st.sampled_from(parts)

    def args():
        rv = draw(st.lists(some, max_size=3))
        if draw(st.integers(0, 4)) == 0:
            rv.append("*")
        if draw(st.integers(0, 1)):
            rv += ["skip:" + x for x in draw(st.lists(some, max_size=2))]
        return draw(st.permutations(rv))

    return {
        "spec": spec,
        "failing": draw(st.lists(st.sampled_from(names), max_size=2, unique=True)),
        "defaults": draw(st.sampled_from([None, None, None, "env", "file"])),
        "default_tests": args() or draw(st.sampled_from([["test"], [""]])),
        "rounds": [{"args": args(), "flags": draw(st.sampled_from([[], [], [], ["-r"], ["-c"], ["-a"], ["-a", "-c"], ["-f"]])),
                    "parallel": draw(st.integers(0, 40)) == 40}
                   for _ in range(draw(st.integers(1, 3)))],
        "unknown": draw(st.sampled_from([None, None, None, "nothing", "skip:nothing", "test/", "a", "skip:"])),
    }


def lines_of(out):
    return [line[2:] for line in out.split("\n") if line]


def oracle(case, ctx):
    spec = case["spec"]
    order = [n for n, _ in spec["cases"]]
    deps = {n: [d for d, _ in v if d is not None] for n, v in dependency_cases(spec).items()}
    set_behaviour({n: {"ops": [["tln", "x"]] + ([["fail"]] if n in case["failing"] else [])} for n in order})
    defaults = ["test", "book"]
    if case["defaults"] == "env":
        os.environ["BOOKTEST_DEFAULT_TESTS"] = ",".join(case["default_tests"])
        defaults = case["default_tests"]
    elif case["defaults"] == "file":
        with open(".booktest", "w") as f:
            f.write("default_tests=" + ",".join(case["default_tests"]) + "\n")
        defaults = case["default_tests"]
    with loaded(spec) as suite, forked_workers():
        for r in case["rounds"]:
            args = r["flags"] + r["args"]
            world = World("books", order)
            selected = [n for n in order if model.selected(r["args"] or defaults, n)]
            cases, todo = model.todo_of(order, deps, set(r["flags"]), r["args"], world, defaults)
            before = tree("books") if os.path.isdir("books") else {}
            result = run(suite, ["-l"] + args)
            check_eq(lines_of(result.out), todo, f"listing with {args} (defaults {defaults}) of {order}")
            check_eq(begun(take_events()), [], "cases run by listing")
            check_eq(tree("books") if os.path.isdir("books") else {}, before, "book after listing")
            result = run(suite, ["--path"] + args)
            check_eq([os.path.normpath(x) for x in result.out.split("\n") if x], [f"books/{n}.md" for n in todo], f"paths with {args}")
            # every selected case is listed, and what is listed besides is needed
            if "-c" not in r["flags"]:
                check(set(selected) <= set(todo), "selected cases are not listed", selected, todo)
            stop = "-f" in r["flags"]
            result = run(suite, (["-p2"] if r["parallel"] and not stop else []) + args)
            p = model.predict_run(order, deps, {n: [["tln", "x"]] + ([["fail"]] if n in case["failing"] else []) for n in order},
                                  world, args, [], defaults=defaults)
            executed = begun(take_events())
            if r["parallel"] and not stop:
                check_eq(sorted(executed), sorted(p.executed), f"cases run in parallel with {args}")
            else:
                check_eq(executed, p.executed, f"cases run with {args}")
            names = [n for n, _ in records("books")]
            check(set(p.final) <= set(names), "cases without a record", p.final, names)
            ctx.label("selected " + ("all" if len(selected) == len(order) else "none" if not selected else "some"))
            if set(todo) - set(selected):
                ctx.label("dependencies added")
            tricky = any(n.startswith(a.replace("skip:", "")) and not model.prefixes(a.replace("skip:", ""), n)
                         for a in (r["args"] or defaults) for n in order)
            if tricky:
                ctx.label("string prefix that is not a component prefix")
            ctx.nontrivial(0 < len(selected) < len(order) and (tricky or set(todo) - set(selected)))
        u = case["unknown"]
        parts = set("/".join(n.split("/")[:k]) for n in order for k in range(1, 9))
        if u is not None and u.replace("skip:", "") not in parts:
            before = tree("books")
            code = None
            try:
                run(suite, [u])
            except SystemExit as e:
                code = e.code
            check(code not in (None, 0), "unknown argument", u, "is taken")
            check_eq(begun(take_events()), [], "cases run")
            check_eq(tree("books"), before, "book after an unknown argument")
            ctx.label("unknown argument")


CAMPAIGNS = [Campaign("selections", cases, oracle, 3200, 80000, hang_s=60)]
