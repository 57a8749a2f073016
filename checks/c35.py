import os

from hypothesis import strategies as st

from vp import model
from vp.behave import begun, set_behaviour, take_events
from vp.core import Campaign, check, check_eq
from vp.history import VALUES, behaviours, dependency_specs, rarely, selections
from vp.model import World, split_args
from vp.project import dependency_cases, forked_workers, loaded
from vp.world import run, tree

PROPERTY = "C35"
RULE = ("suites with dependencies, whose books are written by runs (accepting or not) and edited and removed by hand, and printing, path, viewing and "
        "listing commands with any selection, continue and refresh flags and viewers, compared with what is on the disk; non-trivial: at "
        "least two snapshots are printed or viewed, while a selected case has none or a snapshot is not selected")

NAMES = ["test/a", "test/ab", "test/b c", "test/é", "test/s/a", "test/s/b", "test/t/it's", "book/x", "book/x2", "other/y", "test/$HOME"]
TEXT = st.one_of(st.sampled_from(["", "\n", "x", "x\n", "# a\n\nb\n", "äö\n", "%s {0} \\n\n", "a\tb\n", "\n\nx\n\n"]),
                 st.text(alphabet=st.sampled_from("ab #é%\\{}\n\t"), max_size=30))


def calls():
    if not os.path.exists("viewer.log"):
        return []
    with open("viewer.log") as f:
        rv = f.read()
    os.remove("viewer.log")
    return [c.split("\0")[:-1] for c in rv.split("\1")[:-1]]


def oracle(case, ctx):
    spec = case["spec"]
    order = [n for n, _ in spec["cases"]]
    deps = {n: [d for d, _ in v if d is not None] for n, v in dependency_cases(spec).items()}
    with open("viewer.sh", "w") as f:
        f.write('for x in "$@"; do printf "%s\\000" "$x" >> viewer.log; done; printf "\\001" >> viewer.log; exit ' + str(case["status"]) + "\n")
    viewer = f"sh {os.getcwd()}/viewer.sh one"
    if case["viewer"] == "env":
        os.environ["BOOKTEST_MD_VIEWER"] = viewer
    elif case["viewer"] == "file":
        with open(".booktest", "w") as f:
            f.write(f"md_viewer={viewer}\n")
    set_behaviour({n: {"ops": v} for n, v in case["start"].items()})
    with loaded(spec) as suite, forked_workers():
        for step in case["steps"]:
            cmd, args = step["cmd"], step.get("args")
            if cmd == "run":
                set_behaviour({n: {"ops": v} for n, v in {**case["start"], **step["set"]}.items()})
                run(suite, args)
                take_events()
                continue
            if cmd == "edit":
                f = os.path.join("books", step["name"] + ".md")
                if step["text"] is None:
                    if os.path.exists(f):
                        os.remove(f)
                else:
                    os.makedirs(os.path.dirname(f), exist_ok=True)
                    with open(f, "wb") as h:
                        h.write(step["text"].encode())
                continue
            world = World("books", order)
            flags, selection = split_args(args)
            cases, todo = model.todo_of(order, deps, flags, selection, world)
            before = tree("books") if os.path.isdir("books") else {}
            about = f"of {args}, snapshots {[n for n in order if world.snapshots[n] is not None]}, records {world.records}"
            own = case["viewer"] == "flag" and cmd == "--view"
            result = run(suite, args + [cmd] + (["-md-viewer", viewer] if own else []))
            check_eq(tree("books") if os.path.isdir("books") else {}, before, f"book after {cmd}")
            check_eq(begun(take_events()), [], f"tests run by {cmd}")
            shown = [n for n in (cases if cmd == "--view" else todo) if world.snapshots[n] is not None]
            lacking = [n for n in (cases if cmd == "--view" else todo) if world.snapshots[n] is None]
            if cmd == "--print":
                check_eq(result.out, "".join(world.snapshots[n] for n in shown), "printed " + about)
                check_eq(result.code, 0, "exit status of --print " + about)
            elif cmd == "--path":
                check_eq(result.out, "".join(f"books/{n}.md\n" for n in todo), "paths " + about)
                check_eq(result.code, 0, "exit status of --path " + about)
            elif cmd == "-l":
                check_eq(result.out, "".join(f"  {n}\n" for n in todo), "listed " + about)
                check_eq(result.code, 0, "exit status of -l " + about)
            else:
                got = calls()
                if case["viewer"] is None:
                    check_eq(got, [], "viewer calls " + about)
                    if shown:
                        check("md_viewer" in result.out and result.code != 0, "an undefined viewer is not reported", result.out, result.code)
                        ctx.label("undefined viewer")
                else:
                    check_eq(got, [["one"] + [f"books/{n}.md" for n in shown]] if shown else [], "files viewed " + about)
                    if shown:
                        check_eq((result.code & 0xff) == 0, case["status"] == 0, f"success of --view, exit status {result.code}, of a viewer with exit status {case['status']} " + about)
                if not shown:
                    check_eq(result.code, 0, "exit status of --view " + about)
            ctx.label(cmd)
            if cmd != "-l":
                ctx.nontrivial(len(shown) >= 2 and (bool(lacking) or any(world.snapshots[n] is not None for n in order if n not in shown)))


@st.composite
def cases(draw):
    spec = draw(dependency_specs(min_functions=2, max_functions=6, max_books=1 if draw(st.integers(0, 3)) == 0 else 0, resources=False, pool=NAMES))
    names = [n for n, _ in spec["cases"]]
    steps = []

    def select():
        return draw(selections(names)) if draw(st.integers(0, 2)) else draw(st.sampled_from([[], ["*"], ["*"]]))

    steps.append({"cmd": "run", "set": {}, "args": draw(st.sampled_from([["-a", "*"], ["-a", "*"], ["-a"], ["*"]]))})
    for _ in range(draw(st.integers(1, 3))):
        for _ in range(draw(st.integers(0, 2))):
            if rarely(draw, 2):
                steps.append({"cmd": "run", "set": {n: draw(behaviours(fail=6)) for n in names if draw(st.booleans())},
                              "args": draw(st.sampled_from([[], ["-a"], ["-u"], ["-c"], ["-p2"]])) + select()})
            else:
                steps.append({"cmd": "edit", "name": draw(st.sampled_from(names)), "text": draw(st.one_of(st.none(), TEXT))})
        for _ in range(draw(st.integers(1, 3))):
            steps.append({"cmd": draw(st.sampled_from(["--print", "--print", "--view", "--view", "--path", "-l"])),
                          "args": draw(st.sampled_from([[], [], [], ["-c"], ["-r"], ["-c", "-r"], ["-v"], ["-i"], ["-p"]])) + select()})
    return {"spec": spec, "start": {n: draw(behaviours(fail=8, values=VALUES)) for n in names},
            "viewer": draw(st.sampled_from(["env", "env", "file", "flag", None])), "status": draw(st.sampled_from([0, 0, 1, 3])), "steps": steps}


CAMPAIGNS = [Campaign("histories", cases, oracle, 1600, 40000, hang_s=60)]
