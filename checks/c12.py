import os
import pickle
import re

from hypothesis import strategies as st

from vp import cli
from vp.behave import begun, set_behaviour, take_events
from vp.core import Campaign, check, check_eq
from vp.history import NAMES, VALUES, behaviours, dependency_specs, rarely, selections
from vp.project import dependency_cases, forked_workers, loaded, write_project
from vp.world import book_files, files, of_no_case, records, run

PROPERTY = "C12"
RULE = ("random suites with dependencies, outcomes of every kind, files, logs and durations; the same history of commands is given "
        "sequentially in one directory and in parallel (1 to 8 processes) in another, and everything left on the disk, the "
        "executions and the exit status are compared; forked workers in the bulk, spawned ones of the command line tool in the "
        "rest; non-trivial: at least 3 cases executed in parallel with 2 different verdicts or a dependency")


def normal(data, d):
    if data is None:
        return None
    text = data.replace(os.path.realpath(d).encode(), b"DIR").replace(d.encode(), b"DIR")
    return re.sub(rb"0x[0-9a-f]+", b"0x", text)


def state(d, names):
    """ everything that a run leaves, that does not depend on time """
    out = {}
    for k, v in files(os.path.join(d, "books")).items():
        if of_no_case(k, names):
            continue
        if k.startswith(".out/") and k.endswith(".bin") and k[len(".out/"):-len(".bin")] in names:
            v = repr(pickle.loads(v)).encode()
        out[k] = normal(v, d)
    return out


def differences(a, b):
    rv = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            rv.append(f"{k}: sequential {a.get(k)!r:.300}, parallel {b.get(k)!r:.300}")
    return "; ".join(rv)


def accepting(text):
    """ a reviewer, who accepts what can be accepted """
    return "a" if "(a)ccept" in text[text.rindex("\n", 0, len(text)) + 1:] else "c"


def oracle_by(engine):
    def oracle(case, ctx):
        spec = case["spec"]
        here = os.getcwd()
        dirs = [os.path.join(here, "seq"), os.path.join(here, "par")]
        for d in dirs:
            os.makedirs(d)
            if engine == "cli":
                write_project(spec, d)
        names = [n for n, _ in spec["cases"]]
        deps = {n: [d for d, _ in v if d is not None] for n, v in dependency_cases(spec).items()}
        behaviour = dict(case["start"])

        def command(d, args):
            os.chdir(d)
            set_behaviour({k: {"ops": v["ops"], "ms": v["ms"] if d == dirs[1] else 0} for k, v in behaviour.items()})
            take_events()
            if engine == "cli":
                r = cli.booktest(args, d, timeout=100)
            else:
                r = run(suite, args, answers=lambda text: accepting(text) if "-a" not in args else "c")
            ev = take_events()
            os.chdir(here)
            return r, ev

        with loaded(spec) as suite, forked_workers():
            for step in case["steps"]:
                behaviour.update(step["set"])
                fast = "-f" in step["args"]
                before = [records(os.path.join(d, "books")) for d in dirs]
                a, ev_a = command(dirs[0], [x for x in step["args"] if x != "-f"] if fast else step["args"])
                n = step["processes"]
                how = n if isinstance(n, str) else f"--parallel-count={n}"
                b, ev_b = command(dirs[1], [how] + step["args"])
                about = f"of {step['args']} with {step['processes']} processes"
                ctx.label(f"{step['processes']} processes")
                ra, rb = records(os.path.join(dirs[0], "books")), records(os.path.join(dirs[1], "books"))
                all_ok = all(v == "OK" for n, v in ra if n in begun(ev_a))
                if fast and not all_ok:
                    # it stops early, somewhere: what it recorded is true, and it is not a success
                    ctx.label("fail fast")
                    true = dict(ra)
                    for n in begun(ev_b):
                        check_eq(begun(ev_b).count(n), 1, f"executions of {n} {about}")
                        check(n in begun(ev_a), "case", n, "was run but is not selected", about)
                    old = dict(before[1])
                    check_eq(sorted(n for n, _ in rb), sorted(set(n for n, _ in rb)), "cases recorded " + about)
                    stopped = False
                    for n, v in rb:
                        check(v == true.get(n) or (n not in begun(ev_b) and v == old.get(n)), "verdict of", n, v, "instead of", true.get(n), about)
                        stopped = stopped or (n in begun(ev_b) and v != "OK")
                    check(stopped, "no record of a case that is not OK", about, rb)
                    check(b.code != 0, "exit status 0", about, rb)
                    return
                check_eq(sorted(begun(ev_b)), sorted(begun(ev_a)), "cases executed " + about)
                check_eq(b.code, a.code, "exit status " + about)
                check_eq(sorted(rb), sorted(ra), "records " + about)
                sa, sb = state(dirs[0], names), state(dirs[1], names)
                check(sa == sb, "files left", about, differences(sa, sb))
                ea = {e["case"]: e["args"] for e in ev_a if e["kind"] == "begin"}
                eb = {e["case"]: e["args"] for e in ev_b if e["kind"] == "begin"}
                check_eq(eb, ea, "arguments received " + about)
                kinds = set(v for n, v in rb if n in eb)
                for k in kinds:
                    ctx.label("with " + k)
                ctx.nontrivial(len(eb) >= 3 and (len(kinds) > 1 or any(deps[n] for n in eb)))
    return oracle


LARGE = NAMES + [f"large/{i % 7}/c{i}" for i in range(40)]


@st.composite
def cases(draw, cli=False, many=False, stop=False):
    if stop:
        # enough work that a run that stops early is seen
        spec = draw(dependency_specs(min_functions=6, max_functions=12, max_books=1, pool=LARGE, resources=False))
    elif many:
        spec = draw(dependency_specs(min_functions=15, max_functions=40, max_books=3, pool=LARGE, resources=draw(st.booleans())))
    else:
        spec = draw(dependency_specs(max_functions=6, max_books=2, resources=draw(st.booleans())))
    names = [n for n, _ in spec["cases"]]

    def behaviour():
        ops = draw(behaviours(fail=200 if stop else 5, values=VALUES))
        for _ in range(draw(st.integers(0, 2))):
            op = draw(st.sampled_from([["stderr", "err\n"], ["log", "warning", "logged"], ["tmp", "t.txt", "x"], ["stderr", "no break"]]))
            ops.insert(draw(st.integers(0, len(ops))), op)
        return {"ops": ops, "ms": draw(st.sampled_from([0, 15, 30] if stop else [0, 0, 0, 2, 5, 15]))}

    def step():
        args = list(draw(st.sampled_from([[], [], ["-a"], ["-a"], ["-u"], ["-c"], ["-c", "-a"], ["-r"], ["-a", "-v"], ["-L"], ["-a", "-u"],
                                          ["-f"], ["-f", "-a"]] + ([] if cli else [["-i"], ["-I"], ["-I", "-a"], ["-i", "-v", "-c"]]))))
        if stop:
            args = list(draw(st.sampled_from([["-f", "-a"], ["-f", "-a"], ["-f", "-I"], ["-f", "-i"], ["-f"]])))
        if rarely(draw, 3):
            args += draw(selections(names))
        return {"set": {n: behaviour() for n in names if draw(st.booleans())}, "args": args,
                "processes": draw(st.sampled_from([1, 2])) if stop else draw(st.sampled_from([1, 2, 2, 3, 4, 8, "-p", "-p1", "-p2", "-p3", "-p4", "-p6"] if not cli else [1, 2, 3, "-p1", "-p2", "-p"]))}

    return {"spec": spec, "start": {n: behaviour() for n in names},
            "steps": [step() for _ in range(draw(st.integers(1, 2 if cli else 4)))]}


CAMPAIGNS = [
    Campaign("forked workers", cases, oracle_by("fork"), 640, 30000, hang_s=60),
    Campaign("many cases", lambda: cases(many=True), oracle_by("fork"), 16, 600, hang_s=120),
    Campaign("fail fast", lambda: cases(stop=True), oracle_by("fork"), 64, 2400, hang_s=120),
    Campaign("command line", lambda: cases(cli=True), oracle_by("cli"), 48, 1500, hang_s=300),
]
