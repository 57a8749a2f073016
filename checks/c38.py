import json
import os
import re
import time

from hypothesis import strategies as st

from vp.behave import begun, set_behaviour, take_events
from vp.core import Campaign, check, check_eq
from vp.history import NAMES, behaviours, rarely, selections, simple_spec
from vp.project import forked_workers, loaded
from vp.world import read_text, run

PROPERTY = "C38"
RULE = ("suites of tests that take random times, run sequentially and in parallel, continued, reviewed and forgotten; the recorded and shown "
        "durations are compared with the times the tests and the commands took, and with the earlier records; the order of a parallel run "
        "of one process with the recorded durations; non-trivial: at least two runs, where one keeps a record or is ordered by different durations")

SLACK = 3  # ms: the clocks differ
SUMMARY = re.compile(r"(?m)^\d+/\d+ test (?:failed|succeeded) in (\d+) ms")


def lines():
    file = "books/.out/cases.txt"
    if not os.path.exists(file):
        return []
    rv = []
    for line in read_text(file).split("\n"):
        if line:
            name, result, duration = line.split("\t")
            rv.append((name, result, float(duration)))
    return rv


def metrics():
    file = "books/.out/metrics.json"
    if not os.path.exists(file):
        return None
    return json.loads(read_text(file))["tookMs"]


def shown(out, verbose):
    """ (name, ms) as on the console """
    if verbose:
        return [(m[1], int(m[2])) for m in re.finditer(r"(?m)^(.+) (?:ok|DIFFERED|FAILED) in (\d+) ms\.?$", out)]
    return [(m[1], int(m[2])) for m in re.finditer(r"(?m)^  (.+?)\.\.(?:(?:DIFFERED|FAILED) in )?(\d+) ms$", out)]


def oracle(case, ctx):
    order = [n for n, _ in case["spec"]["cases"]]
    behaviour = dict(case["start"])
    runs, good = 0, False
    with loaded(case["spec"]) as suite, forked_workers():
        for step in case["steps"]:
            behaviour.update(step["set"])
            set_behaviour(behaviour)
            take_events()
            args, cmd = step["args"], step["cmd"]
            about = f"after {cmd} {args}"
            before, total = lines(), metrics()
            begin = time.monotonic()
            r = run(suite, {"run": [], "review": ["-w"], "forget": ["--forget"]}[cmd] + args)
            wall = (time.monotonic() - begin) * 1000 + SLACK
            events = take_events()
            executed = begun(events)
            inside = {}
            for e in events:
                if e["kind"] in ("begin", "end"):
                    inside.setdefault(e["case"], []).append(e["time"])
            inside = {n: (t[1] - t[0]) * 1000 - SLACK for n, t in inside.items()}
            after = lines()
            times = {n: ms for n, v, ms in after}
            was = {n: ms for n, v, ms in before}
            for n, ms in was.items():
                if n not in executed and (n in times or cmd != "forget"):
                    check_eq(times.get(n), ms, f"recorded duration of {n} {about}")
            told = shown(r.out, "-v" in args)
            for n, ms in told:
                check_eq(ms, int(times[n]), f"duration of {n} on the console {about}")
            if cmd != "forget":
                found = SUMMARY.findall(r.out)
                check_eq(len(found), 1, f"summaries {about}: {r.out}")
                check_eq(int(found[0]), metrics() or 0, f"duration in the summary {about}")
            if cmd != "run":
                check_eq(metrics(), total, f"recorded duration of the run {about}")
                continue
            check_eq(sorted(n for n, _ in told), sorted(executed), f"cases with a duration {about}")
            runs += 1
            parallel = [a for a in args if a.startswith("-p")]
            for n in executed:
                check(inside[n] <= times[n] <= wall, "recorded duration of", n, about, ":", times[n], "test took", inside[n], "command took", wall)
            took = metrics()
            least = (max if parallel else sum)(list(inside.values()) + [0])
            check(took is not None and int(least) - 1 <= took <= wall, "recorded duration of the run", about, ":", took, "the cases took", least, "the command", wall)
            if parallel == ["-p1"]:
                expected = sorted(executed, key=lambda n: (-was.get(n, 0), n))
                check_eq(executed, expected, f"order of cases {about} with recorded durations {was}")
                good = good or len(set(was.get(n, 0) for n in executed)) > 1
            good = good or any(n not in executed for n in was)
            ctx.label("parallel" if parallel else "sequential")
    ctx.nontrivial(runs >= 2 and good)


@st.composite
def timed(draw):
    return {"ops": draw(behaviours(fail=6, files=False)), "ms": draw(st.sampled_from([0, 0, 1, 4, 9, 15, 25]))}


@st.composite
def cases(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=2, max_size=5, unique=True))
    spec = simple_spec(names, [draw(st.booleans()) for _ in names])
    steps = []
    for k in range(draw(st.integers(2, 5))):
        cmd = draw(st.sampled_from(["run", "run", "run", "review", "forget"])) if k else "run"
        args = list(draw(st.sampled_from([[], ["-a"], ["-a"], ["-c"], ["-u"], ["-a", "-c"]])) if cmd != "forget" else [])
        if cmd == "run":
            args += draw(st.sampled_from([[], [], ["-p1"], ["-p1"], ["-p2"], ["-p4"]]))
        if cmd != "forget":
            args += draw(st.sampled_from([[], [], ["-v"]]))
        args += draw(selections(names)) if rarely(draw, 2) else ["*"]
        steps.append({"cmd": cmd, "args": args, "set": {n: draw(timed()) for n in names if draw(st.booleans())}})
    return {"spec": spec, "start": {n: draw(timed()) for n in names}, "steps": steps}


CAMPAIGNS = [Campaign("histories", cases, oracle, 1200, 30000, hang_s=60)]
