import os
import signal
import sys
import time

from hypothesis import strategies as st

from vp import model
from vp.behave import begun, set_behaviour, take_events
from vp.core import REPO, Campaign, HarnessError, check, check_eq
from vp.history import NAMES, History, behaviours, dependency_specs, rarely, record_map, selections
from vp.model import World
from vp.quitting import oracle_of, quit_cases
from vp.world import records, run

PROPERTY = "C09"
RULE = ("histories of runs killed at a random file system event (fork and _exit in an audit hook, nothing is flushed) or in a test, "
        "reports cut at any byte, and continued runs while verdicts change, each judged against a model, ending with a continued run "
        "of the repaired suite; reviews and forgets killed and repeated; parallel runs killed with their workers, or quit in their review when all cases have ended, and "
        "continued; non-trivial: a run killed after at least one and before the last case, followed by a continued run, a review killed before its records and repeated with an acceptance, or a "
        "parallel run quit with unreviewed cases or killed between two records")

EVENTS = ("open", "os.rename", "os.mkdir", "os.remove", "os.rmdir", "os.listdir", "os.scandir", "shutil.rmtree", "os.link", "os.symlink",
          "os.truncate", "os.system", "os.chmod", "os.utime")


# where records are made and kept
LINE_FILES = ("testrun.py", "reports.py", "runs.py", "review.py")


def killed_run(suite, args, at, by_line):
    """ runs in a forked process that dies at a file system event or at a line of booktest. returns whether it died """
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(30)
            count = [0]
            armed = [True]

            def hook(event, a):
                if armed[0] and event in EVENTS:
                    if event == "open" and isinstance(a[0], str) and (a[0].endswith((".py", ".pyc")) or "vpstate" in a[0]):
                        return
                    count[0] += 1
                    if count[0] >= at:
                        os._exit(77)

            def local(frame, event, arg):
                if event == "line":
                    count[0] += 1
                    if count[0] >= at:
                        os._exit(77)
                return local

            def trace(frame, event, arg):
                name = frame.f_code.co_filename
                if name.startswith(REPO + "/booktest/") and name.endswith(LINE_FILES):
                    return local
                return None

            if by_line:
                sys.settrace(trace)
                run(suite, args)
                sys.settrace(None)
            else:
                sys.addaudithook(hook)
                run(suite, args)
                armed[0] = False
            os._exit(0)
        except BaseException:
            import traceback
            traceback.print_exc()
            os._exit(3)
    _, status = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(status)
    if code not in (0, 77):
        raise HarnessError(f"killed run ended with {code}")
    return code == 77


def kill_review(h, step, ctx):
    """ a killed review or forget has recorded all or nothing, and ends the same way, when it is repeated """
    take_events()
    args = step["args"]
    before = World("books", h.order)
    forget = "--forget" in args
    if forget:
        p = model.predict_forget(h.order, h.deps, before, args)
    else:
        p = model.predict_review(h.order, h.deps, before, args, [])
    dead = killed_run(h.suite, args, step["at"], step["by"] == "line")
    check_eq(begun(take_events()), [], "tests run by " + str(args))
    after = World("books", h.order)
    about = f"after {args} was killed at {step['by']} {step['at']}, before {before.records}"
    check(after.records in (before.records, p.records), "records are", after.records, "and neither the old nor the new ones", p.records, about)
    for n in h.order:
        if n not in p.accepted:
            check_eq(after.snapshots[n], before.snapshots[n], f"snapshot of {n} {about}")
            check_eq(after.snapshot_files[n], before.snapshot_files[n], f"snapshot files of {n} {about}")
        else:
            check(after.snapshots[n] in (before.snapshots[n], p.snapshots[n]), "snapshot of", n, "is", after.snapshots[n], about)
    if dead and any(after.snapshots[n] != before.snapshots[n] for n in p.accepted):
        ctx.label("killed while accepting")
    if forget:
        h.command("forget", [a for a in args if a != "--forget"])
        return
    if step["again"]:
        again = World("books", h.order)
        result = run(h.suite, args, "books")
        final = World("books", h.order)
        check_eq(final.records, p.records, f"records of the repeated review {about}")
        check_eq(final.snapshots, p.snapshots, f"snapshots of the repeated review {about}")
        check_eq(final.snapshot_files, p.snapshot_files, f"snapshot files of the repeated review {about}")
        check_eq(result.code, p.code, f"exit status of the repeated review {about}")
        ctx.nontrivial(dead and again.records == before.records and bool(p.accepted))


def oracle(case, ctx):
    h = History(case["spec"], ctx, ["executed", "verdicts", "exit"])
    order = h.order
    deps = h.deps
    killed = False
    with h.open():
        h.set(case["start"])
        for step in case["steps"]:
            h.set(step["set"])
            if step["cmd"] == "cut":
                file = "books/.out/cases.txt"
                if os.path.exists(file):
                    size = os.path.getsize(file)
                    at = step["at"] % (size + 1) if step["tail"] is None else max(0, size - step["tail"])
                    with open(file, "rb+") as f:
                        f.truncate(at)
                    ctx.label("report cut")
                continue
            if step["cmd"] == "kill review":
                kill_review(h, step, ctx)
                continue
            if step["cmd"] == "review":
                h.command("review", step["args"])
                continue
            if step["cmd"] == "kill":
                take_events()
                before = World("books", order)
                p = model.predict_run(order, deps, h.behaviour, before, step["args"], ["c"] * 60)
                dead = killed_run(h.suite, step["args"], step["at"], step["by"] == "line")
                executed = begun(take_events())
                after = World("books", order)
                got = record_map(after.records)
                ctx.label("killed" if dead else "not killed")
                about = f"after {step['args']} was killed at {step['by']} {step['at']}, executed {executed}, before {before.records}"
                check_eq(executed, p.executed[:len(executed)], "cases executed by a killed run, in order")
                old = dict(before.records)
                for n, vs in got.items():
                    check_eq(len(vs), 1, f"records of {n} {about}")
                    if n not in p.todo:
                        check_eq(vs[0], old.get(n), f"earlier record of {n} {about}")
                    elif not executed and vs[0] == old.get(n):
                        pass  # the report of the new run was not started
                    else:
                        check(n in executed or n in p.missing_dependency, "record of", n, "that was not run", about)
                        check_eq(vs[0], p.final.get(n), f"record of {n} {about}")
                for n in old:
                    if n not in p.todo:
                        check(n in got, "earlier record of", n, "was lost", about)
                done = executed if not dead else executed[:-1]
                for n in done:
                    check(n in got, "record of", n, "which ended before the kill, is missing", about)
                if dead and executed and len(executed) < len(p.executed):
                    killed = True
                continue
            args = step["args"]
            world = World("books", order)
            p, before, after, result, events = h.command("run", args)
            got = record_map(after.records)
            for n in p.final:
                check_eq(got.get(n), [p.final[n]], f"records of {n} after {args}, before {world.records}")
            for n, v in world.records:
                if n not in p.todo:
                    check_eq(got.get(n), [v], f"records of {n} that was not to be run")
            if "-c" in args:
                ctx.label("continued")
                ctx.nontrivial(killed)
                for n, v in world.records:
                    if v == "OK":
                        check(n not in begun(events), "case", n, "recorded OK was run again")
        # the tests get repaired
        h.set({n: [["tln", "fine"]] for n in order})
        p, before, after, result, events = h.command("run", ["-c", "-a", "*"])
        check_eq(result.code, 0, "exit status of the continued run of the repaired suite")
        check_eq(sorted(after.records), sorted((n, "OK") for n in order), "records of the repaired suite")
        p, before, after, result, events = h.command("run", ["-c", "*"])
        check_eq(begun(events), [], "cases run when all are recorded OK")
        check_eq(sorted(after.records), sorted((n, "OK") for n in order), "records")


@st.composite
def cases(draw):
    if draw(st.booleans()):
        spec = draw(dependency_specs(max_functions=5, max_books=0, resources=False))
    else:
        names = draw(st.lists(st.sampled_from(NAMES), min_size=2, max_size=6, unique=True))
        spec = {"functions": [{} for _ in names], "cases": [[n, ["f", i]] for i, n in enumerate(names)]}
    names = [n for n, _ in spec["cases"]]

    def step():
        k = draw(st.integers(0, 10))
        changes = {n: draw(behaviours(fail=5)) for n in names if rarely(draw, 3)}
        if k <= 3:
            args = list(draw(st.sampled_from([[], [], ["-a"], ["-c"], ["-c", "-a"], ["-u"], ["-v"]])))
            if rarely(draw, 4):
                args += draw(selections(names))
            by = draw(st.sampled_from(["event", "line", "line"]))
            return {"cmd": "kill", "set": changes, "args": args, "by": by,
                    "at": draw(st.integers(1, (13 if by == "event" else 80) * len(names)))}
        if k in (7, 8):
            # a review
            args = list(draw(st.sampled_from([["-a"], ["-a"], ["-a"], ["-u", "-a"], ["-u"], [], ["-c", "-a"], ["-f", "-a"]])))
            if rarely(draw, 4):
                args += draw(selections(names))
            if k == 7:
                return {"cmd": "review", "set": {}, "args": args}
            by = draw(st.sampled_from(["event", "line", "line"]))
            return {"cmd": "kill review", "set": {}, "args": args + [draw(st.sampled_from(["-w", "-w", "-w", "--forget"]))], "by": by,
                    "at": draw(st.integers(1, (5 if by == "event" else 50) * len(names))), "again": draw(st.integers(0, 3)) > 0}
        if k == 4:
            return {"cmd": "cut", "set": {}, "at": draw(st.integers(0, 300)), "tail": draw(st.one_of(st.none(), st.integers(0, 40)))}
        args = list(draw(st.sampled_from([["-c"], ["-c"], ["-c"], ["-c", "-a"], ["-c", "-a"], ["-c", "-u"], ["-a"], ["-c", "-f"]])))
        if rarely(draw, 5):
            args += draw(selections(names))
        return {"cmd": "run", "set": changes if rarely(draw, 2) else {}, "args": args}

    steps = []
    for _ in range(draw(st.integers(2, 5))):
        s = step()
        steps.append(s)
        if s["cmd"] == "kill" and draw(st.integers(0, 3)):
            if rarely(draw, 4):
                steps.append({"cmd": "cut", "set": {}, "at": draw(st.integers(0, 300)), "tail": draw(st.one_of(st.none(), st.integers(0, 40)))})
            steps.append({"cmd": "run", "set": {}, "args": ["-c"] + (["-a"] if "-a" in s["args"] else [])})
    return {"spec": spec, "start": {n: draw(behaviours(fail=8)) for n in names}, "steps": steps}


@st.composite
def review_cases(draw):
    """ a run, whose review is killed and repeated """
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))
    spec = {"functions": [{} for _ in names], "cases": [[n, ["f", i]] for i, n in enumerate(names)]}
    steps = []
    for k in range(draw(st.integers(1, 3))):
        steps.append({"cmd": "run", "args": ["*"] if rarely(draw, 3) else ["-a", "*"],
                      "set": {n: draw(behaviours(fail=8)) for n in names if k == 0 or draw(st.booleans())}})
        steps.append({"cmd": "run", "args": ["*"], "set": {n: draw(behaviours(fail=8)) for n in names if draw(st.booleans())}})
        for _ in range(draw(st.integers(1, 2))):
            by = draw(st.sampled_from(["event", "line", "line"]))
            steps.append({"cmd": "kill review", "set": {}, "args": draw(st.sampled_from([["-a"], ["-u", "-a"]])) + ["-w", "*"], "by": by,
                          "at": draw(st.integers(2, 5 * len(names)) if by == "event" else st.integers(20, 20 + 55 * len(names))),
                          "again": draw(st.integers(0, 3)) > 0})
    return {"spec": spec, "start": {}, "steps": steps}


def killed_parallel(suite, args, count, ms):
    """ runs in a process group of its own, which is killed some time after a number of events. returns whether it was """
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.setsid()
            signal.alarm(60)
            run(suite, args)
            os._exit(0)
        except BaseException:
            import traceback
            traceback.print_exc()
            os._exit(3)
    until = time.monotonic() + 60
    ended = 0
    while time.monotonic() < until and not ended:
        if len(take_events(keep=True)) >= count:
            time.sleep(ms / 1000)
            break
        ended, status = os.waitpid(pid, os.WNOHANG)
        time.sleep(0.0005)
    if not ended:
        ended, status = os.waitpid(pid, os.WNOHANG)
    if ended:
        code = os.waitstatus_to_exitcode(status)
        if code != 0:
            raise HarnessError(f"parallel run ended with {code}")
        return False
    os.killpg(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    # none of its workers is writing any more
    while True:
        try:
            os.killpg(pid, 0)
        except (ProcessLookupError, PermissionError):
            break
        if time.monotonic() > until or not running(pid):
            break
        time.sleep(0.001)
    return True


def running(group):
    """ whether a process of the group is running, and not just waiting to be collected """
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                with open(f"/proc/{p}/stat") as f:
                    parts = f.read().rsplit(")", 1)[1].split()
            except OSError:
                continue
            if int(parts[2]) == group and parts[0] not in "ZX":
                return True
    return False


def parallel_oracle(case, ctx):
    """ parallel runs are killed with their workers, and continued """
    h = History(case["spec"], ctx, ["executed", "verdicts", "exit"])
    order, deps = h.order, h.deps
    with h.open():
        h.set(case["start"])
        for step in case["steps"]:
            h.set(step["set"])
            set_behaviour({k: {"ops": v, "ms": step["ms"].get(k, 0)} for k, v in h.behaviour.items()})
            take_events()
            before = World("books", order)
            p = model.predict_run(order, deps, h.behaviour, before, [a for a in step["args"] if not a.startswith("-p")], [])
            dead = killed_parallel(h.suite, step["args"], step["events"], step["after"])
            events = take_events()
            after = World("books", order)
            got = record_map(after.records)
            about = f"after {step['args']} was killed {step['after']} ms after event {step['events']}, events " \
                    f"{[(e['kind'], e['case']) for e in events]}, before {before.records}"
            ctx.label("killed" if dead else "not killed")
            ended = [e["case"] for e in events if e["kind"] == "end"]
            old = dict(before.records)
            fresh = False
            for n, vs in got.items():
                check_eq(len(vs), 1, f"records of {n} {about}")
                if n not in p.todo:
                    check_eq(vs[0], old.get(n), f"earlier record of {n} {about}")
                elif n in ended or n in p.missing_dependency:
                    fresh = True
                    check(vs[0] in (p.final.get(n), old.get(n)), "record of", n, "is", vs[0], "instead of", p.final.get(n), about)
            for n, vs in got.items():
                # a report holds either the earlier records or the ones of this run
                if n in p.todo and n not in ended and n not in p.missing_dependency:
                    check_eq(vs[0], old.get(n), f"record of {n} that did not end {about}")
                    check_eq(got, {k: [v] for k, v in before.records}, f"records, when {n} has its earlier one {about}")
            for n in old:
                if n not in p.todo:
                    check(n in got, "earlier record of", n, "was lost", about)
            ctx.nontrivial(dead and fresh and len(got) < len(order))
            set_behaviour({k: {"ops": v} for k, v in h.behaviour.items()})
            # what was killed is continued
            p, before, after, result, events = h.command("run", step["continue"])
            expected = {n: [v] for n, v in before.records if n not in p.todo}
            expected.update({n: [v] for n, v in p.final.items()})
            check_eq(record_map(after.records), expected, "records of the continued run", step["continue"], about)
        h.set({n: [["tln", "fine"]] for n in order})
        p, before, after, result, events = h.command("run", ["-c", "-a", "*"])
        check_eq(sorted(after.records), sorted((n, "OK") for n in order), "records of the repaired suite")


@st.composite
def parallel_cases(draw):
    if draw(st.booleans()):
        spec = draw(dependency_specs(max_functions=5, max_books=0, resources=draw(st.booleans())))
    else:
        names = draw(st.lists(st.sampled_from(NAMES), min_size=2, max_size=8, unique=True))
        spec = {"functions": [{} for _ in names], "cases": [[n, ["f", i]] for i, n in enumerate(names)]}
    names = [n for n, _ in spec["cases"]]

    def step():
        args = [f"--parallel-count={draw(st.sampled_from([1, 2, 2, 4]))}"]
        args += draw(st.sampled_from([[], [], ["-a"], ["-a"], ["-c"], ["-c", "-a"], ["-u"]]))
        if rarely(draw, 5):
            args += draw(selections(names))
        return {"set": {n: draw(behaviours(fail=6)) for n in names if draw(st.booleans())}, "args": args,
                "ms": {n: draw(st.sampled_from([0, 0, 5, 15, 40])) for n in names},
                "events": draw(st.integers(1, 3 * len(names))), "after": draw(st.sampled_from([0, 0, 1, 3, 10, 25])),
                "continue": draw(st.sampled_from([["-c"], ["-c", "-p2"], ["-c", "-a"], ["-c", "-a", "-p2"]]))}

    return {"spec": spec, "start": {n: draw(behaviours(fail=8)) for n in names},
            "steps": [step() for _ in range(draw(st.integers(1, 3)))]}


CAMPAIGNS = [
    Campaign("histories", cases, oracle, 2400, 60000, hang_s=60),
    Campaign("killed reviews", review_cases, oracle, 600, 20000, hang_s=60),
    Campaign("killed in parallel", parallel_cases, parallel_oracle, 240, 8000, hang_s=120),
    Campaign("quit in parallel", quit_cases, oracle_of(["executed", "records"]), 160, 4000, hang_s=120),
]
