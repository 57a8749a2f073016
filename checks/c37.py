import os

from hypothesis import strategies as st

from vp.behave import set_behaviour, take_events
from vp.core import Campaign, check, check_eq
from vp.history import behaviours, rarely, record_map, simple_spec
from vp.model import Behaviour
from vp.project import forked_workers, loaded
from vp.world import files, read_bytes, records, run

PROPERTY = "C37"
RULE = ("suites of tests writing text, files, logs, with names of any characters, in interactive sequential and parallel runs and reviews; "
        "at each question the files of the case are read, and the viewing tools record what they are given; non-trivial: at least two "
        "cases asked about, of which one had a snapshot, with a tool used and an acceptance")

NAMES = ["test/a", "test/ab", "test/b c", "test/é", "test/s/a", "test/t/it's", "book/x", "test/$HOME", "test/a&b", "test/s/x;y", "test/*"]
TOOLS = {"v": "md_viewer", "l": "log_viewer", "d": "diff_tool", "D": "fast_diff_tool"}


def content(file):
    return read_bytes(file) if os.path.exists(file) else None


def given():
    """ the calls of the tools: (letter, arguments) """
    if not os.path.exists("tools.log"):
        return []
    rv = [c.split(b"\0")[:-1] for c in read_bytes("tools.log").split(b"\1")[:-1]]
    os.remove("tools.log")
    return [[x.decode() for x in c] for c in rv]


def seen_of(name):
    """ what there is to be reviewed: the pages, the log, the report and the files """
    return {"accepted": content(f"books/{name}.md"), "page": content(f"books/.out/{name}.md"), "log": content(f"books/.out/{name}.log"),
            "report": content(f"books/.out/{name}.txt"), "files": files(f"books/.out/{name}") if os.path.isdir(f"books/.out/{name}") else {}}


def oracle(case, ctx):
    order = [n for n, _ in case["spec"]["cases"]]
    with open("tool.sh", "w") as f:
        f.write('for x in "$@"; do printf "%s\\000" "$x" >> tools.log; done; printf "\\001" >> tools.log; exit ' + str(case["status"]) + "\n")
    lines = []
    for letter, setting in TOOLS.items():
        if letter in case["flags"]:
            continue
        command = f"sh {os.getcwd()}/tool.sh {letter}"
        if case["file"]:
            lines.append(f"{setting}={command}\n")
        else:
            os.environ["BOOKTEST_" + setting.upper()] = command
    if lines:
        with open(".booktest", "w") as f:
            f.write("".join(lines))
    flags = []
    for letter in case["flags"]:
        flags += ["-" + TOOLS[letter].replace("_", "-"), f"sh {os.getcwd()}/tool.sh {letter}"]

    behaviour = dict(case["start"])
    good = {"asked": set(), "old": 0, "tools": 0, "accepted": 0}
    with loaded(case["spec"]) as suite, forked_workers():
        for step in case["steps"]:
            behaviour.update(step["set"])
            set_behaviour({n: {"ops": ops} for n, ops in behaviour.items()})
            take_events()
            args = step["args"]
            about = f"in {args}"
            ran = "-w" not in args
            ran_before = dict(case_runs(behaviour, step, order)) if ran else None
            last = {"name": None, "answer": None, "seen": None}
            decided = []
            answers = {n: list(a) for n, a in step["answers"].items()}
            count = [0]

            def settle(name, seen, tool):
                """ the files are as they were at the question, and the tool was given them """
                got = given()
                want = []
                if tool in TOOLS:
                    exp, out = f"books/{name}.md", f"books/.out/{name}.md"
                    want = [[tool] + ([f"books/.out/{name}.log"] if tool == "l" else [out] if tool == "v" and seen["accepted"] is None else [exp, out])]
                    good["tools"] += 1
                check_eq([[os.path.normpath(x) for x in c] for c in got], want, f"files given to the tool for {tool!r}, of {name} {about}")

            def answer(out):
                count[0] += 1
                check(count[0] < 200, "questions without end", out[-500:])
                at = {n: max(out.rfind(f"  {n}.."), out.rfind(f"test {n}...")) for n in order}
                name = max(order, key=lambda n: at[n])
                check(at[name] >= 0, "a question about no case", out[-300:])
                seen = seen_of(name)
                if last["answer"] is not None:
                    settle(last["name"], last["seen"], last["answer"])
                    if last["name"] == name and last["answer"] not in ("a", "c"):
                        check_eq(seen, last["seen"], f"files of {name} after {last['answer']!r} {about}")
                b = Behaviour(behaviour[name]) if ran else None
                # (the workers of a parallel run accept on their own, when they are asked to accept automatically)
                if ran and not ("-p2" in args and automatic(args, b.fails)):
                    check(seen["page"] is not None, "no page of", name, "when it is asked about", about)
                    if not b.raises and not any(x is None for _, x in b.lines):
                        check_eq(seen["page"].decode(), b.text, f"page of {name} at the question {about}")
                    check_eq({k: v for k, v in seen["files"].items()}, b.files, f"files of {name} at the question {about}")
                    log = (seen["log"] or b"").decode()
                    for text in ran_before[name]:
                        check(text in log, "error output", text, "is not in the log of", name, "at the question", about, log)
                    lines_ = seen["page"].count(b"\n")
                    check(seen["report"] is not None and seen["report"].count(b"\n") >= lines_, "report of", name, "at the question", about, seen["report"], seen["page"])
                left = answers.get(name) or []
                a = left.pop(0) if left else "c"
                last.update(name=name, answer=a, seen=seen)
                decided[:] = [d for d in decided if d[0] != name] + [(name, a, seen)]
                good["asked"].add(name)
                good["old"] += seen["accepted"] is not None
                return a

            before = dict(records("books"))
            run(suite, args + flags, answers=answer)
            take_events()
            if last["answer"] is not None:
                settle(last["name"], last["seen"], last["answer"])
            after = record_map(records("books"))
            for name, a, seen in decided:
                now = seen_of(name)
                failed = Behaviour(behaviour[name]).fails if ran else before[name] == "FAIL"
                if a == "a" and not failed:
                    good["accepted"] += 1
                    ctx.label("accepted")
                    if seen["page"] is not None:
                        check_eq(now["accepted"], seen["page"], f"snapshot of {name} after accepting what was shown {about}")
                        got = {k[len(name) + 1:]: v for k, v in files("books").items() if k.startswith(name + "/")}
                        check_eq(got, seen["files"], f"snapshot files of {name} after accepting what was shown {about}")
                    else:
                        check_eq(now["accepted"], seen["accepted"], f"snapshot of {name}, accepted again {about}")
                    check_eq(after.get(name), ["OK"], f"record of accepted {name} {about}")
                elif not automatic(args, failed):
                    check_eq(now, seen, f"files of {name} after answering {a!r} {about}")
                ctx.label("answer " + a)
            ctx.label("review" if not ran else "parallel" if "-p2" in args else "sequential")
    ctx.nontrivial(len(good["asked"]) >= 2 and good["old"] and good["tools"] and good["accepted"])


def automatic(args, failed):
    return not failed and ("-a" in args or "-u" in args)


def case_runs(behaviour, step, order):
    """ the error output each case writes before its end """
    for n in order:
        texts = []
        for op in behaviour[n]:
            if op[0] == "stderr":
                texts.append(op[1])
            elif op[0] == "log":
                texts.append(op[2])
            elif op[0] in ("raise", "exit", "unstorable", "return"):
                break
        yield n, texts


NOISE = st.one_of(st.tuples(st.just("stderr"), st.sampled_from(["err\n", "two\nlines\n", "unended", "é\n"])),
                  st.tuples(st.just("log"), st.sampled_from(["warning", "error"]), st.sampled_from(["message", "é 漢"]))).map(list)


@st.composite
def noisy(draw):
    ops = list(draw(behaviours(fail=8, texts=["a", "b", "a 1", "c", "é 漢", "", "x" * 300])))
    for x in draw(st.lists(NOISE, max_size=2)):
        ops.insert(draw(st.integers(0, len(ops))), x)
    return ops


ANSWERS = st.lists(st.sampled_from(["v", "l", "d", "D", "v", "d", "x", "", "a", "a", "a", "c", "q"]), max_size=4)


@st.composite
def cases(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=2, max_size=4, unique=True))
    spec = simple_spec(names, [draw(st.booleans()) for _ in names])
    steps = []
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(["run", "run", "run", "review"] + (["parallel"] if rarely(draw, 3) else []))) if steps else "run"
        args = ["-w"] if kind == "review" else ["-p2"] if kind == "parallel" else []
        args += draw(st.sampled_from([["-i"], ["-i"], ["-I"], ["-I"], [], ["-I", "-u"], ["-i", "-a"], ["-a"]]))
        args += draw(st.sampled_from([[], [], [], ["-v"], ["-L"], ["-c"], ["-v", "-L"]]))
        if "-w" not in args or draw(st.booleans()):
            args.append("*")
        steps.append({"args": args, "set": {n: draw(noisy()) for n in names if draw(st.integers(0, 2)) == 0},
                      "answers": {n: draw(ANSWERS) + [draw(st.sampled_from("aac"))] for n in names}})
    return {"spec": spec, "start": {n: draw(noisy()) for n in names}, "steps": steps, "status": draw(st.sampled_from([0, 0, 1])),
            "file": draw(st.booleans()), "flags": draw(st.sampled_from(["", "", "", "v", "d", "vd"]))}


CAMPAIGNS = [Campaign("questions", cases, oracle, 3000, 60000, hang_s=60)]
