import os
import re

from hypothesis import strategies as st

from vp.behave import begun, set_behaviour, take_events
from vp.core import Campaign, check, check_eq
from vp.history import NAMES, behaviours, rarely, selections, simple_spec
from vp.model import selected
from vp.project import forked_workers, loaded
from vp.world import read_text, records, report_marks, run, verdict

PROPERTY = "C33"
RULE = ("reports: suites whose tests write reports and logs of arbitrary text, run sequentially, in parallel and reviewed with and "
        "without -v and -L; the console is compared, line by line, with the report and log files of the cases it is about. pointer: "
        "lines that differ or fail from a known column on; non-trivial: at least two cases of which one differs, fails or logs are "
        "shown with -v or -L, or (pointer) a line that is marked behind its first word")

ROOT = "books"


def lines_of(name, postfix):
    file = os.path.join(ROOT, ".out", name + postfix)
    if not os.path.exists(file):
        return []
    text = read_text(file).replace("\r\n", "\n").replace("\r", "\n")
    return text.split("\n")


def blank(line):
    return not line


MS = r"\d+ ms"
ENDS = {"OK": (MS, f"ok in {MS}\\."), "DIFF": (f"DIFFERED in {MS}",) * 2, "FAIL": (f"FAILED in {MS}",) * 2}


def expected_lines(shown, verbose, logs):
    """ what the console has to say about the cases: texts, or regular expressions """
    rv = []
    for name, v in shown:
        end = ENDS[v][1 if verbose else 0]
        log = [x for x in lines_of(name, ".log")]
        if log and log[-1] == "":
            log.pop()
        if verbose:
            rv.append(f"test {name}...")
            rv += lines_of(name, ".txt")
            if logs and log:
                rv.append(f"{name} logs:")
                rv += ["  " + x for x in log]
            rv.append(re.compile(re.escape(name) + " " + end))
        else:
            if logs and log:
                rv.append(f"  {name}..")
                rv += ["    log: " + x for x in log]
            rv.append(re.compile("  " + re.escape(name) + r"\.\." + end))
    return [x for x in rv if not isinstance(x, str) or not blank(x)]


def compare(out, shown, args, about):
    verbose, logs = "-v" in args, "-L" in args
    got = [x for x in out.split("\n") if not blank(x)]
    check(got and got[0] == "# test results:", "begin of the console " + about, got[:3])
    expected = expected_lines(shown, verbose, logs)
    for k, (g, e) in enumerate(zip(got[1:], expected)):
        ok = g == e if isinstance(e, str) else e.fullmatch(g) is not None
        check(ok, f"line {k} of the console {about}: got {g!r}, expected {e!r}; before", got[max(0, k - 2):k + 1])
    rest = got[1 + len(expected):]
    check(len(got) >= 1 + len(expected), "the console ended too early", about, "missing", expected[len(got) - 1:][:3])
    check(rest and re.match(r"^\d+/\d+ test (failed|succeeded) in", rest[0]), "console after the cases", about, rest[:5])
    check(all(x.startswith("  ") and x[2:] in [n for n, _ in shown] or k == 0 for k, x in enumerate(rest)) or "-w" in args,
          "text after the summary", about, rest[:5])


def oracle(case, ctx):
    spec = case["spec"]
    names = [n for n, _ in spec["cases"]]
    behaviour = dict(case["start"])
    good = False
    with loaded(spec) as suite, forked_workers():
        for step in case["steps"]:
            behaviour.update(step["set"])
            set_behaviour({n: {"ops": ops} for n, ops in behaviour.items()})
            take_events()
            about = f"of {step['args']}"
            args = step["args"]
            before = records(ROOT)
            r = run(suite, args, ROOT)
            executed = begun(take_events())
            after = records(ROOT)
            if "-w" in args:
                check_eq(executed, [], "tests run by a review")
                positive = [a for a in args if not a.startswith("-")] or ["test", "book"]
                shown = [(n, v) for n, v in before if selected(positive, n)]
            else:
                final = dict(after)
                shown = [(n, final[n]) for n, _ in after if n in executed]
                # accepted ones are shown as they were
                shown = [(n, v if v != "OK" else shown_verdict(r.out, n, "-v" in args)) for n, v in shown]
                check_eq(sorted(n for n, _ in shown), sorted(executed), "records of the cases run")
            ctx.label("review" if "-w" in args else "parallel" if "-p2" in args else "sequential")
            compare(r.out, shown, args, about)
            if ("-v" in args or "-L" in args) and len(shown) > 1:
                if any(m != "  " for n, _ in shown for m, _ in report_marks(ROOT, n)) or \
                   any(lines_of(n, ".log") != [""] for n, _ in shown):
                    good = True
    ctx.nontrivial(good)


def shown_verdict(out, name, verbose):
    """ OK, or DIFF that was accepted afterwards """
    m = re.search("(?m)^" + (re.escape(name) + " " if verbose else "  " + re.escape(name) + r"\.\.") + "DIFFERED in", out)
    return "DIFF" if m else "OK"


NOISE = st.one_of(
    st.tuples(st.just("stderr"), st.sampled_from(["err\n", "two\nlines\n", "unended", "\n", "odd \u2028 line\n", "a\rb\n", "  indented \t\n", "\t\n \n"])),
    st.tuples(st.just("log"), st.sampled_from(["warning", "error"]), st.sampled_from(["message", "two\nlines", "é 漢", " in blanks "])),
).map(list)


@st.composite
def noisy(draw):
    ops = list(draw(behaviours(fail=5, files=False)))
    for x in draw(st.lists(NOISE, max_size=2)):
        ops.insert(draw(st.integers(0, len(ops))), x)
    return ops


@st.composite
def cases(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))
    spec = simple_spec(names, [draw(st.booleans()) for _ in names])
    steps = []
    for _ in range(draw(st.integers(1, 4))):
        args = list(draw(st.sampled_from([[], ["-a"], ["-a"], ["-u"]])))
        kind = draw(st.sampled_from(["run", "run", "run", "review"] + (["parallel"] if rarely(draw, 3) else [])))
        if kind == "review":
            args.append("-w")
        elif kind == "parallel":
            args.append("-p2")
        args += draw(st.sampled_from([[], ["-v"], ["-L"], ["-v", "-L"]]))
        if rarely(draw, 4):
            args += [a for a in draw(selections(names)) if not a.startswith("skip:")]
        steps.append({"args": args, "set": {n: draw(noisy()) for n in names if draw(st.booleans())}})
    return {"spec": spec, "start": {n: draw(noisy()) for n in names}, "steps": steps}


# ---------------------------------------------------------------- the position of differences

def pointer_oracle(case, ctx):
    current = {"new": False}

    def test(t):
        for line in case["lines"]:
            words = line["new"] if current["new"] else line["old"]
            for k, w in enumerate(words):
                if current["new"] and line["fail"] == k:
                    t.fail()
                if current["new"] and line["diff"] == k:
                    t.diff()
                (t.i if line["ignored"] else t.t)(w)
                if k + 1 < len(words):
                    t.t(" ")
            t.tln()
    cases_ = [["test/case", test]]
    run(cases_, ["-a"], ROOT)
    current["new"] = True
    os.environ["BOOKTEST_POINT_ERROR_POS"] = "1" if case["point"] else "0"
    try:
        r = run(cases_, ["-v"], ROOT)
    finally:
        del os.environ["BOOKTEST_POINT_ERROR_POS"]

    expected, want = [], "OK"
    for line in case["lines"]:
        text = " ".join(line["new"])
        starts = [len(" ".join(line["new"][:k])) + (1 if k else 0) for k in range(len(line["new"]))]
        differ, fail = [], []
        if line["diff"] is not None and line["diff"] < len(starts):
            differ.append(starts[line["diff"]])
        if line["fail"] is not None and line["fail"] < len(starts):
            fail.append(starts[line["fail"]])
        if not line["ignored"]:
            for k, w in enumerate(line["new"]):
                if k >= len(line["old"]):
                    # the blank before it is the first that is not in the snapshot
                    differ.append(starts[k] - 1 if k else 0)
                    break
                if w != line["old"][k]:
                    # the difference to a longer word begins at its end
                    differ.append(starts[k] + (len(w) if line["old"][k].startswith(w) else 0))
                    break
            else:
                if len(line["new"]) < len(line["old"]):
                    differ.append(len(text))
        if fail:
            want = "FAIL"
            mark, at = "! ", min(fail)
        elif differ:
            want = "FAIL" if want == "FAIL" else "DIFF"
            mark, at = "? ", min(differ)
        else:
            expected.append(("  ", text))
            continue
        ctx.nontrivial(at > 0)
        expected.append((mark, f"{text:60s} | " + " ".join(line["old"])))
        if case["point"]:
            expected.append(("  ", " " * at + "^"))
    check_eq(verdict(ROOT, "test/case"), want, "verdict", report_marks(ROOT, "test/case"))
    check_eq(report_marks(ROOT, "test/case"), expected, "report")
    compare(r.out, [("test/case", want)], ["-v"], "of the pointer")


WORD = st.sampled_from(["a", "b", "foo", "bar", "quux", "12", "x", "é", "l" * 31, "m" * 70])


@st.composite
def lines(draw):
    old = draw(st.lists(WORD, max_size=5))
    ignored = draw(st.booleans()) and draw(st.booleans())
    new = list(old)
    if ignored:
        # other words at the same places
        new = [draw(WORD) for _ in old]
    else:
        for _ in range(draw(st.integers(0, 2))):
            k = draw(st.integers(0, len(new)))
            how = draw(st.sampled_from(["change", "change", "cut", "add"]))
            if how == "change" and k < len(new):
                new[k] = draw(WORD)
            elif how == "cut":
                new = new[:k]
            elif how == "add":
                new.append(draw(WORD))
    return {"old": old, "new": new, "ignored": ignored,
            "fail": draw(st.integers(0, 4)) if rarely(draw, 6) else None,
            "diff": draw(st.integers(0, 4)) if rarely(draw, 6) else None}


def pointer_cases():
    return st.fixed_dictionaries({"lines": st.lists(lines(), min_size=1, max_size=4),
                                  "point": st.sampled_from([True, True, True, False])})


CAMPAIGNS = [
    Campaign("reports", cases, oracle, 1600, 40000, hang_s=60),
    Campaign("pointer", pointer_cases, pointer_oracle, 2400, 60000),
]
