""" histories of commands over a generated suite, judged step by step against the model """
import contextlib
import os
import re
import shutil

from hypothesis import strategies as st

from vp import model
from vp.behave import begun, set_behaviour, take_events
from vp.core import HarnessError, check, check_eq
from vp.model import World
from vp.project import dependency_cases, forked_workers, loaded
from vp.world import Result, captured, files, records, report_marks, run, summary, tree

NAMES = ["test/a", "test/b/c", "test/b/d", "test/ab", "test/b2/c", "test/ba", "book/x", "other/y", "test/b-c/d", "test/c/b/d", "test/é", "жö/x y", "test/b.c"]

LINES = ["a", "b", "a 1", "c"]


@st.composite
def behaviours(draw, fail=4, files=True, texts=LINES, values=None):
    """ ops in the subset of the model. fail: one of this many fails """
    ops = []
    for _ in range(draw(st.integers(0, 3))):
        ops.append([draw(st.sampled_from(["tln", "tln", "tln", "iln"])), draw(st.sampled_from(texts))])
    if files and draw(st.integers(0, 2)) == 0:
        for f in draw(st.lists(st.sampled_from(["f1.txt", "f2.txt", "f3.bin"]), min_size=1, max_size=2, unique=True)):
            ops.insert(draw(st.integers(0, len(ops))), ["file", f, draw(st.sampled_from(["1", "2", ""]))])
    k = draw(st.integers(1, 100))
    if k <= 100 / fail:
        kind = draw(st.sampled_from(["fail", "fail", "raise", "raise", "exit", "assertln", "unstorable"]))
        op = {"fail": ["fail"], "raise": ["raise", draw(st.sampled_from(["ValueError", "Program", "Assertion", "OSError"])), "bad"],
              "exit": ["exit", draw(st.sampled_from([0, 1, None]))], "assertln": ["assertln", False, None],
              "unstorable": ["unstorable"]}[kind]
        ops.insert(draw(st.integers(0, len(ops))), op)
    elif k <= 100 / fail + 5:
        ops.insert(draw(st.integers(0, len(ops))), ["diff"])
    if draw(st.integers(0, 2)) == 0 and values is not None:
        ops.append(["return", draw(values)])
    return ops


@st.composite
def selections(draw, names, positive=2, negative=1):
    parts = set()
    for n in names:
        c = n.split("/")
        for k in range(1, len(c) + 1):
            parts.add("/".join(c[:k]))
    parts = sorted(parts)
    rv = draw(st.lists(st.sampled_from(parts + ["*"]), max_size=positive))
    if draw(st.integers(0, 3)) == 0:
        rv += ["skip:" + x for x in draw(st.lists(st.sampled_from(parts), min_size=1, max_size=negative))]
    return draw(st.permutations(rv))


def simple_spec(names, asyncs):
    return {"functions": [{"async": a} for a in asyncs], "cases": [[n, ["f", i]] for i, n in enumerate(names)]}


def line_value(line):
    """A line of the records, with its duration as a number: 635 and 635.0 say the same."""
    fields = line.split("\t")
    try:
        return fields[:-1] + [float(fields[-1])] if len(fields) == 3 else fields
    except ValueError:
        return fields


class History:
    """ a suite on the disk and the commands given to it """

    def __init__(self, spec, ctx, aspects, root="books"):
        self.spec = spec
        self.ctx = ctx
        self.aspects = set(aspects)
        self.root = root
        self.order = [n for n, _ in spec["cases"]]
        self.dep_spec = dependency_cases(spec)
        self.deps = {n: [d for d, _ in v if d is not None] for n, v in self.dep_spec.items()}
        self.behaviour = {}
        self.latest = {}   # case -> value of the latest run that did not fail
        self.suite = None
        self.cache = None

    @contextlib.contextmanager
    def open(self):
        with loaded(self.spec) as suite, forked_workers():
            self.suite = suite
            yield self

    def set(self, changes):
        self.behaviour.update(changes)
        set_behaviour({k: {"ops": v} for k, v in self.behaviour.items()})

    def command(self, cmd, args, answers=()):
        full = list(args)
        if cmd != "run":
            full.append({"review": "-w", "forget": "--forget", "list": "-l", "print": "--print", "path": "--path",
                         "garbage": "--garbage", "config": "--config", "clean": "--clean"}[cmd])
        take_events()
        # the model is to consume a part of the answers
        given = list(answers) + ["c"] * 60
        before = World(self.root, self.order)
        before_tree = tree(self.root) if os.path.isdir(self.root) else {}
        parallel = any(a.startswith("-p") for a in args)
        self.args = args
        if cmd == "run":
            p = model.predict_run(self.order, self.deps, self.behaviour, before, args, given)
        elif cmd == "review":
            if not os.path.exists(os.path.join(self.root, ".out", "metrics.json")):
                self.ctx.label("review before any run has ended")
            p = model.predict_review(self.order, self.deps, before, args, given)
        elif cmd == "forget":
            p = model.predict_forget(self.order, self.deps, before, args)
        else:
            p = None
        if parallel:
            full += []
        result = run(self.suite, full, self.root, cache=self.cache, answers=given)
        events = take_events()
        after = World(self.root, self.order)
        self.judge(cmd, args, p, before, after, before_tree, result, events, parallel)
        self.last = (p, before, after, result, events)
        return self.last

    # ------------------------------------------------------------ judging

    def judge(self, cmd, args, p, before, after, before_tree, result, events, parallel):
        about = f"of {cmd} {args}"
        if cmd not in ("run", "review", "forget"):
            if "readonly" in self.aspects:
                check_eq(begun(events), [], "tests run by " + cmd)
                check_eq(after.all, before.all, "snapshots after " + cmd)
                if cmd != "clean":
                    check_eq(tree(self.root) if os.path.isdir(self.root) else {}, before_tree, "the book after " + cmd)
            return
        if "snapshots" in self.aspects:
            model.check_snapshots(before, after, p, self.order)
        if cmd == "run":
            executed = begun(events)
            if "executed" in self.aspects:
                if parallel:
                    check_eq(sorted(executed), sorted(p.executed), "cases executed " + about)
                else:
                    check_eq(executed, p.executed, "cases executed, in order, " + about)
        else:
            if "executed" in self.aspects:
                check_eq(begun(events), [], "tests executed " + about)
        if "verdicts" in self.aspects:
            got = {}
            for n, v in after.records:
                got[n] = v
            for n, v in p.final.items():
                check_eq(got.get(n), v, f"verdict of {n} {about} (before acceptance {p.verdicts[n]}), snapshot "
                                        f"{before.snapshots[n]!r}, ops {self.behaviour.get(n)}")
        if "records" in self.aspects:
            if parallel:
                old = [r for r in before.records if r[0] not in p.todo]
                check_eq(after.records[:len(old)], old, "earlier records " + about)
                check_eq(sorted(after.records[len(old):]), sorted(p.records[len(old):]), "new records " + about)
            else:
                check_eq(after.records, p.records, "records " + about)
            # earlier records stay as they were, with their durations
            touched = set(p.final)
            kept = [line for line in before.raw.decode().split("\n") if line and line.split("\t")[0] not in touched
                    and line.split("\t")[0] in dict(p.records)]
            now = [line for line in after.raw.decode().split("\n") if line and line.split("\t")[0] not in touched]
            check_eq([line_value(l) for l in now], [line_value(l) for l in kept], "earlier record lines " + about)
        if "exit" in self.aspects and cmd != "forget":
            check_eq(result.code, p.code, f"exit status {about} with records {after.records}")
        if "summary" in self.aspects and cmd != "forget":
            s = summary(result.out)
            check(s is not None, "no summary on the console", result.out)
            n = len(p.final) if cmd == "run" else len(p.records)
            names = sorted(p.not_ok) if parallel else p.not_ok
            got = (s[0], s[1], sorted(s[2]) if parallel else s[2])
            # a summary of successes repeats the number of all cases
            check_eq(got, (len(names), n, names), "console summary " + about)
        if "console" in self.aspects and cmd != "forget":
            got = console_cases(result.out, self.order, "-v" in args)
            expected = [(n, v) for n, v in p.shown]
            if parallel:
                got = sorted(got)
                # accepted cases are shown by what the worker has left
                expected = sorted((n, p.final[n] if p.final[n] == "OK" else v) for n, v in p.shown)
            check_eq(got, expected, "cases on the console " + about)
        if "asked" in self.aspects:
            check_eq(result.asked, p.asked, "questions asked " + about)
        if "stored" in self.aspects:
            check_eq(after.stored, p.stored, "stored results " + about)


def record_map(rs):
    rv = {}
    for n, v in rs:
        rv.setdefault(n, []).append(v)
    return rv


SHOWN = re.compile(r"^  (\S[^\n]*?)\.\.(.*)$")


def console_cases(out, names, verbose):
    """ (case, verdict) lines of a report """
    rv = []
    for line in out.split("\n"):
        if verbose:
            m = re.match("^(" + "|".join(re.escape(n) for n in sorted(names, key=len, reverse=True)) + ") (ok|DIFFERED|FAILED) in", line)
            if m:
                rv.append((m.group(1), {"ok": "OK", "DIFFERED": "DIFF", "FAILED": "FAIL"}[m.group(2)]))
            continue
        m = SHOWN.match(line)
        if m:
            rest = m.group(2)
            v = "DIFF" if "DIFFERED in" in rest else "FAIL" if "FAILED in" in rest else "OK" if re.match(r"^\d+ ms", rest) else "?"
            rv.append((m.group(1), v))
    return rv


MODES = [[], [], [], ["-a"], ["-a"], ["-a"], ["-u"], ["-i"], ["-i"], ["-I"], ["-a", "-u"], ["-a", "-I"], ["-u", "-i"], ["-u", "-I"]]
EXTRA = ["-f", "-c", "-r", "-v", "-L"]


def rarely(draw, n):
    return draw(st.integers(1, n)) == n


@st.composite
def steps(draw, names, cmds, modes=MODES, extra=EXTRA, fail=8, files=True, parallel=0, values=None,
          answers=("a", "a", "c", "q", "x", ""), select=4, texts=LINES):
    cmd = draw(st.sampled_from(cmds))
    changes = {}
    if cmd == "run":
        for n in names:
            if draw(st.booleans()):
                changes[n] = draw(behaviours(fail=fail, files=files, values=values, texts=texts))
    args = list(draw(st.sampled_from(modes)))
    for e in extra:
        if rarely(draw, 9):
            args.append(e)
    if cmd in ("list", "print", "path", "garbage", "config", "clean", "forget"):
        args = [a for a in args if a in ("-c", "-r")]
    if parallel and cmd == "run" and rarely(draw, parallel):
        # the order of questions and of stopping depends on the schedule
        args = [a for a in args if a not in ("-i", "-I", "-f", "-p2")] + ["-p2"]
    if select and rarely(draw, select):
        args = args + draw(selections(names))
    step = {"cmd": cmd, "set": changes, "args": args}
    if "-i" in args or "-I" in args:
        step["answers"] = draw(st.lists(st.sampled_from(answers), min_size=2, max_size=8))
    return step


@st.composite
def histories(draw, cmds, min_steps=2, max_steps=6, min_names=1, max_names=4, pool=NAMES, **kw):
    names = draw(st.lists(st.sampled_from(pool), min_size=min_names, max_size=max_names, unique=True))
    fail, files_, values = kw.get("fail", 8), kw.get("files", True), kw.get("values")
    rv = {
        "names": names,
        "async": draw(st.lists(st.booleans(), min_size=len(names), max_size=len(names))),
        "start": {n: draw(behaviours(fail=fail, files=files_, values=values, texts=kw.get("texts", LINES))) for n in names},
        "steps": draw(st.lists(steps(names, cmds, **kw), min_size=min_steps, max_size=max_steps)),
    }
    if draw(st.booleans()):
        rv["steps"].insert(0, {"cmd": "run", "set": {}, "args": ["-a"]})
    return rv


def play(case, ctx, aspects, each=None, root="books"):
    """ plays a history, returns the History """
    h = History(simple_spec(case["names"], case["async"]), ctx, aspects, root)
    with h.open():
        h.set(case["start"])
        for k, step in enumerate(case["steps"]):
            h.set(step["set"])
            rv = h.command(step["cmd"], step["args"], step.get("answers", ()))
            ctx.label(step["cmd"] + (" parallel" if any(a.startswith("-p") for a in step["args"]) else ""))
            if rv is not None and each is not None:
                each(h, step, rv)
    return h


# ---------------------------------------------------------------- suites with dependencies

VALUES = st.one_of(st.integers(1, 10**9), st.integers(1, 10**9), st.sampled_from([None, None, 0, False, "", [], {}]),
                   st.lists(st.integers(0, 100), max_size=3), st.dictionaries(st.sampled_from("ab"), st.integers(), max_size=2))

RESOURCES = [["res", "db"], ["res", 7], ["port", 7], ["port", 8080], ["id", "cpu", "cpu0"], ["id", "gpu", "cpu0"], ["res", "cpu0"],
             ["res", None], ["res", 0], ["id", "x", ""], ["id", "y", ""], ["id", 1, 0], ["id", 2, 0]]


@st.composite
def dependency_specs(draw, min_functions=1, max_functions=4, max_books=1, resources=True, pool=NAMES):
    """ a suite of functions and parametrised books with an acyclic dependency graph, in any definition order """
    nf = draw(st.integers(min_functions, max_functions))
    nb = draw(st.integers(0, max_books))
    books_first = draw(st.booleans())
    books = []
    for b in range(nb):
        books.append({"methods": [{} for _ in range(draw(st.integers(1, 3)))],
                      "instances": 1 if books_first else draw(st.integers(1, 3))})
    functions = [{} for _ in range(nf)]

    def deps(candidates):
        rv = []
        if candidates:
            rv = draw(st.lists(st.sampled_from(candidates), max_size=3, unique_by=str))
        if resources and rarely(draw, 3):
            for r in draw(st.lists(st.sampled_from(RESOURCES), min_size=1, max_size=draw(st.sampled_from([1, 2, 2, 4])))):
                rv.insert(draw(st.integers(0, len(rv))), r)
        return rv

    def make_functions():
        for i, f in enumerate(functions):
            c = [["f", k] for k in range(i)]
            if books_first:
                c += [["m", b, k] for b in range(nb) for k in range(len(books[b]["methods"]))]
            f["deps"] = deps(c)
            f["async"] = draw(st.booleans())

    def make_books():
        for b, book in enumerate(books):
            if b > 0 and draw(st.booleans()):
                book["base"] = draw(st.integers(0, b - 1))
            for i, m in enumerate(book["methods"]):
                c = [["m", b, k] for k in range(i)] * 2 + [["m", a, k] for a in range(b) for k in range(len(books[a]["methods"]))]
                if not books_first:
                    c += [["f", k] for k in range(nf)]
                m["deps"] = deps(c)
                m["async"] = draw(st.booleans())

    if books_first:
        make_books()
        make_functions()
    else:
        make_functions()
        make_books()

    names = draw(st.lists(st.sampled_from(pool), min_size=nf, max_size=nf, unique=True))
    cases = [[n, ["f", i]] for i, n in enumerate(names)]
    for b, book in enumerate(books):
        for k in range(book["instances"]):
            for j in range(len(book["methods"])):
                cases.append([f"test/book{b}/p{k}/m{j}", ["m", b, k, j]])
    return {"functions": functions, "books": books, "cases": draw(st.permutations(cases))}
