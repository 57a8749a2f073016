"""
Reference model of one command over a suite: from what is on the disk before the command, what the tests are going to do
and the answers, to what is to be on the disk, on the console and in the log of executions after it.

Tests of the model write whole lines, so a verdict is a line by line comparison.
"""
import os

from vp.core import HarnessError, check, check_eq
from vp.world import book_files, files, output_text, records, snapshot_text

FAILING = ("fail", "raise", "exit", "unstorable")


def prefixes(selection, name):
    return selection == "" or name == selection or name.startswith(selection + "/")


def selected(args, name):
    """ args: positive and skip: arguments """
    if any(prefixes(a[len("skip:"):], name) for a in args if a.startswith("skip:")):
        return False
    positive = [a for a in args if not a.startswith("skip:")]
    return not positive or any(a == "*" or prefixes(a, name) for a in positive)


def split_args(args):
    flags = set(a for a in args if a.startswith("-"))
    return flags, [a for a in args if not a.startswith("-")]


class Behaviour:
    """ what a test does in a run, by its ops """

    def __init__(self, ops):
        self.text = ""
        self.lines = []         # (tested, text)
        self.files = {}
        self.fails = False
        self.diffs = False
        self.value = None
        self.raises = False
        for op in ops:
            k = op[0]
            if k in ("tln", "iln"):
                self.lines.append((k == "tln", op[1]))
            elif k == "file":
                self.files[op[1]] = op[2].encode()
            elif k == "diff":
                self.diffs = True
            elif k == "fail":
                self.fails = True
            elif k == "assertln":
                self.lines.append((True, "ok"))
                if not op[1]:
                    self.fails = True
                    self.lines[-1] = (True, None)
            elif k in ("raise", "exit"):
                self.fails = self.raises = True
                break
            elif k == "unstorable":
                self.fails = self.raises = True
                break
            elif k == "return":
                self.value = op[1]
                break
            elif k in ("stderr", "log", "tmp"):
                pass
            else:
                raise HarnessError(f"op {op} is not in the model")
        self.text = "".join(x + "\n" for _, x in self.lines if x is not None)

    def verdict(self, snapshot):
        if self.fails:
            return "FAIL"
        if snapshot is None or self.diffs:
            return "DIFF"
        exp = snapshot.split("\n")
        if exp[-1] == "":
            exp.pop()
        for k, (tested, text) in enumerate(self.lines):
            if tested and (k >= len(exp) or exp[k] != text):
                return "DIFF"
        return "OK"


class World:
    """ the state on the disk """

    def __init__(self, root, names):
        self.root = root
        self.names = names
        self.snapshots = {n: snapshot_text(root, n) for n in names}
        self.snapshot_files = {n: files(os.path.join(root, n)) if os.path.isdir(os.path.join(root, n)) else {} for n in names}
        self.outputs = {n: output_text(root, n) for n in names}
        self.output_files = {n: files(os.path.join(root, ".out", n)) if os.path.isdir(os.path.join(root, ".out", n)) else {}
                             for n in names}
        self.records = records(root)
        file = os.path.join(root, ".out", "cases.txt")
        self.raw = open(file, "rb").read() if os.path.exists(file) else b""
        self.stored = set(n for n in names if os.path.exists(os.path.join(root, ".out", n + ".bin")))
        self.all = book_files(root)


class Prediction:
    def __init__(self):
        self.executed = []       # in order
        self.shown = []          # (case, verdict before acceptance) in order, of a run or a review
        self.records = None
        self.accepted = []
        self.snapshots = None
        self.snapshot_files = None
        self.asked = 0
        self.code = 0
        self.stopped = False
        self.verdicts = {}       # verdict before acceptance
        self.final = {}
        self.missing_dependency = []
        self.tools = []          # (case, letter)
        self.args = {}
        self.returned = {}


def closure(order, deps, args, stored, refresh):
    rv = []

    def add(name, chain):
        for d in deps.get(name, []):
            if d is not None and (selected(args, d) or refresh or d not in stored):
                if d in chain:
                    raise HarnessError("cycle")
                add(d, chain + [d])
        if name not in rv:
            rv.append(name)

    for name in order:
        if selected(args, name):
            add(name, [name])
    return rv


def todo_of(order, deps, flags, selection, world, defaults=("test", "book")):
    cases = closure(order, deps, selection or list(defaults), world.stored, "-r" in flags)
    if "-c" in flags:
        first = {}
        for n, v in world.records:
            first.setdefault(n, v)
        return cases, [n for n in cases if first.get(n) != "OK"]
    return cases, cases


def decide(verdict, flags, answers, p, name=None):
    """ review of one case. returns (final verdict, quit) """
    quit = False
    accept = False
    if "-I" in flags or ("-i" in flags and verdict != "OK"):
        while True:
            p.asked += 1
            if not answers:
                raise HarnessError("model ran out of answers")
            a = answers.pop(0)
            if a == "a" and verdict != "FAIL":
                accept = True
                break
            if a == "c":
                break
            if a == "q":
                quit = True
                break
            if a in ("v", "l", "d", "D"):
                p.tools.append((name, a))
    if accept or ("-u" in flags and verdict == "OK") or ("-a" in flags and verdict == "DIFF"):
        return "OK", True, quit
    return verdict, False, quit


def predict_run(order, deps, behaviour, world, args, answers, available=None, defaults=("test", "book")):
    """
    @param deps: case -> names of dependencies
    @param behaviour: case -> ops
    """
    flags, selection = split_args(args)
    p = Prediction()
    answers = list(answers)
    cases, todo = todo_of(order, deps, flags, selection, world, defaults)
    p.cases = cases
    p.todo = todo
    stored = set(world.stored)
    p.snapshots = dict(world.snapshots)
    p.snapshot_files = dict(world.snapshot_files)
    p.records = [r for r in world.records if r[0] not in todo]
    for name in todo:
        b = Behaviour(behaviour.get(name, []))
        if any(d is not None and d not in stored for d in deps.get(name, [])):
            v = "FAIL"
            p.missing_dependency.append(name)
        else:
            v = b.verdict(world.snapshots[name])
            p.executed.append(name)
        if v != "FAIL":
            stored.add(name)
            p.returned[name] = b.value
        final, accepted, quit = decide(v, flags, answers, p, name)
        p.verdicts[name] = v
        p.final[name] = final
        p.shown.append((name, v))
        if accepted:
            p.accepted.append(name)
            p.snapshots[name] = b.text
            p.snapshot_files[name] = b.files
        p.records.append((name, final))
        if quit or ("-f" in flags and final != "OK"):
            p.stopped = True
            break
    p.stored = stored
    p.code = 0 if all(v == "OK" for v in p.final.values()) else 255
    p.not_ok = [n for n in p.final if p.final[n] != "OK"]
    return p


def predict_review(order, deps, world, args, answers, defaults=("test", "book")):
    flags, selection = split_args(args)
    p = Prediction()
    answers = list(answers)
    cases = closure(order, deps, selection or list(defaults), world.stored, "-r" in flags)
    p.snapshots = dict(world.snapshots)
    p.snapshot_files = dict(world.snapshot_files)
    p.records = []
    stop = False
    for name, v in world.records:
        final = v
        if not stop and name in cases and not ("-c" in flags and v == "OK"):
            final, accepted, quit = decide(v, flags, answers, p, name)
            p.shown.append((name, v))
            p.verdicts[name] = v
            p.final[name] = final
            if accepted:
                p.accepted.append(name)
                if world.outputs[name] is not None:
                    p.snapshots[name] = world.outputs[name]
                    p.snapshot_files[name] = world.output_files[name]
                elif world.output_files[name]:
                    # killed in the middle of the acceptance
                    p.snapshot_files[name] = world.output_files[name]
            if quit or ("-f" in flags and final != "OK"):
                stop = True
        p.records.append((name, final))
    p.stopped = stop
    p.stored = set(world.stored)
    p.code = 0 if all(v == "OK" for _, v in p.records) else 255
    p.not_ok = [n for n, v in p.records if v != "OK"]
    p.todo = p.cases = cases
    return p


def predict_forget(order, deps, world, args, defaults=("test", "book")):
    flags, selection = split_args(args)
    p = Prediction()
    cases = closure(order, deps, selection or list(defaults), world.stored, "-r" in flags)
    p.snapshots, p.snapshot_files = dict(world.snapshots), dict(world.snapshot_files)
    p.records = [r for r in world.records if r[0] not in cases]
    p.stored = set(world.stored)
    p.todo = p.cases = cases
    return p


def check_snapshots(before, after, p, names):
    """ C07: snapshots change only by acceptance, and then become the output """
    for n in names:
        why = "accepted" if n in p.accepted else "not accepted"
        check_eq(after.snapshots[n], p.snapshots[n], f"snapshot text of {n}, {why}")
        check_eq(after.snapshot_files[n], p.snapshot_files[n], f"snapshot files of {n}, {why}")
    known = set()
    for n in names:
        known.add(n + ".md")
        known.update(n + "/" + f for f in set(after.snapshot_files[n]) | set(before.snapshot_files[n]))
    check_eq({k: v for k, v in after.all.items() if k not in known},
             {k: v for k, v in before.all.items() if k not in known}, "other files of the book")
