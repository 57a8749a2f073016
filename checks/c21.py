import io
import logging
import sys

from hypothesis import strategies as st

from vp import gen
from vp.behave import begun, set_behaviour, take_events
from vp.core import Campaign, check, check_eq
from vp.history import dependency_specs
from vp.project import forked_workers, loaded
from vp.world import async_program, exists, files, of_no_case, program, read_text, run

PROPERTY = "C21"
RULE = ("suites of 1 to 5 tests writing marked texts to standard error and to root and named loggers between other output, ending in 9 "
        "ways, with 0 to 2 handlers, any root level and formatter, run sequentially (also interrupted) and in parallel with forked "
        "workers; every log is predicted exactly and all other files and outputs are searched for the marks; non-trivial: at least "
        "2 tests writing logs and an abnormal end or a parallel run")

LEVELS = {"debug": logging.DEBUG, "info": logging.INFO, "warning": logging.WARNING, "error": logging.ERROR, "critical": logging.CRITICAL}


# it tells at the debug level, how it waits
logging.getLogger("asyncio").setLevel(logging.WARNING)


def expected_log(ops, level, fmt):
    """ the log of a test, with the root logger at a level and the format of its first handler """
    rv = []
    for op in ops:
        k = op[0]
        if k == "stderr":
            rv.append(op[1])
        elif k in ("log", "nlog", "logexc"):
            lv = {"log": op[1], "nlog": op[2] if k == "nlog" else None, "logexc": "error"}[k]
            if LEVELS[lv] >= level:
                rv.append(fmt.replace("L", lv.upper()).replace("M", op[-1]) + "\n")
        elif k == "replace stderr":
            break
        elif k in ("raise", "exit", "interrupt", "unstorable"):
            break
    return "".join(rv)


def formatter(fmt):
    return logging.Formatter(fmt.replace("L", "%(levelname)s").replace("M", "%(message)s"))


def marks_of(ops):
    return [op[-1].strip() for op in ops if op[0] in ("stderr", "log", "nlog", "logexc")]


def search(names, programs, executed, out, err, print_logs, ctx):
    for n in names:
        if n not in executed:
            continue
        for mark in marks_of(programs[n]):
            marker = mark[:mark.index("]") + 1]
            for file, data in files("books").items():
                if file != f".out/{n}.log" and not (print_logs and of_no_case(file, names)):
                    check(marker.encode() not in data, "error output or log", mark, "of", n, "is in", file)
            if not print_logs:
                check(marker not in out, "error output or log", mark, "of", n, "is in the standard output")
            check(marker not in err, "error output or log", mark, "of", n, "is in the standard error of the process")
            ctx.label("marks")


def oracle(case, ctx):
    names = [f"test/case{k}" for k in range(len(case["programs"]))]
    programs = dict(zip(names, [p["ops"] for p in case["programs"]]))
    executed = []
    cases = [[n, (async_program if p["async"] else program)(p["ops"], executed, n)] for n, p in zip(names, case["programs"])]
    root = logging.getLogger()
    level, handlers = root.level, root.handlers
    streams = []
    try:
        root.handlers = []
        for fmt in case["handlers"]:
            streams.append(io.StringIO())
            h = logging.StreamHandler(streams[-1])
            h.setFormatter(formatter(fmt))
            root.addHandler(h)
        root.setLevel(case["level"])
        before = list(root.handlers)
        fmt = case["handlers"][0] if case["handlers"] else "M"
        mine = io.StringIO()
        for args in case["runs"]:
            executed.clear()
            old = sys.stderr
            interrupted = False
            try:
                r = Captured()
                with r:
                    try:
                        run_here(cases, args, r)
                    except KeyboardInterrupt:
                        interrupted = True
                        ctx.label("interrupted")
                    check(sys.stderr is r.err_stream, "standard error is not the one from before, after", args)
                    check_eq(root.handlers, before, "handlers of the root logger after", args)
                    check_eq(root.level, case["level"], "level of the root logger after", args)
                    sys.stderr.write("usable")
                    logging.getLogger().critical("usable")
            finally:
                check(sys.stderr is old, "standard error was changed")
            check_eq(r.err_stream.getvalue(), "usable" + ("" if case["handlers"] else "usable\n"),
                     f"standard error of the process after {args}")
            for s, f in zip(streams, case["handlers"]):
                check_eq(s.getvalue(), f.replace("L", "CRITICAL").replace("M", "usable") + "\n", f"log of the process after {args}")
                s.truncate(0)
                s.seek(0)
            for n in executed:
                check_eq(read_log(n), expected_log(programs[n], case["level"], fmt), f"log of {n} in {args}")
            search(names, programs, executed, r.out_stream.getvalue(), r.err_stream.getvalue(), "-L" in args, ctx)
            if "-L" in args:
                printed(names, executed, r.out_stream.getvalue(), "-v" in args, interrupted)
            if not interrupted and "-f" not in args:
                check_eq(executed, names, "tests run")
        logging_tests = [n for n in names if marks_of(programs[n])]
        ctx.nontrivial(len(logging_tests) >= 2 and any(op[0] in ("raise", "exit", "interrupt", "unstorable", "fail")
                                                       for p in programs.values() for op in p))
    finally:
        root.handlers = handlers
        root.setLevel(level)


def read_log(n):
    with open(f"books/.out/{n}.log", newline="") as f:
        return f.read()


def printed(names, executed, out, verbose, interrupted):
    """ logs are shown on request, after the test """
    at = 0
    for n in executed[:-1] if interrupted else executed:
        for line in read_log(n).split("\n"):
            text = line.strip()
            if "\r" in line or not text:
                continue
            found = out.find(text, at)
            check(found >= 0, "line", line, "of the log of", n, "is not printed")
            at = found + len(text)


class Captured:
    def __enter__(self):
        self.old = sys.stdout, sys.stderr
        self.out_stream, self.err_stream = io.StringIO(), io.StringIO()
        sys.stdout, sys.stderr = self.out_stream, self.err_stream
        return self

    def __exit__(self, *args):
        sys.stdout, sys.stderr = self.old


def run_here(cases, args, r):
    import booktest as bt
    from vp.world import reset_config
    reset_config()
    bt.Tests([list(c) for c in cases]).exec("books", list(args))


def marked(draw, k, n):
    text = draw(st.one_of(st.just("text"), gen.SIMPLE_LINE, st.just("é漢😀"), st.just("a%sb %d {x}"), st.just("two\nlines")))
    return f"[mark{k}.{n}.{draw(st.integers(1000, 9999))}]{text}"


@st.composite
def noise(draw, k):
    """ the calls of a test, with marked texts """
    ops = []
    for n in range(draw(st.integers(0, 5))):
        kind = draw(st.sampled_from(["stderr", "stderr", "log", "log", "nlog", "logexc", "tln", "tln", "h", "print", "iln", "addhandler"]))
        if kind == "stderr":
            ops.append(["stderr", marked(draw, k, n) + draw(st.sampled_from(["\n", "\n", "", " ", "\n\n"]))])
        elif kind == "log":
            ops.append(["log", draw(st.sampled_from(sorted(LEVELS))), marked(draw, k, n)])
        elif kind == "nlog":
            ops.append(["nlog", draw(st.sampled_from(["vp", "vp.sub", "booktest"])), draw(st.sampled_from(sorted(LEVELS))), marked(draw, k, n)])
        elif kind == "logexc":
            ops.append(["logexc", marked(draw, k, n)])
        elif kind in ("tln", "iln", "print"):
            ops.append([kind, draw(gen.SIMPLE_LINE)])
        elif kind == "h":
            ops.append(["h1", "header"])
        else:
            ops.append(["addhandler"])
    end = draw(st.sampled_from([None, None, None, None, ["fail"], ["raise", "Program", "gone"], ["exit", 0], ["exit", "x"], ["unstorable"],
                                ["replace stderr"]]))
    if end is not None:
        ops.insert(draw(st.integers(0, len(ops))), end)
        if end[0] == "replace stderr":
            # what is written there afterwards, is nobody's
            at = ops.index(end)
            ops = ops[:at + 1] + [op for op in ops[at + 1:] if op[0] in ("tln", "iln", "print", "h1")]
    return ops


RUNS = st.lists(st.sampled_from([[], ["-a"], ["-a", "-v"], ["-L"], ["-L", "-v"], ["-u"], ["-f"], ["-a", "-L"]]), min_size=1, max_size=3)


@st.composite
def cases(draw):
    programs = []
    for k in range(draw(st.integers(1, 5))):
        ops = draw(noise(k))
        if draw(st.integers(0, 19)) == 0:
            ops.append(["interrupt"])
        programs.append({"ops": ops, "async": draw(st.booleans())})
    return {"programs": programs, "runs": draw(RUNS), "level": draw(st.sampled_from([1, 10, 15, 20, 30, 30, 40])),
            "handlers": draw(st.lists(st.sampled_from(["M", "L: M", "(L) M"]), max_size=2))}


def parallel_oracle(case, ctx):
    spec = case["spec"]
    names = [n for n, _ in spec["cases"]]
    programs = {n: case["behaviour"][n] for n in names}
    set_behaviour({n: {"ops": ops, "ms": 0} for n, ops in programs.items()})
    root = logging.getLogger()
    level, handlers = root.level, root.handlers
    root.handlers = []
    root.setLevel(case["level"])
    try:
        with loaded(spec) as suite, forked_workers():
            for args in case["runs"]:
                r = run(suite, [f"-p{case['processes']}"] + args)
                executed = begun(take_events())
                for n in executed:
                    check_eq(read_log(n), expected_log(programs[n], case["level"], "M"), f"log of {n} in {args}")
                search(names, programs, executed, r.out, r.err, "-L" in args, ctx)
        ctx.nontrivial(sum(1 for n in names if marks_of(programs[n])) >= 2)
    finally:
        root.handlers = handlers
        root.setLevel(level)


@st.composite
def parallel_cases(draw):
    spec = draw(dependency_specs(max_functions=5, max_books=1))
    names = [n for n, _ in spec["cases"]]
    return {"spec": spec, "behaviour": {n: draw(noise(k)) for k, n in enumerate(names)}, "runs": draw(RUNS),
            "level": draw(st.sampled_from([10, 15, 30, 30])), "processes": draw(st.sampled_from([1, 2, 3, 4]))}


CAMPAIGNS = [
    Campaign("sequential", cases, oracle, 2400, 60000),
    Campaign("parallel", parallel_cases, parallel_oracle, 320, 12000),
]
