import os
import re

from hypothesis import strategies as st

import booktest as bt

from vp import behave, cli, project, world
from vp.core import Campaign, check, check_eq

PROPERTY = "C24"
RULE = ("layers: random home and project files (comments, blank lines, values with '=', 0 and 1), BOOKTEST_ variables and flags of "
        "several runs in one process, against a model of the layering. setup: random answers over random current settings, then the "
        "configuration of a new run. effects: a setting given in any layer against the same flag on a twin suite. command line: the "
        "paths settings of the tool. non-trivial: a key is defined in at least two layers, or (effects) a setting of the run is on")

FLAGS = {"-i": "interactive", "-I": "always_interactive", "-v": "verbose", "-L": "print_logs", "-f": "fail_fast", "-c": "continue",
         "-r": "refresh_sources", "-u": "update", "-a": "accept", "-s": "complete_snapshots", "-S": "refresh_snapshots"}
VALUED = {"-md-viewer": "md_viewer", "-diff-tool": "diff_tool"}
COUNTS = {"-p": True, "-p1": 1, "-p2": 2, "-p3": 3, "-p4": 4, "-p6": 6, "-p8": 8, "-p16": "16"}


def parse(value):
    return {"1": True, "0": False}.get(value, value)


def file_lines(lines):
    rv = {}
    for kind, *x in lines:
        if kind == "set":
            rv[x[0]] = parse(x[1])
    return rv


def write(file, lines, last_break=True):
    text = "\n".join({"set": lambda k, v, before="", after="": f"{before}{k}={v}{after}", "comment": lambda c: "#" + c, "blank": lambda b: b}[kind](*x)
                     for kind, *x in lines)
    if text and last_break:
        text += "\n"
    os.makedirs(os.path.dirname(file) or ".", exist_ok=True)
    with open(file, "w", newline="\n") as f:
        f.write(text)


def layers(home, project_lines, env):
    rv = file_lines(home)
    rv.update(file_lines(project_lines))
    for k, v in env.items():
        rv[k.lower()] = parse(v)
    return rv


def place(case, d="."):
    """ makes the layers of the case. returns the names of the layers that are there """
    home = os.path.abspath(os.path.join(d, "home dir"))
    os.makedirs(home)
    os.environ["HOME"] = home
    if case["home"] is not None:
        write(os.path.join(home, ".booktest"), case["home"], case["break"])
    if case["project"] is not None:
        write(os.path.join(d, ".booktest"), case["project"], case["break"])
    for k, v in case["env"].items():
        os.environ["BOOKTEST_" + k] = v


def config_of(args, fresh, extra=None):
    tests = bt.Tests([["test/x", lambda t: None]])
    r = world.run(tests, list(args) + ["--config"], fresh_config=fresh, extra=extra)
    check_eq(r.rv, 0, "exit status of --config")
    rv = {}
    for line in r.out.split("\n")[:-1]:
        check("=" in line, "line of --config without '=':", line)
        k, v = line.split("=", 1)
        check(k not in rv, "listed twice:", k)
        rv[k] = v
    return rv


def with_flags(config, args):
    rv = dict(config)
    for a in args:
        if a in FLAGS:
            rv[FLAGS[a]] = True
        elif a in COUNTS:
            rv["parallel"] = COUNTS[a]
        elif a == "--cov":
            rv["coverage"] = True
        elif "=" in a:
            k, v = a.split("=", 1)
            rv["parallel" if k == "--parallel-count" else VALUED[k]] = int(v) if k == "--parallel-count" else v
    return rv


def printed(config):
    return {k: str(v) for k, v in config.items()}


def layered(case, ctx):
    place(case)
    base = layers(case["home"] or [], case["project"] or [], case["env"])
    for k, run in enumerate(case["runs"]):
        check_eq(config_of(run["args"], fresh=(k == 0), extra=run["extra"]),
                 printed(with_flags({**base, **run["extra"]}, run["args"])), f"configuration of run {k} with {run}, layers", case)
    keys = [set(file_lines(case["home"] or [])), set(file_lines(case["project"] or [])), set(x.lower() for x in case["env"])]
    keys += [set(with_flags({}, r["args"])) for r in case["runs"]]
    double = set(k for i, a in enumerate(keys) for b in keys[i + 1:] for k in a & b)
    ctx.label("keys in several layers", len(double))
    ctx.nontrivial(double or len(case["runs"]) > 1)


def setup(case, ctx):
    place(case)
    lines = case["project"] or []
    for answers in case["answers"]:
        before = layers(case["home"] or [], lines, case["env"])
        expected = {}
        r = world.run(bt.Tests([["test/x", lambda t: None]]), ["--setup"], answers=list(answers))
        check_eq(r.rv, 0, "exit status of setup")
        check_eq(r.asked, 7, "questions of setup")
        new = []
        for key, default, answer in zip(SETUP, DEFAULTS, answers):
            new.append(["set", key, answer if answer else before.get(key, default)])
        lines = new
        expected = layers(case["home"] or [], lines, case["env"])
        got = config_of([], fresh=True)
        for key in SETUP:
            check_eq(got.get(key), str(expected[key]), f"{key} after setup with answers {answers}, before {before.get(key)!r}, "
                                                        f"variables {case['env']}")
            # an answer is what later runs read, unless a variable overrides it
        for key, answer in zip(SETUP, answers):
            if answer and key not in [k.lower() for k in case["env"]]:
                check_eq(got[key], answer, f"answer for {key} after setup")
        ctx.nontrivial(any(answers) and not all(answers))
        ctx.label("answers", sum(1 for a in answers if a))


SETUP = ["diff_tool", "fast_diff_tool", "md_viewer", "log_viewer", "test_paths", "default_tests", "books_path"]
DEFAULTS = ["meld", "diff", "retext --preview", "less", "test,book,run", "test,book", "books"]


# ---------------------------------------------------------------- effects of settings

SPEC = {"functions": [{}, {}, {"deps": [["f", 0]]}, {}, {}, {"inner": ['bt.snapshot_env("VP_C24", "VP_C24_NEW")']}],
        "cases": [["test/a", ["f", 0]], ["test/b", ["f", 1]], ["test/c", ["f", 2]], ["test/s/d", ["f", 3]], ["other/e", ["f", 4]],
                  ["test/v", ["f", 5]]]}
NAMES = [n for n, _ in SPEC["cases"]]


def scripts(verdicts, text):
    rv = {}
    for n in NAMES:
        v = verdicts.get(n, "OK")
        ops = [["tln", f"first {n}"], ["log", "warning", f"log of {n}"]]
        if v != "OK":
            ops.append(["tln", text])
        if v == "FAIL":
            ops.append(["fail"])
        rv[n] = {"ops": ops + [["return", text]]}
    behave.set_behaviour(rv)


def play(case, d, args, home, lines, env):
    """ accepts the suite, and then makes runs under the given settings. returns what can be seen """
    os.makedirs(os.path.join(d, "home"))
    os.makedirs(os.path.join(d, "work"))
    os.environ["HOME"] = os.path.abspath(os.path.join(d, "home"))
    old = os.getcwd()
    os.chdir(os.path.join(d, "work"))
    seen = []
    try:
        with project.loaded(SPEC) as suite, project.forked_workers():
            scripts({}, "x")
            os.environ["VP_C24"] = "recorded"
            r = world.run(suite, ["-a", "-s", "*"])
            check_eq(r.code, 0, "accepting run, output " + r.out)
            write(".booktest", lines)
            write(os.path.join(os.environ["HOME"], ".booktest"), home)
            for k, v in env.items():
                os.environ["BOOKTEST_" + k] = v
            os.environ["VP_C24"] = "changed"
            if case["unrecord"]:
                os.remove("books/test/v/.env.json")
            behave.take_events()
            for k, verdicts in enumerate(case["verdicts"]):
                scripts(verdicts, f"y{k}")
                r = world.run(suite, list(args) + case["select"], answers=list(case["answers"]) * 20, fresh_config=(k == 0))
                seen.append({"exit": r.code, "report": world.records("books"), "out": re.sub(r"\d+ ms", "N ms", r.out),
                             "ran": [[e["case"], e["args"]] for e in behave.take_events() if e["kind"] == "begin"],
                             "asked": r.asked,
                             "files": {f: v for f, v in world.files("books").items()
                                       if not world.of_no_case(f, NAMES)}})
    finally:
        for k in env:
            os.environ.pop("BOOKTEST_" + k, None)
        os.chdir(old)
    return seen


def comparable(seen, parallel):
    if parallel:
        return [{"exit": s["exit"], "report": sorted(s["report"]), "ran": sorted(s["ran"]), "files": s["files"]} for s in seen]
    return seen


def effects(case, ctx):
    args = []
    for s in case["settings"]:
        final = [v for v in s["values"] if v is not None][-1:]
        if final and final[0] != "0":
            args.append("--parallel-count=2" if s["key"] == "parallel" else {v: k for k, v in FLAGS.items()}[s["key"]])
    home, lines, env = [], [], {}
    for s in case["settings"]:
        h, p, e = s["values"]
        if h is not None:
            home.append(["set", s["key"], h])
        if p is not None:
            lines.append(["set", s["key"], p])
        if e is not None:
            env[s["key"].upper()] = e
    parallel = any(a.startswith("--parallel") for a in args)
    with_settings = play(case, "settings", [], home, lines, env)
    with_flags = play(case, "flags", args, [], [], {})
    for k, (a, b) in enumerate(zip(comparable(with_settings, parallel), comparable(with_flags, parallel))):
        for what in a:
            check_eq(a[what], b[what], f"{what} of run {k} with home {home}, project {lines}, env {env}, against {args}")
    plain = play(case, "plain", [], [], [], {})
    visible = comparable(plain, parallel) != comparable(with_flags, parallel)
    ctx.label("settings with visible effect" if visible else "without visible effect")
    ctx.nontrivial(visible)


# ---------------------------------------------------------------- paths, by the command line tool

def by_tool(case, ctx):
    place(case)
    config = layers(case["home"] or [], case["project"] or [], case["env"])
    for d in "abc":
        os.makedirs(d)
        for f in [d, "__init__"]:
            with open(f"{d}/{f}_test.py" if f == d else f"{d}/__init__.py", "w") as h:
                if f == d:
                    h.write("".join(f"def test_{n}(t):\n    t.tln('{d} {n}')\n\n" for n in case["tests"][d]))
    env = {"BOOKTEST_" + k: v for k, v in case["env"].items()}
    paths = config.get("test_paths", "test,book,run").split(",")
    all_names = [f"{d}/{d}/{n}" for d in paths if d in "abc" for n in sorted(case["tests"][d])]
    default = config.get("default_tests", "test,book").split(",")
    selected = [n for n in all_names if any(n == s or n.startswith(s + "/") for s in default)]
    r = cli.booktest(["-l"], ".", env)
    check_eq(r.code, 0, "exit status of -l:", r.err)
    check_eq([x.strip() for x in r.out.split("\n") if x.strip()], selected, "tests listed with", config)
    r = cli.booktest(["-a"], ".", env)
    check_eq(r.code, 0, "exit status of -a:", r.err)
    root = config.get("books_path", "books")
    got = {}
    for base, _dirs, files in os.walk("."):
        for f in files:
            if f.endswith(".md") and f != "index.md" and "/.out/" not in base + "/":
                got[os.path.relpath(os.path.join(base, f), ".")] = world.read_text(os.path.join(base, f))
    check_eq(got, {f"{root}/{n}.md": "{} {}\n".format(*n.split("/")[1:]) for n in selected}, "snapshots with", config)
    ctx.label("selected tests", len(selected))
    ctx.nontrivial(selected and sum(x is not None for x in (case["home"], case["project"])) + bool(case["env"]) >= 2)


# ---------------------------------------------------------------- generators

KEYS = ["diff_tool", "fast_diff_tool", "md_viewer", "log_viewer", "test_paths", "books_path", "custom", "x2", "accept", "update", "parallel",
        "verbose", "fail_fast", "a_b_c", "booktest_x", "x_booktest_"]
VALUE = st.one_of(st.sampled_from(["0", "1", "", "01", "00", "10", "true", "yes", "on", "no", "false", "None", "True", "a=b", "=", "a==b=", "x # y", "#", "--opt=1", "1.0", "-1", "tool --flag \"q\""]),
                  st.text(alphabet=st.sampled_from("ab01=# -'\"$\\%:;,."), max_size=8).map(str.strip))
COMMENT = st.sampled_from(["", " a comment", "accept=1", " diff_tool=none", "#", "=", "custom=0"])


def lines(keys, values, min_size=0):
    blanks = st.sampled_from(["", " ", "\t", "  "])
    return st.lists(st.one_of(st.tuples(st.just("set"), st.sampled_from(keys), values),
                              st.tuples(st.just("set"), st.sampled_from(keys), values, blanks, blanks),
                              st.tuples(st.just("comment"), COMMENT), st.tuples(st.just("blank"), st.sampled_from(["", " ", "\t", "   "]))
                              ).map(list), min_size=min_size, max_size=7)


def optional(strategy):
    return st.one_of(st.none(), strategy, strategy, strategy)


@st.composite
def env_of(draw, keys, values):
    chosen = draw(st.lists(st.sampled_from(keys), unique=True, max_size=4))
    return {draw(st.sampled_from([str.upper, str.upper, str.upper, str.lower, str.title]))(k): draw(values) for k in chosen}


FLAG = st.one_of(st.sampled_from(sorted(FLAGS)), st.sampled_from(sorted(FLAGS)), st.sampled_from(sorted(COUNTS) + ["--cov"]),
                 st.builds("{}={}".format, st.sampled_from(sorted(VALUED)), st.sampled_from(["tool", "a b", "meld -x"])),
                 st.integers(1, 30).map("--parallel-count={}".format))


@st.composite
def layered_cases(draw):
    keys = draw(st.lists(st.sampled_from(KEYS), unique=True, min_size=1, max_size=4))
    if draw(st.booleans()):
        keys = KEYS
    def args():
        rv = draw(st.lists(FLAG, unique=True, max_size=3))
        # one count, as the last one would win
        return rv if sum(a in COUNTS or "count" in a for a in rv) <= 1 else rv[:1]
    return {"home": draw(optional(lines(keys, VALUE))), "project": draw(optional(lines(keys, VALUE))),
            "env": draw(env_of(keys, VALUE)), "break": draw(st.booleans()),
            "runs": [{"args": args(), "extra": draw(st.sampled_from([{}, {}, {"accept": True}, {"custom": "extra", "new": "5"}]))}
                     for _ in range(draw(st.integers(1, 3)))]}


SET_VALUE = VALUE.filter(lambda x: x not in ("0", "1"))


@st.composite
def setup_cases(draw):
    keys = SETUP + ["custom"]
    answer = st.one_of(st.just(""), SET_VALUE, st.sampled_from(DEFAULTS))
    return {"home": draw(optional(lines(keys, SET_VALUE))), "project": draw(optional(lines(keys, SET_VALUE))),
            "env": draw(st.one_of(st.just({}), env_of(SETUP, SET_VALUE))), "break": draw(st.booleans()),
            "answers": [[draw(answer) for _ in SETUP] for _ in range(draw(st.integers(1, 2)))]}


@st.composite
def effects_cases(draw):
    keys = draw(st.lists(st.sampled_from(sorted(FLAGS.values()) + ["parallel"]), unique=True, min_size=1, max_size=3))
    settings = []
    for k in keys:
        on = draw(st.sampled_from(["2", "2", "1", "True"])) if k == "parallel" else "1"
        settings.append({"key": k, "values": draw(st.lists(st.sampled_from([None, on, on, "0"]), min_size=3, max_size=3))})
    # which cases of an aborted parallel run are recorded depends on the schedule
    parallel = "parallel" in keys
    if parallel:
        settings = [x for x in settings if x["key"] != "fail_fast"]
    verdict = st.sampled_from(["OK", "DIFF", "FAIL"])
    return {"settings": settings, "answers": draw(st.sampled_from([["c"]] if parallel else [["a", "c"], ["c"], ["c", "q"]])),
            "unrecord": draw(st.booleans()), "select": draw(st.sampled_from([[], [], ["*"], ["test/c"], ["test/s", "test/v"]])),
            "verdicts": [draw(st.fixed_dictionaries({n: verdict for n in NAMES})) for _ in range(draw(st.integers(1, 2)))]}


TOOL_VALUES = {"test_paths": ["a", "b", "c", "a,b", "b,a", "a,b,c", "c,x"], "default_tests": ["a", "b", "a,c", "b/b", "c,b/b"],
               "books_path": ["out", "deep/er", "books"]}


@st.composite
def tool_cases(draw):
    def some():
        return [["set", k, draw(st.sampled_from(TOOL_VALUES[k]))] for k in sorted(TOOL_VALUES) if draw(st.booleans())]
    base = [["set", "test_paths", "a,b,c"], ["set", "default_tests", "a,b"]]
    return {"home": base + some(), "project": draw(optional(st.just(0))) and some() or some(), "break": True,
            "env": {k.upper(): v for _, k, v in some()} if draw(st.booleans()) else {},
            "tests": {d: draw(st.lists(st.sampled_from("xyz"), unique=True, min_size=1)) for d in "abc"}}


CAMPAIGNS = [Campaign("layers", layered_cases, layered, 4000, 100000),
             Campaign("setup", setup_cases, setup, 1200, 30000),
             Campaign("effects", effects_cases, effects, 560, 16000, hang_s=90),
             Campaign("command line", tool_cases, by_tool, 48, 1200, hang_s=120)]
