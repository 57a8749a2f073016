import os
import sys
import types

import booktest as bt
from hypothesis import strategies as st

from vp.core import Campaign, check, check_eq
from vp.web import Clients, b64, server
from vp.webcheck import changed_entry_points, entry_points
from vp.world import as_method, run, verdict

PROPERTY = "C20"
RULE = ("suites of 1 to 3 tests under random stacks of up to 6 environment, function and http snapshots and mocks and setup/teardown "
        "decorators, some of which cannot be started or stopped, that end in 8 ways at random points, in several modes; afterwards "
        "the environment, the functions and the http libraries are compared with how they were; non-trivial: at least 3 layers and "
        "an abnormal end")

MODULE = "vp_process"
NAMES = ["VP_A", "VP_B", "VP_C"]


class Abnormal(Exception):
    pass


def make_module():
    m = types.ModuleType(MODULE)
    sys.modules[MODULE] = m
    exec("""
class K:
    def method(self, x=0): return "method"
    @classmethod
    def clsmethod(cls, x=0): return "clsmethod"
class Sub(K): pass
class Locked:
    __slots__ = ()
    def method(self): return "locked"
def f0(x=0): return "f0"
def f1(x=0): return "f1"
def bad(x=0): raise OSError("bad")
def unstorable(x=0): return object()
obj = K()
locked = Locked()
""", m.__dict__)
    return m


FUNCTIONS = {"f0": lambda m: m.f0, "f1": lambda m: m.f1, "bad": lambda m: m.bad, "unstorable": lambda m: m.unstorable, "method": lambda m: m.obj.method,
             "clsmethod": lambda m: m.K.clsmethod, "subclass": lambda m: m.Sub.clsmethod}


def functions(m):
    return {"module": {k: id(v) for k, v in vars(m).items()}, "object": dict(vars(m.obj)), "class": {k: id(v) for k, v in vars(m.K).items()},
            "subclass": {k: id(v) for k, v in vars(m.Sub).items()}}


def decorator(layer, m, originals):
    kind, arg = layer
    if kind == "snapshot_env":
        return bt.snapshot_env(*arg)
    if kind == "mock_env":
        return bt.mock_env(dict(arg))
    if kind == "mock_missing_env":
        return bt.mock_missing_env(dict(arg))
    if kind == "snapshot_functions":
        return bt.snapshot_functions(*[originals[n] for n in arg])
    if kind == "mock_functions":
        return bt.mock_functions({originals[n]: (lambda *a, n=n: "mock " + n) for n in arg})
    if kind == "requests":
        return bt.snapshot_requests()
    if kind == "httpx":
        return bt.snapshot_httpx()

    def generator():
        if arg == "setup":
            raise Abnormal("setup")
        old = os.environ.get("VP_SETUP")
        os.environ["VP_SETUP"] = f"{old} set up"
        yield
        if old is None:
            del os.environ["VP_SETUP"]
        else:
            os.environ["VP_SETUP"] = old
        if arg == "teardown":
            raise Abnormal("teardown")
        if arg == "twice":
            yield
    return bt.setup_teardown(generator)


def oracle(case, ctx):
    s = server()
    s.script(lambda hit: None if hit["path"] == "/broken" else {"status": 200, "headers": [], "reason": None, "body": b64(b"x")})
    m = make_module()
    try:
        originals = {n: f(m) for n, f in FUNCTIONS.items()}
        originals["locked"] = m.locked.method

        def make(spec):
            named = set(n for kind, arg in spec["layers"] if kind in ("snapshot_env", "mock_env") for n in
                        (arg if kind == "snapshot_env" else [x[0] for x in arg]))

            def body(t):
                clients = Clients()
                for op in spec["ops"]:
                    if op[0] == "text":
                        t.tln(op[1])
                    elif op[0] == "env":
                        if op[1] in named:
                            if op[2] is None:
                                os.environ.pop(op[1], None)
                            else:
                                os.environ[op[1]] = op[2]
                    elif op[0] == "call":
                        FUNCTIONS[op[1]](m)(op[2])
                    elif op[0] == "http":
                        clients.make({"client": op[1], "method": "GET", "path": op[2], "query": None, "headers": {}, "body": None,
                                      "redirects": True}, s.url)
                    elif op[0] == "fail":
                        t.fail()
                    elif op[0] == "raise":
                        raise Abnormal("body")
                    elif op[0] == "exit":
                        sys.exit(op[1])
                    elif op[0] == "interrupt":
                        raise KeyboardInterrupt()
                return (lambda: 1) if ["unstorable"] in spec["ops"] else None

            def decorate(test):
                for layer in reversed(spec["layers"]):
                    test = decorator(layer, m, originals)(test)
                return test

            if spec["method"]:
                book = as_method(body, decorate)
                return book.test_async if spec["async"] else book.test_it
            test = body
            if spec["async"]:
                async def test(t):
                    return body(t)
            return decorate(test)

        cases = [[f"test/case{k}", make(spec)] for k, spec in enumerate(case["tests"])]
        for n in NAMES:
            os.environ.pop(n, None)
        os.environ.update({n: v for n, v in case["env"] if v is not None})
        points, funcs = entry_points(), functions(m)
        ended = 0
        for args, change in case["runs"]:
            interrupted = False
            for n, v in change:
                if v is None:
                    os.environ.pop(n, None)
                else:
                    os.environ[n] = v
            env = dict(os.environ)
            try:
                run(cases, args)
            except KeyboardInterrupt:
                interrupted = True
                ctx.label("interrupted")
            about = f"after run {args}"
            after = dict(os.environ)
            changed = {n: (env.get(n), after.get(n)) for n in set(env) | set(after) if env.get(n) != after.get(n)}
            check(not changed, "variables changed", about, "(before, after):", changed)
            check_eq(functions(m), funcs, "functions " + about)
            check(not changed_entry_points(points), "http libraries changed", about, changed_entry_points(points))
            for n, f in FUNCTIONS.items():
                if n not in ("bad", "unstorable"):
                    check_eq(f(m)(1), "clsmethod" if n == "subclass" else n, f"what {n} gives {about}")
            for k in range(len(cases)):
                v = verdict("books", f"test/case{k}")
                ctx.label(f"ended {v}")
                ended += v == "FAIL" or interrupted
        ctx.nontrivial(ended > 0 and any(len(spec["layers"]) >= 3 for spec in case["tests"]))
    finally:
        s.script({})
        sys.modules.pop(MODULE, None)


VALUE = st.sampled_from([None, "", "1", "x=y"])


@st.composite
def layers(draw):
    kind = draw(st.sampled_from(["snapshot_env", "mock_env", "mock_missing_env", "snapshot_functions", "mock_functions", "requests", "httpx",
                                 "setup_teardown"]))
    names = st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True)
    if kind == "snapshot_env":
        rv = draw(names)
        if draw(st.integers(0, 3)) == 0:
            # named twice
            rv = rv + [draw(st.sampled_from(rv))]
        return [kind, rv]
    if kind in ("mock_env", "mock_missing_env"):
        rv = [[n, draw(VALUE)] for n in draw(names)]
        if draw(st.integers(0, 5)) == 0:
            # a value that cannot be set
            rv.append([draw(st.sampled_from(NAMES)) + "_X", 5])
        return [kind, rv]
    if kind.endswith("functions"):
        rv = draw(st.lists(st.sampled_from(sorted(FUNCTIONS)), min_size=1, max_size=3, unique=True))
        if draw(st.integers(0, 5)) == 0:
            rv.insert(draw(st.integers(0, len(rv))), "locked")
        if kind == "snapshot_functions" and draw(st.integers(0, 3)) == 0:
            rv.append(rv[0])
        return [kind, rv]
    if kind == "setup_teardown":
        return [kind, draw(st.sampled_from([None, None, "setup", "teardown", "twice"]))]
    return [kind, None]


OP = st.one_of(
    st.tuples(st.just("text"), st.sampled_from(["a", "b"])).map(list),
    st.tuples(st.just("env"), st.sampled_from(NAMES), VALUE).map(list),
    st.tuples(st.just("call"), st.sampled_from(sorted(FUNCTIONS)), st.integers(0, 2)).map(list),
    st.tuples(st.just("http"), st.sampled_from(["requests", "session", "httpx", "client"]), st.sampled_from(["/a", "/b", "/broken"])).map(list))

END = st.sampled_from([["fail"], ["raise"], ["raise"], ["exit", 0], ["exit", "x"], ["interrupt"], ["unstorable"]])


@st.composite
def cases(draw):
    tests = []
    for _ in range(draw(st.integers(1, 3))):
        ls = []
        for layer in draw(st.lists(layers(), min_size=1, max_size=6)):
            # the same library is intercepted once
            if layer[0] in ("requests", "httpx") and any(x[0] == layer[0] for x in ls):
                continue
            ls.append(layer)
        ops = draw(st.lists(OP, max_size=4))
        if draw(st.integers(0, 2)) == 0:
            ops.insert(draw(st.integers(0, len(ops))), draw(END))
        tests.append({"layers": ls, "ops": ops, "async": draw(st.booleans()), "method": draw(st.booleans())})
    return {"tests": tests, "env": [[n, draw(VALUE)] for n in NAMES],
            "runs": draw(st.lists(st.tuples(
                st.sampled_from([["-s", "-a"], ["-S", "-a"], ["-S", "-a", "-u"], [], ["-a"], ["-v"], ["-s"], ["-f"]]),
                st.lists(st.tuples(st.sampled_from(NAMES), VALUE).map(list), max_size=2)).map(list), min_size=1, max_size=4))}


CAMPAIGNS = [
    Campaign("stacks", cases, oracle, 2400, 60000),
]
