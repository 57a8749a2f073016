import copy
import hashlib
import json
import sys
import types

import booktest as bt
from booktest.functions import SnapshotFunctions
from hypothesis import strategies as st

from vp import gen
from vp.core import Campaign, check, check_eq
from vp.webcheck import stored
from vp.world import as_method, run, verdict

PROPERTY = "C18"
RULE = ("histories of plain, completing (-s) and refreshing (-S) runs, with and without acceptance and reviews, of a test that calls "
        "snapshotted functions of modules and methods of objects with random JSON arguments, modifies what it gets, and whose "
        "functions return new JSON values in every run; model: a map from call to accepted value; helpers of a test that snapshot their "
        "own functions; and tests with mocked functions in any nesting; non-trivial: at least 3 runs, one with values partly from snapshots and partly from real calls")

NAME = "test/functions"
MODULE = "vp_functions"

JSON = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-5, 10 ** 12), st.floats(allow_nan=False), gen.LINE, st.just("é漢😀\u2028")),
                    lambda x: st.one_of(st.lists(x, max_size=3), st.dictionaries(gen.LINE, x, max_size=2)), max_leaves=5)


def make_world(real):
    """ a module with functions and objects, that ask the value of a call """
    m = types.ModuleType(MODULE)
    sys.modules[MODULE] = m
    source = """
class K:
    def __init__(self, n): self.n = n
    def method(self, *args, **kwargs): return REAL("K.method", args, kwargs)
    @classmethod
    def clsmethod(cls, *args, **kwargs): return REAL("K.clsmethod", args, kwargs)
def f0(*args, **kwargs): return REAL("f0", args, kwargs)
def f1(*args, **kwargs): return REAL("f1", args, kwargs)
def f2(a, b=2, *, c=3): return REAL("f2", (a,), {"b": b, "c": c})
obj = K(1)
"""
    m.__dict__["REAL"] = real
    exec(compile(source, MODULE, "exec"), m.__dict__)
    return m


FUNCTIONS = ["f0", "f1", "f2", "K.method", "K.clsmethod"]


def lookup(m, name):
    if name == "K.method":
        return m.obj.method
    if name == "K.clsmethod":
        return m.K.clsmethod
    return getattr(m, name)


def spoil(value):
    """ changes a value from inside """
    if isinstance(value, list):
        for v in value:
            spoil(v)
        value.append("spoilt")
    elif isinstance(value, dict):
        for v in value.values():
            spoil(v)
        value["spoilt"] = 1


def same(a, b):
    return json.dumps(a) == json.dumps(b)


def matches(written, accepted):
    """ lines left out at the very end are not compared """
    return accepted is not None and (written[0] is None or same(written[0], accepted[0])) and \
        written[1] == accepted[1][:len(written[1])]


def state_of(m):
    return {k: (id(v), repr(v)) for k, v in vars(m).items() if k not in ("REAL", "__builtins__")}, dict(vars(m.obj)), {k: id(v) for k, v in vars(m.K).items()}


def oracle(case, ctx):
    now = {"version": 0, "made": []}
    pool = case["pool"]

    def value_of(name, args, kwargs, version):
        for k, c in enumerate(pool):
            if c["f"] == name and same(list(c["args"]), list(args)) and same(full_kwargs(c), kwargs):
                return copy.deepcopy(case["values"][(k + 3 * version) % len(case["values"])])
        raise AssertionError(f"unknown call {name} {args} {kwargs}")

    def full_kwargs(c):
        return {"b": c["kwargs"].get("b", 2), "c": c["kwargs"].get("c", 3)} if c["f"] == "f2" else c["kwargs"]

    def real(name, args, kwargs):
        now["made"].append([name, copy.deepcopy(list(args)), copy.deepcopy(dict(kwargs))])
        if now["raising"] == name:
            raise OSError("real function fails")
        return value_of(name, args, kwargs, now["version"])

    m = make_world(real)
    try:
        def body(t, snapshot=None):
            now["values"] = []
            kept = []
            for i in now["calls"]:
                c = pool[i]
                f = lookup(m, c["f"])
                args, kwargs = copy.deepcopy(c["args"]), copy.deepcopy(c["kwargs"])
                v = snapshot(f, *args, **kwargs) if snapshot else f(*args, **kwargs)
                now["values"].append(copy.deepcopy(v))
                if now["spoil"]:
                    spoil(v)
                    spoil(args)
                kept.append(v)
            key = [now["calls"], now["values"] if now["tested"] else None]
            if not now["silent"]:
                t.tln("state " + hashlib.sha1(json.dumps(key).encode()).hexdigest())
            if now["end"] == "fail":
                t.fail()
            elif now["end"] == "raise":
                raise KeyError("end")

        used_functions = sorted(set(c["f"] for c in pool))
        if case["how"] == "decorator":
            test = bt.snapshot_functions(*[lookup(m, n) for n in used_functions])(body)
        elif case["how"] == "method":
            test = as_method(body, bt.snapshot_functions(*[lookup(m, n) for n in used_functions])).test_it
        elif case["how"] == "async":
            async def test(t):
                return body(t)
            test = bt.snapshot_functions(*[lookup(m, n) for n in used_functions])(test)
        else:
            def test(t):
                with SnapshotFunctions(t, []) as s:
                    body(t, s.snapshot)
        cases = [[NAME, test]]
        at_start = state_of(m)
        snap, accepted, listed, last = {}, None, None, None
        runs = mixed = 0
        for step in case["steps"]:
            before = stored()
            now.update(calls=step["calls"], end=step["end"], tested=step["tested"], version=step["version"], raising=step["raising"],
                       spoil=step["spoil"], made=[], values=None, silent=step["silent"])
            about = f"in {step['cmd']} {step['args']}"
            if step["cmd"] == "review":
                run(cases, ["-w"] + step["args"])
                check_eq(now["made"], [], "calls made " + about)
                was, used, state = last
            else:
                runs += 1
                refresh, complete = "-S" in step["args"], "-s" in step["args"]
                used, made, values, failing = {}, [], [], False
                for i in step["calls"]:
                    c = pool[i]
                    if i in snap and not refresh:
                        used[i] = snap[i]
                    elif refresh or complete:
                        made.append([c["f"], c["args"], full_kwargs(c)])
                        if step["raising"] == c["f"]:
                            failing = True
                            break
                        used[i] = value_of(c["f"], c["args"], full_kwargs(c), step["version"])
                    else:
                        failing = True
                        ctx.label("missing snapshot")
                        break
                    values.append(used[i])
                fails = failing or step["end"] is not None
                state = [list(step["calls"]), values if step["tested"] else None]
                # what the test wrote, and the calls it made
                written = [None if step["silent"] else state, list(used)]
                was = "FAIL" if fails else "OK" if matches(written, listed) else "DIFF"
                r = run(cases, step["args"])
                check(same(now["made"], made), "real calls", about, now["made"], "instead of", made)
                check(same(now["values"], values), "values received", about, now["values"], "instead of", values)
                if made and len(made) < len(values):
                    mixed += 1
                state = (state, written)
                last = (was, used, state)
            accept = (was == "DIFF" and "-a" in step["args"]) or (was == "OK" and "-u" in step["args"])
            final = "OK" if accept else was
            check_eq(verdict("books", NAME), final, "verdict " + about)
            check_eq(state_of(m), at_start, "functions " + about)
            if accept:
                snap, (accepted, listed) = dict(used), state
                last = ("OK", used, state)
            else:
                check_eq(stored(), before, "snapshots " + about)
            ctx.label(f"{step['cmd']} {' '.join(a for a in step['args'] if a in ('-s', '-S'))} {final}")
        if accepted is not None:
            now.update(calls=accepted[0], tested=accepted[1] is not None, end=None, raising=None, made=[], values=None, version=99,
                       silent=listed[0] is None)
            r = run(cases, [])
            check_eq(now["made"], [], "real calls in the last replay")
            check(same(now["values"], [snap[i] for i in accepted[0]]), "values in the last replay", now["values"])
            check_eq(verdict("books", NAME), "OK", "verdict of the last replay")
        ctx.nontrivial(runs >= 3 and mixed > 0)
    finally:
        sys.modules.pop(MODULE, None)


def looks_like(value):
    """ another value that compares or prints alike """
    if isinstance(value, bool):
        return int(value)
    if isinstance(value, int):
        return value in (0, 1) and bool(value) or float(value)
    if value is None:
        return "None"
    return [value] if isinstance(value, (list, dict)) else str(value)


@st.composite
def cases(draw):
    pool = []
    for _ in range(draw(st.sampled_from([1, 2, 3, 4]))):
        f = draw(st.sampled_from(FUNCTIONS))
        if f == "f2":
            c = {"f": f, "args": [draw(JSON)], "kwargs": draw(st.dictionaries(st.sampled_from(["b", "c"]), JSON, max_size=2))}
        else:
            c = {"f": f, "args": draw(st.lists(JSON, max_size=2)), "kwargs": draw(st.dictionaries(st.sampled_from(["x", "y"]), JSON, max_size=1))}
        if pool and draw(st.integers(0, 3)) == 0:
            # the same arguments for another function
            c["args"] = pool[0]["args"] if f != "f2" else (pool[0]["args"] or [1])[:1]
            c["kwargs"] = {}
        elif pool and draw(st.integers(0, 2)) == 0:
            # the same values in other places
            d = draw(st.sampled_from(pool))
            if d["f"] != "f2" or len(d["args"]) > 0:
                c = copy.deepcopy(d)
                values = c["args"] + list(c["kwargs"].values())
                values = draw(st.permutations(values))
                how = draw(st.sampled_from(["permute", "permute", "nest", "names", "number"]))
                if how == "nest" and c["f"] != "f2":
                    c["args"], c["kwargs"] = [list(values)], {}
                elif how == "names" and c["f"] != "f2":
                    c["args"], c["kwargs"] = values[2:], dict(zip(["x", "y"], values))
                elif how == "number":
                    c["args"] = [looks_like(v) for v in c["args"]]
                else:
                    n = len(c["args"])
                    c["args"], c["kwargs"] = values[:n], dict(zip(c["kwargs"], values[n:]))
        if not any(same(c, d) for d in pool):
            pool.append(c)
    # f2(1) and f2(1, b=2) are the same call for the function but not for the snapshots: one of each kind only
    seen, unique = set(), []
    for c in pool:
        key = json.dumps([c["f"], c["args"], {"b": c["kwargs"].get("b", 2), "c": c["kwargs"].get("c", 3)} if c["f"] == "f2" else c["kwargs"]])
        if key not in seen:
            seen.add(key)
            unique.append(c)
    pool = unique
    steps = []
    for k in range(draw(st.integers(2, 7))):
        step = {
            "cmd": "run" if k == 0 or draw(st.integers(0, 7)) else "review",
            "args": draw(st.sampled_from([["-s", "-a"], ["-S", "-a"]] if k == 0 else
                                         [[], [], ["-a"], ["-u"], ["-s"], ["-s", "-a"], ["-s", "-a"], ["-S"], ["-S", "-a"], ["-s", "-u"],
                                          ["-S", "-u"], ["-S", "-a", "-u"], ["-s", "-a", "-u"], ["-s", "-S", "-a"]])),
            "calls": draw(st.lists(st.integers(0, len(pool) - 1), min_size=draw(st.sampled_from([0, 1, 2, 3])), max_size=6)),
            "tested": draw(st.booleans()), "silent": draw(st.booleans()), "spoil": draw(st.booleans()), "version": k,
            "end": draw(st.sampled_from([None, None, None, None, None, None, "fail", "raise"])),
            "raising": draw(st.sampled_from([None, None, None, None, None, "f0", "K.method"])),
        }
        if k and draw(st.integers(0, 2)) == 0:
            step["calls"] = steps[-1]["calls"]
            step["tested"] = steps[-1]["tested"]
        if step["cmd"] == "review":
            step["args"] = draw(st.sampled_from([[], ["-a"], ["-a"], ["-u"]]))
        steps.append(step)
    return {"pool": pool, "steps": steps, "values": draw(st.lists(JSON, min_size=2, max_size=5)),
            "how": draw(st.sampled_from(["decorator", "method", "async", "object"]))}


# ---------------------------------------------------------------- helpers

def helpers_oracle(case, ctx):
    """ helpers of a test, that snapshot their own functions """
    pool = case["pool"]
    now = {"version": 0, "made": [], "values": []}

    def full_kwargs(c):
        return {"b": c["kwargs"].get("b", 2), "c": c["kwargs"].get("c", 3)} if c["f"] == "f2" else c["kwargs"]

    def real(name, args, kwargs):
        now["made"].append(name)
        for k, c in enumerate(pool):
            if c["f"] == name and same(list(c["args"]), list(args)) and same(full_kwargs(c), kwargs):
                return copy.deepcopy(case["values"][(k + 3 * now["version"]) % len(case["values"])])
        raise AssertionError(f"unknown call {name} {args} {kwargs}")

    m = make_world(real)
    try:
        at_start = state_of(m)

        def helper(functions):
            @bt.snapshot_functions(*[lookup(m, n) for n in functions])
            def call(t, calls):
                for i in calls:
                    c = pool[i]
                    now["values"].append(copy.deepcopy(lookup(m, c["f"])(*copy.deepcopy(c["args"]), **copy.deepcopy(c["kwargs"]))))
            return call

        helpers = [helper(sorted(set(pool[i]["f"] for i in calls))) for calls in case["parts"]]

        async def test(t):
            now.update(values=[], left=[])
            for k in case["order"]:
                await helpers[k](t, case["parts"][k])
                now["left"].append(state_of(m))
            t.tln("state " + hashlib.sha1(json.dumps(now["values"]).encode()).hexdigest())

        made = [pool[i]["f"] for k in case["order"] for i in case["parts"][k]]
        r = run([[NAME, test]], [case["mode"], "-a"])
        check_eq(now["made"], made, "real calls of the recording run")
        check_eq(verdict("books", NAME), "OK", "verdict of the recording run", r.out[-600:])
        check_eq(now["left"], [at_start] * len(case["order"]), "functions after the helpers")
        recorded, accepted = now["values"], stored()
        for k, args in enumerate(case["replays"]):
            now.update(version=k + 1, made=[])
            r = run([[NAME, test]], args)
            check_eq(now["made"], [], f"real calls in replay {args}")
            check(same(now["values"], recorded), f"values in replay {args}", now["values"], "instead of", recorded)
            check_eq(verdict("books", NAME), "OK", f"verdict of replay {args}", r.out[-600:])
            check_eq(stored(), accepted, f"snapshots after replay {args}")
        now.update(version=9, made=[])
        run([[NAME, test]], ["-S", "-a", "-u"])
        check_eq(now["made"], made, "real calls of the refreshing run")
        ctx.nontrivial(sum(1 for k in case["order"] if case["parts"][k]) >= 2)
    finally:
        sys.modules.pop(MODULE, None)


@st.composite
def helper_cases(draw):
    case = draw(cases())
    parts = [draw(st.lists(st.integers(0, len(case["pool"]) - 1), max_size=4)) for _ in range(draw(st.integers(1, 3)))]
    return {"pool": case["pool"], "values": case["values"], "parts": parts,
            "order": draw(st.lists(st.integers(0, len(parts) - 1), min_size=1, max_size=4)), "mode": draw(st.sampled_from(["-s", "-S"])),
            "replays": draw(st.lists(st.sampled_from([[], [], ["-s"], ["-v"], ["-u"], ["-s", "-a"]]), min_size=1, max_size=3))}


# ---------------------------------------------------------------- mocks

def mock_oracle(case, ctx):
    made = []
    m = make_world(lambda name, args, kwargs: (made.append(name), "real " + name)[1])
    try:
        at_start = state_of(m)
        originals = {n: lookup(m, n) for n in FUNCTIONS}

        def active(depth):
            rv = {}
            for layer in case["layers"][:depth]:
                rv.update({n: f"mock {v}" for n, v in layer})
            return rv

        def mocks(layer):
            return {originals[n]: (lambda *a, v=v, **k: f"mock {v}") for n, v in layer}

        def look(depth):
            expected = active(depth)
            for n in FUNCTIONS:
                made.clear()
                got = lookup(m, n)(1)
                check_eq(got, expected.get(n, "real " + n), f"value of {n} inside {depth} mocks")
                check_eq(made, [] if n in expected else [n], f"real calls of {n} inside {depth} mocks")

        problems = []

        def body(t):
            try:
                look(len(case["layers"]))
                from booktest.functions import MockFunctions
                if case["inner"]:
                    with MockFunctions(mocks(case["inner"])):
                        for n, v in case["inner"]:
                            check_eq(lookup(m, n)(1), f"mock {v}", f"value of {n} in the innermost mock")
                    look(len(case["layers"]))
            except Exception as e:
                problems.append(e)
            if case["end"] == "raise":
                raise ValueError("end")
            if case["end"] == "exit":
                sys.exit(1)
            if case["end"] == "fail":
                t.fail()
            t.tln("done")

        # the first layer is the outermost decorator. all refer to the original functions
        def decorate(test):
            for layer in reversed(case["layers"]):
                test = bt.mock_functions(mocks(layer))(test)
            return test

        if case["method"]:
            book = as_method(body, decorate)
            test = book.test_async if case["async"] else book.test_it
        elif case["async"]:
            async def test(t):
                return body(t)
            test = decorate(test)
        else:
            test = decorate(body)
        for _ in range(2):
            run([[NAME, test]], ["-a"])
            if problems:
                raise problems[0]
            check_eq(verdict("books", NAME), "OK" if case["end"] is None else "FAIL", "verdict")
            check_eq(state_of(m), at_start, "functions after the test")
            for n in FUNCTIONS:
                check_eq(lookup(m, n)(1), "real " + n, f"value of {n} after the test")
        ctx.label(f"{len(case['layers'])} layers")
        ctx.nontrivial(len(case["layers"]) > 1 and any(a[0] == b[0] for x, y in zip(case["layers"], case["layers"][1:]) for a in x for b in y))
    finally:
        sys.modules.pop(MODULE, None)


@st.composite
def mock_cases(draw):
    def layer(low=1):
        return [[n, draw(st.integers(1, 99))] for n in draw(st.lists(st.sampled_from(FUNCTIONS), unique=True, min_size=low, max_size=4))]
    return {"layers": [layer() for _ in range(draw(st.integers(1, 3)))], "inner": layer(0), "method": draw(st.booleans()), "async": draw(st.booleans()),
            "end": draw(st.sampled_from([None, None, "raise", "exit", "fail"]))}


# ---------------------------------------------------------------- known finding

def same_name_oracle(case, ctx):
    """ functions of one name in two modules (or methods of two objects) are snapshotted apart """
    modules = []
    try:
        for k in range(2):
            m = types.ModuleType(f"{MODULE}{k}")
            sys.modules[m.__name__] = m
            exec(f"def f(x): return 'module {k}'\nclass K:\n    def __init__(self, n): self.n = n\n"
                 f"    def get(self, x): return f'object {{self.n}}'\n", m.__dict__)
            m.__dict__["f"].__module__ = m.__name__
            modules.append(m)
        if case["kind"] == "modules":
            targets = [(m, "f") for m in modules]
        else:
            objects = [modules[0].K(0), modules[0].K(1)]
            targets = [(o, "get") for o in objects]
        seen = []

        @bt.snapshot_functions(*[getattr(o, n) for o, n in targets])
        def test(t):
            seen.clear()
            seen.extend(getattr(o, n)(1) for o, n in targets)
            t.tln("done")
        run([[NAME, test]], ["-s", "-a"])
        recorded = list(seen)
        run([[NAME, test]], [])
        check_eq(seen, recorded, f"values of the functions of two {case['kind']} in the replay")
    finally:
        for m in modules:
            sys.modules.pop(m.__name__, None)


CAMPAIGNS = [
    Campaign("histories", cases, oracle, 2400, 60000),
    Campaign("same name in modules", None, same_name_oracle, 1, 1, sequence=lambda: [{"kind": "modules"}], probe="same-name-in-modules"),
    Campaign("same method of objects", None, same_name_oracle, 1, 1, sequence=lambda: [{"kind": "objects"}], probe="same-method-of-objects"),
    Campaign("helpers", helper_cases, helpers_oracle, 500, 10000),
    Campaign("mocks", mock_cases, mock_oracle, 800, 20000),
]
