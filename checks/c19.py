import hashlib
import json
import os

import booktest as bt
from hypothesis import strategies as st

from vp.core import Campaign, check, check_eq
from vp.webcheck import stored
from vp.world import as_method, files, run, verdict

PROPERTY = "C19"
RULE = ("histories of plain, completing (-s) and refreshing (-S) runs, with and without acceptance and reviews, of a test under a "
        "random stack of environment snapshots, mocks and mocks for missing variables, in an environment that changes between runs "
        "and is changed by the test; model: the layers applied to a dictionary; non-trivial: at least 2 runs replaying a variable "
        "whose current value differs from the recorded one, or a mock that applies")

NAME = "test/env"
FEW = ["VP_A", "VP_B", "VP_C", "VP D.é"]
NAMES = FEW + [f"VP_{k}" for k in range(8)]


class Missing(Exception):
    pass


def apply(layers, env, snap, refresh, complete):
    """ the environment inside, and what each snapshot layer captured """
    env = dict(env)
    captures, replayed, mocked = [], 0, 0
    for kind, arg in layers:
        if kind == "snapshot":
            capture = {}
            for n in arg:
                if n in snap and not refresh:
                    replayed += env.get(n) != snap[n]
                    capture[n] = snap[n]
                elif refresh or complete:
                    capture[n] = env.get(n)
                else:
                    raise Missing(n)
                env.pop(n, None)
                if capture[n] is not None:
                    env[n] = capture[n]
            captures.append(capture)
        elif kind == "mock":
            for n, v in arg:
                mocked += 1
                env.pop(n, None)
                if v is not None:
                    env[n] = v
        else:
            if not (refresh or complete):
                for n, v in arg:
                    if n not in env and v is not None:
                        mocked += 1
                        env[n] = v
    return env, captures, replayed, mocked


def oracle(case, ctx):
    now = {}
    layers = case["layers"]

    def look():
        return {n: os.environ.get(n) for n in NAMES}

    def body(t):
        now["seen"] = look()
        if not now["silent"]:
            t.tln("state " + hashlib.sha1(json.dumps(now["seen"]).encode()).hexdigest())
        for n, v in now["set"]:
            if v is None:
                os.environ.pop(n, None)
            else:
                os.environ[n] = v
        if now["end"] == "fail":
            t.fail()
        elif now["end"] == "raise":
            raise KeyError("end")

    def decorate(test):
        for kind, arg in reversed(layers):
            if kind == "snapshot":
                test = bt.snapshot_env(*arg)(test)
            elif kind == "mock":
                test = bt.mock_env(dict(arg))(test)
            else:
                test = bt.mock_missing_env(dict(arg))(test)
        return test

    if case["method"]:
        book = as_method(body, decorate)
        test = book.test_async if case["async"] else book.test_it
    elif case["async"]:
        async def test(t):
            body(t)
        test = decorate(test)
    else:
        test = decorate(body)
    cases = [[NAME, test]]
    named = set()
    for kind, arg in layers:
        named |= set(arg if kind == "snapshot" else [n for n, _ in arg])
    only_missing = named - set(n for k, a in layers if k != "missing" for n in (a if k == "snapshot" else [x[0] for x in a]))

    snap, accepted, last = {}, None, None
    effects = 0
    for step in case["steps"]:
        before = stored()
        env = {n: v for n, v in step["env"] if v is not None}
        for n in NAMES:
            os.environ.pop(n, None)
        os.environ.update(env)
        whole = dict(os.environ)
        # mocks for missing variables do nothing while capturing, so they do not put variables back either
        capturing = "-s" in step["args"] or "-S" in step["args"]
        kept = named - (only_missing if capturing else set())
        now.update(seen=None, set=[x for x in step["set"] if x[0] in kept], end=step["end"], silent=step["silent"])
        about = f"in {step['cmd']} {step['args']}"
        if step["cmd"] == "review":
            run(cases, ["-w"] + step["args"])
            was, used, state = last
        else:
            refresh, complete = "-S" in step["args"], "-s" in step["args"]
            used, state = None, None
            try:
                inside, captures, replayed, mocked = apply(layers, env, snap, refresh, complete)
                missing = None
                effects += bool(replayed or mocked)
                used = {}
                for c in reversed(captures):
                    used.update(c)
                state = [None if step["silent"] else {n: inside.get(n) for n in NAMES}, [{n: str(v) for n, v in c.items()} for c in captures]]
            except Missing as e:
                missing = str(e)
            was = "FAIL" if missing or step["end"] else "OK" if accepted and state[0] in (None, accepted[0]) and state[1] == accepted[1] else "DIFF"
            r = run(cases, step["args"])
            check_eq(now["seen"], None if missing else {n: inside.get(n) for n in NAMES}, "environment seen by the test " + about)
            if missing:
                ctx.label("missing snapshot")
                told = r.out + r.err + "".join(v.decode("utf-8", "replace") for k, v in files("books/.out").items() if k.startswith(NAME))
                check(missing in told, "the missing variable", missing, "is not named " + about)
            last = (was, used, state)
        after = dict(os.environ)
        changed = {n: (whole.get(n), after.get(n)) for n in set(whole) | set(after) if whole.get(n) != after.get(n)}
        check(not changed, "variables changed after the test", about, "(before, after):", changed)
        if used and step["cmd"] != "review":
            page = (files("books/.out").get(NAME + ".md") or files("books").get(NAME + ".md", b"")).decode()
            check(all(n in page for n in used), "variables", sorted(used), "are not all listed " + about, page)
        accept = (was == "DIFF" and "-a" in step["args"]) or (was == "OK" and "-u" in step["args"])
        final = "OK" if accept else was
        check_eq(verdict("books", NAME), final, "verdict " + about)
        if accept:
            snap, accepted = dict(used), state
            last = ("OK", used, state)
        else:
            check_eq(stored(), before, "snapshots " + about)
        ctx.label(f"{step['cmd']} {' '.join(a for a in step['args'] if a in ('-s', '-S'))} {final}")
    ctx.nontrivial(effects >= 2)


VALUE = st.one_of(st.none(), st.sampled_from(["", "1", "x", "other", "a=b", "é漢", " blank ", "None", "$HOME", "'q\""]))


@st.composite
def cases(draw):
    many = draw(st.integers(0, 9)) == 0
    names = st.lists(st.sampled_from(NAMES), min_size=7, max_size=12, unique=True) if many else st.lists(st.sampled_from(FEW), min_size=1, max_size=3, unique=True)
    layers = []
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(["snapshot", "snapshot", "mock", "missing"]))
        if kind == "snapshot":
            # names may be listed twice, but then only in one layer
            taken = [n for k, a in layers if k == "snapshot" for n in a]
            ns = [n for n in draw(names) if n not in taken]
            if not ns:
                continue
            if draw(st.integers(0, 9)) == 0:
                ns.append(ns[0])
            layers.append([kind, ns])
        else:
            layers.append([kind, [[n, draw(VALUE)] for n in draw(names)]])
    if not layers:
        layers = [["snapshot", ["VP_A"]]]

    def environment():
        return [[n, draw(VALUE)] for n in (NAMES if many else FEW)]
    steps = []
    for k in range(draw(st.integers(2, 6))):
        step = {
            "cmd": "run" if k == 0 or draw(st.integers(0, 8)) else "review",
            "args": draw(st.sampled_from([["-s", "-a"], ["-S", "-a"]] if k == 0 and draw(st.integers(0, 5)) else
                                         [[], [], [], ["-a"], ["-u"], ["-s"], ["-s", "-a"], ["-s", "-a"], ["-S"], ["-S", "-a"], ["-s", "-u"],
                                          ["-S", "-u"], ["-S", "-a", "-u"], ["-s", "-a", "-u"], ["-s", "-S", "-a"]])),
            "env": steps[-1]["env"] if k and draw(st.integers(0, 3)) == 0 else environment(),
            "set": [[n, draw(VALUE)] for n in draw(st.lists(st.sampled_from(NAMES if many else FEW), unique=True, max_size=2))],
            "silent": draw(st.integers(0, 2)) == 0,
            "end": draw(st.sampled_from([None, None, None, None, None, None, "fail", "raise"])),
        }
        if step["cmd"] == "review":
            step["args"] = draw(st.sampled_from([[], ["-a"], ["-a"], ["-u"]]))
        steps.append(step)
    return {"layers": layers, "steps": steps, "async": draw(st.booleans()), "method": draw(st.booleans())}


CAMPAIGNS = [
    Campaign("histories", cases, oracle, 3200, 80000),
]
