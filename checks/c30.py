import contextlib
import re
import time

from hypothesis import strategies as st

from vp import gen
from vp.core import Campaign, check, check_eq
from vp.programs import JSON_VALUE
from vp.world import norm_breaks, output_text, report_marks, run, snapshot_text, verdict

PROPERTY = "C30"
RULE = ("expectations on generated values, timed calls and measurements; non-trivial: at least 2 expectations of which one "
        "is not met, or a measurement that changed from the snapshot")

TYPES = {"int": int, "str": str, "list": list, "dict": dict, "bool": bool, "float": float, "NoneType": type(None), "tuple": tuple}


def contains(it, member):
    try:
        return member in it
    except TypeError:
        return None


# objects that are equal to ones of another type
DERIVED = {t: type("Derived" + t.__name__.title(), (t,), {}) for t in (int, str, list, dict, float, tuple)}


def it_oracle(case, ctx):
    value = tuple(case["value"]) if case["tuple"] and isinstance(case["value"], list) else case["value"]
    if case["derived"]:
        value = DERIVED.get(type(value), lambda x: x)(value)
    outcomes = []
    seen = []

    def test(t):
        it = t.it(case["name"], value)
        for c in case["checks"]:
            target, x = it, value
            if c["member"] is not None:
                x = c["member"]
                target = it.member("member", lambda v, x=x: (seen.append(v), x)[1])
            if c["kind"] == "contain":
                rv = target.must_contain(c["arg"])
                title, ok = str(c["arg"]), contains(x, c["arg"])
            elif c["kind"] == "equal":
                rv = target.must_equal(c["arg"])
                title, ok = str(c["arg"]), x == c["arg"]
            elif c["kind"] == "be_a":
                rv = target.must_be_a(TYPES[c["arg"]])
                title, ok = c["arg"], type(x) is TYPES[c["arg"]]
            elif c["kind"] == "apply":
                got = []
                rv = target.must_apply(c["arg"], lambda v: (got.append(v), c["ok"])[1])
                title, ok = c["arg"], bool(c["ok"])
                check_eq(got, [x], "object given to the condition")
            else:
                t.i("A " + c["arg"] + "| ")
                t.assertln(c["ok"], c["message"])
                rv, title, ok = it, c["arg"], bool(c["ok"])
            if c["kind"] != "assertln":
                check(rv is target, "expectation does not return the object for chaining")
            outcomes.append((norm_breaks(title).split("\n")[0], bool(ok), c))

    cases = [["test/case", test]]
    result = run(cases, ["-a"])
    check_eq(len(outcomes), len(case["checks"]), "expectations checked", output_text("books", "test/case"))
    expected = "OK" if all(ok for _, ok, _ in outcomes) else "FAIL"
    text = output_text("books", "test/case")
    if text is None:
        text = snapshot_text("books", "test/case")
    ctx.label(expected)
    ctx.nontrivial(len(outcomes) >= 2 and not all(ok for _, ok, _ in outcomes))
    check_eq(verdict("books", "test/case"), expected, "verdict of", outcomes, text)
    check_eq(result.code, 0 if expected == "OK" else 255, "exit status")
    # title and outcome of each is written, in order
    check(norm_breaks(case["name"]).split("\n")[0] in text, "name of the object is not written", text)
    # members are told under the name of the object
    if "\n" not in norm_breaks(case["name"]):
        told = [x for x in text.split("\n") if x.startswith("#")]
        check_eq(len(told), 1 + sum(1 for c in case["checks"] if c["member"] is not None), "headers of the object and its members", told)
        for k, x in enumerate(told):
            check(case["name"] in x and (not k or "member" in x), "header", x, "of", case["name"])
    lines = [x for x in text.split("\n") if x and not x.startswith("#")]
    if all("\n" not in norm_breaks(str(c["arg"])) for _, _, c in outcomes):
        check_eq(len(lines), len(outcomes), "lines of expectations", lines)
        for line, (title, ok, c) in zip(lines, outcomes):
            check(title in line, "title", title, "is not written in", line)
            if ok:
                check(line.endswith("ok"), "outcome of met", c, "is written as", line)
            else:
                check(not line.endswith("ok"), "outcome of failed", c, "is written as", line)
                if c.get("message"):
                    check(c["message"] in line, "message", c["message"], "is not in", line)
    # failed lines are marked
    marks = [m for m, rest in report_marks("books", "test/case") if m == "! "]
    check_eq(len(marks), sum(1 for _, ok, _ in outcomes if not ok), "lines marked as failed")


HASHABLE = st.one_of(st.integers(0, 4), st.booleans(), gen.WORD, st.floats(0, 4).map(lambda x: round(x)))


@st.composite
def it_cases(draw):
    value = draw(st.one_of(st.lists(HASHABLE, max_size=4), st.dictionaries(gen.WORD, HASHABLE, max_size=3), gen.WORD,
                           st.integers(-2, 2), st.booleans(), st.none(), JSON_VALUE))
    checks = []
    for _ in range(draw(st.integers(0, 5))):
        kind = draw(st.sampled_from(["contain", "contain", "equal", "be_a", "apply", "assertln"]))
        member = draw(st.one_of(st.none(), st.none(), st.lists(HASHABLE, max_size=3), gen.WORD, st.booleans()))
        if kind == "assertln":
            member = None
        x = value if member is None else member
        c = {"kind": kind, "member": member}
        if kind == "contain":
            if isinstance(x, str):
                c["arg"] = draw(st.one_of(gen.WORD, st.just(x[:1])))
            elif isinstance(x, (list, dict)):
                c["arg"] = draw(st.one_of(HASHABLE, st.sampled_from(sorted(x, key=str)) if x else HASHABLE,
                                          # looks like one of them
                                          st.sampled_from(sorted(x, key=str)).map(str) if x else HASHABLE))
            else:
                c["kind"] = kind = "equal"
        if kind == "equal":
            c["arg"] = draw(st.one_of(st.just(x), st.just(x), HASHABLE, st.lists(HASHABLE, max_size=2), st.just(str(x)), st.just([x])))
            if draw(st.integers(0, 9)) == 0:
                # equal to nothing
                c["member"] = c["arg"] = float("nan")
        elif kind == "be_a":
            c["arg"] = draw(st.one_of(st.just(type(x).__name__), st.sampled_from(sorted(TYPES))))
        elif kind in ("apply", "assertln"):
            c["arg"] = draw(gen.LINE)
            c["ok"] = draw(st.sampled_from([True, True, False, 1, 0, "", "x", None]))
            c["message"] = draw(st.sampled_from([None, "went bad", ""])) if kind == "assertln" else None
        checks.append(c)
    return {"name": draw(gen.LINE), "value": value, "tuple": draw(st.integers(0, 3)) == 0, "derived": draw(st.integers(0, 5)) == 0, "checks": checks}


NUMBERS = re.compile(r"-?(?:\d+(?:\.\d+)?|inf|nan)")


def close(a, b):
    return a == b or abs(a - b) <= 0.00051 + abs(b) * 1e-9


def measure_oracle(case, ctx):
    """ a measurement is never compared, and shows the value at the same place of the snapshot """
    current = {"value": case["value"], "text": case["text"]}

    def test(t):
        for line in case["before"]:
            t.tln(line)
        t.t(current["text"] + "| ")
        t.ifloatln(current["value"], case["unit"])
        t.tln("after")

    cases = [["test/case", test]]
    if case["snapshot"] is None:
        check_eq(run(cases, ["-a"]).code, 0, "exit status of accepting")
        old = case["value"]
        text = snapshot_text("books", "test/case").split("\n")[len(case["before"])]
        rest = text[len(current["text"]) + 2:]
        found = [float(x) for x in NUMBERS.findall(rest)]
        check_eq(len(found), 1, "numbers in a first measurement", rest)
        check(close(found[0], case["value"]), "measurement", case["value"], "is written as", rest)
    else:
        import os
        os.makedirs("books/test")
        with open("books/test/case.md", "w") as f:
            f.write("".join(x + "\n" for x in case["before"] + [case["text"] + "| " + case["snapshot"], "after"]))
        m = re.match(r"-?\d+(\.\d+)?", case["snapshot"])
        old = float(m.group(0)) if m else None
    current["value"] = case["new"]
    if case["changed"]:
        current["text"] += "x"
    result = run(cases, [])
    text = output_text("books", "test/case").split("\n")[len(case["before"])]
    rest = text[len(current["text"]) + 2:]
    found = [float(x) for x in NUMBERS.findall(rest)]
    ctx.nontrivial(case["new"] != case["value"])
    ctx.label("old value" if old is not None else "no old value")
    if case["changed"]:
        check_eq(verdict("books", "test/case"), "DIFF", "verdict of a change before the measurement")
        return
    expected = [case["new"]] + ([old] if old is not None else [])
    check(len(found) == len(expected) and all(close(a, b) for a, b in zip(found, expected)),
          "measurement of", expected, "is written as", rest)
    if case["unit"] is not None:
        check_eq(rest.count(case["unit"]), len(expected), "units in", rest)
    check_eq(verdict("books", "test/case"), "OK", "verdict of a changed measurement", report_marks("books", "test/case"))
    check_eq(result.code, 0, "exit status")


def measure_cases():
    value = st.one_of(st.floats(-1e6, 1e6), st.integers(-1000, 1000), st.sampled_from([0.0, 0.0004, 1e9, -0.5]))
    return st.fixed_dictionaries({
        "before": st.lists(gen.SIMPLE_LINE, max_size=2),
        "text": gen.SIMPLE_LINE,
        "value": value,
        "new": value,
        "unit": st.sampled_from([None, "ms", "%", "kB"]),
        "snapshot": st.one_of(st.none(), st.none(), st.sampled_from(["", "no number", "x1", "12", "-3.5 ms", "7.250 ms (was 3.000 ms)"])),
        "changed": st.sampled_from([False, False, False, True]),
    })


CLOCKS = ("time", "monotonic", "perf_counter")


@contextlib.contextmanager
def clocks(shift, frozen=False):
    """ clocks that can be moved on, as if time had passed. frozen: and only so """
    real = {}
    for name in CLOCKS:
        real[name], real[name + "_ns"] = getattr(time, name), getattr(time, name + "_ns")
        if frozen:
            setattr(time, name, lambda: 2.0 ** 30 + shift[0])
            setattr(time, name + "_ns", lambda: 2 ** 30 * 10 ** 9 + int(shift[0] * 1e9))
        else:
            setattr(time, name, lambda f=real[name]: f() + shift[0])
            setattr(time, name + "_ns", lambda f=real[name + "_ns"]: f() + int(shift[0] * 1e9))
    try:
        yield
    finally:
        for name, f in real.items():
            setattr(time, name, f)


def timed_oracle(case, ctx):
    """ timed calls return the value, and fail exactly when the limit is exceeded """
    shift = [0]
    with clocks(shift, case["frozen"]):
        timed_cases_of(case, ctx, shift)


def timed_cases_of(case, ctx, shift):
    got, expected, fails = [], [], 0
    for c in case["calls"]:
        fails += c["limit"] is not None and c["limit"] < c["sleep"] + (c.get("seems", 0) * 1000 if case["frozen"] else 0)

    def test(t):
        for c in case["calls"]:
            calls = []

            def f(c=c):
                calls.append(1)
                if c["sleep"] > 0:
                    time.sleep(c["sleep"] / 1000)
                shift[0] += c.get("seems", 0)
                return c["value"]
            t.t(c["text"] + "| ")
            got.append(t.imsln(f) if c["limit"] is None else t.tmsln(f, c["limit"]))
            expected.append(c["value"])
            check_eq(len(calls), 1, "calls made")

    cases = [["test/case", test]]
    result = run(cases, ["-a"])
    ctx.nontrivial(len(case["calls"]) >= 2 and fails > 0)
    check_eq(got, expected, "returned values")
    want = "FAIL" if fails else "OK"
    ctx.label(want)
    text = output_text("books", "test/case") or snapshot_text("books", "test/case") or ""
    check_eq(verdict("books", "test/case"), want, "verdict of", case["calls"], text)
    marks = [m for m, _ in report_marks("books", "test/case") if m == "! "]
    check_eq(len(marks), fails, "lines marked as failed")
    lines = text.split("\n")
    for c, line in zip(case["calls"], lines):
        ms = float(NUMBERS.findall(line[len(c["text"]) + 2:])[0])
        check(ms >= c["sleep"] * 0.9 - 1, "took", c["sleep"], "ms at least, is written as", line)
        check(ms < c["sleep"] + c.get("seems", 0) * 1000 + 60000, "took", c["sleep"], "ms or a bit more, is written as", line)
    if not fails:
        # measured times are never compared
        check_eq(run(cases, []).code, 0, "exit status of the second run", report_marks("books", "test/case"))


def timed_cases():
    # the limits are far from the time taken, in both directions
    call = st.one_of(
        st.fixed_dictionaries({"sleep": st.sampled_from([0, 0, 2, 8]), "limit": st.sampled_from([None, 60000, 1e9]),
                               "value": JSON_VALUE, "text": gen.SIMPLE_LINE}),
        # without a limit, nothing takes too long
        st.fixed_dictionaries({"sleep": st.just(0), "limit": st.none(), "seems": st.sampled_from([0.5, 30, 100, 5000, 1e5, 1e7, 1e10]),
                               "value": JSON_VALUE, "text": gen.SIMPLE_LINE}),
        st.fixed_dictionaries({"sleep": st.just(0), "limit": st.sampled_from([-1, -1000]),
                               "value": JSON_VALUE, "text": gen.SIMPLE_LINE}),
        st.fixed_dictionaries({"sleep": st.sampled_from([4, 12]), "limit": st.sampled_from([0, 1, 2]),
                               "value": JSON_VALUE, "text": gen.SIMPLE_LINE}),
    )
    # with clocks that stand still, the limit is met exactly. All times are exact in binary
    exact = st.builds(lambda k, d, value, text: {"sleep": 0, "seems": k / 1024, "limit": None if d is None else (k + d) * 1000 / 1024,
                                                 "value": value, "text": text},
                      st.sampled_from([0, 1, 2, 3, 64, 1000, 1024, 4096, 10 ** 6]), st.sampled_from([None, 0, 0, -1, 1, -0.25, 0.25, 1024]),
                      JSON_VALUE, gen.SIMPLE_LINE)
    return st.one_of(
        st.fixed_dictionaries({"calls": st.lists(call, min_size=1, max_size=4), "frozen": st.just(False)}),
        st.fixed_dictionaries({"calls": st.lists(exact, min_size=1, max_size=4), "frozen": st.just(True)}))


CAMPAIGNS = [
    Campaign("expectations", it_cases, it_oracle, 4000, 100000),
    Campaign("measurements", measure_cases, measure_oracle, 3000, 60000),
    Campaign("timed", timed_cases, timed_oracle, 1200, 20000),
]
