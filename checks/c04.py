from collections import Counter

from hypothesis import strategies as st

from vp import gen
from vp.core import Campaign, check, check_eq
from vp.programs import PREFIX, SCALAR
from vp.world import norm_breaks, output_text, program, report_marks, run, snapshot_text, verdict

PROPERTY = "C04"
RULE = ("text before, a set, text after; accepted; then the set in another order, with items missing, added or changed, and "
        "possibly changed text around it; or a set where the snapshot ends; non-trivial: sets of 2 or more items in another "
        "order, or different sets")

SINGLE = st.one_of(gen.LINE, gen.SIMPLE_LINE, gen.WORD)
ITEM = st.one_of(SINGLE, gen.WORD, st.integers(-20, 20), st.booleans(), st.floats(-10, 10), st.none())


def ops_of(before, items, prefix, after):
    return [["tln", x] for x in before] + ([["tset", items, prefix]] if items is not None else []) + \
        [[k + "ln", x] for k, x in after]


def oracle(case, ctx):
    prefix = case["prefix"]
    current = {}
    cases = [["test/case", lambda t: program(current["ops"])(t)]]
    current["ops"] = ops_of(case["before"], case["items"], prefix, case["after"])
    check_eq(run(cases, ["-a"]).code, 0, "exit status of accepting")
    accepted = snapshot_text("books", "test/case")

    # the set itself is printed in the order of its items
    lines = case["before"] + [f"{prefix}{i}" for i in case["items"] or []] + [x for _, x in case["after"]]
    check_eq(accepted, "".join(x + "\n" for x in lines), "written set")

    new = case["new"]
    current["ops"] = ops_of(case["new_before"], new, prefix, case["new_after"])
    # items with equal texts (e.g. 1 and "1") are different items
    old_set = Counter(str(i) for i in case["items"] or [])
    new_set = Counter(str(i) for i in new)
    same_sets = old_set == new_set
    same_after = all(k == "i" or n < len(case["after"]) and x == case["after"][n][1]
                     for n, (k, x) in enumerate(case["new_after"]))
    same_before = case["new_before"] == case["before"]
    expected = "OK" if same_sets and same_after and same_before else "DIFF"
    reordered = same_sets and [str(i) for i in new] != [str(i) for i in case["items"] or []]
    ctx.label("reordered" if reordered else "same" if same_sets else "differing set")
    if not case["after"]:
        ctx.label("set is last")
    if not case["before"]:
        ctx.label("set is first")
    if case["items"] is None:
        ctx.label("set after the end")
    if max(old_set.values(), default=0) > 1:
        ctx.label("items with equal texts")
    ctx.nontrivial(reordered or not same_sets)
    result = run(cases, [])
    marks = report_marks("books", "test/case")
    info = f"snapshot {accepted!r}, report {marks!r}"
    check_eq(verdict("books", "test/case"), expected, "verdict", info)
    check_eq(result.code, 0 if expected == "OK" else 255, "exit status", info)
    check_eq(output_text("books", "test/case"),
             "".join(x + "\n" for x in case["new_before"] + [f"{prefix}{i}" for i in new] + [x for _, x in case["new_after"]]),
             "output")
    if same_before:
        begin = len(case["before"]) + len(new)
        for n, (kind, x) in enumerate(case["new_after"]):
            if n == 0 and not same_sets:
                continue  # missing items are marked here
            differs = kind == "t" and not (n < len(case["after"]) and case["after"][n][1] == x)
            check_eq(marks[begin + n][0], "? " if differs else "  ", f"mark of line {n} after the set", info)
        if same_sets:
            for n in range(begin):
                check_eq(marks[n][0], "  ", f"mark of line {n}", info)


@st.composite
def cases(draw):
    prefix = draw(PREFIX)
    line = SINGLE.map(lambda x: x if not x.startswith(prefix) else "^" + x if prefix != "^" else "~" + x)
    before = draw(st.lists(SINGLE, max_size=3))
    after = draw(st.lists(st.tuples(st.sampled_from("tti"), line).map(list), max_size=3))
    items = draw(st.lists(ITEM, max_size=6, unique_by=str))
    if items and draw(st.integers(0, 3)) == 0:
        for _ in range(draw(st.integers(1, 2))):
            i = draw(st.sampled_from(items))
            items.insert(draw(st.integers(0, len(items))), draw(st.sampled_from([i, str(i)])))
    if before and before[-1].startswith(prefix):
        before[-1] = "^"
    new = draw(st.permutations(items))
    kind = draw(st.sampled_from(["same", "same", "missing", "added", "changed", "other", "count", "end"]))
    new = list(new)
    if kind == "missing" and new:
        del new[draw(st.integers(0, len(new) - 1))]
    elif kind == "added":
        new.insert(draw(st.integers(0, len(new))), draw(ITEM))
    elif kind == "changed" and new:
        at = draw(st.integers(0, len(new) - 1))
        new[at] = str(new[at]) + draw(st.sampled_from(["", " ", "x", "1", prefix]))
    elif kind == "other":
        new = draw(st.lists(ITEM, max_size=5))
    elif kind == "count" and new:
        # one item more or less of a text that is there anyway
        i = draw(st.integers(0, len(new) - 1))
        twin = [n for n, x in enumerate(new) if n != i and str(x) == str(new[i])]
        if twin and draw(st.booleans()):
            del new[i]
        elif twin and draw(st.booleans()):
            new[i] = draw(st.sampled_from(new))
        else:
            new.insert(draw(st.integers(0, len(new))), str(new[i]))
    elif kind == "end":
        items, after = None, []
    new_before, new_after = list(before), [list(x) for x in after]
    if kind != "end" and draw(st.integers(0, 3)) == 0:
        new_after = draw(st.one_of(
            st.lists(st.tuples(st.sampled_from("tti"), line).map(list), max_size=4),
            st.just([[k, x + "!" if k == "t" else x] for k, x in after]),
            st.just([[k, x if k == "t" else "other"] for k, x in after] + [["t", "more"]])))
        new_after = [[k, x if not x.startswith(prefix) else "^"] for k, x in new_after]
    if kind == "same" and before and draw(st.integers(0, 5)) == 0:
        new_before[draw(st.integers(0, len(before) - 1))] = "other before"
    return {"prefix": prefix, "before": before, "items": items, "after": after,
            "new_before": new_before, "new": new, "new_after": new_after}


@st.composite
def two_sets(draw):
    """ two sets one after the other, told apart by their prefixes """
    a = draw(st.lists(gen.WORD, min_size=1, max_size=5, unique=True))
    b = draw(st.lists(gen.WORD, min_size=1, max_size=5, unique=True))
    na, nb = draw(st.permutations(a)), draw(st.permutations(b))
    change = draw(st.sampled_from([None, None, "a", "b", "move"]))
    na, nb = list(na), list(nb)
    if change == "a":
        na[0] = na[0] + "!"
    elif change == "b":
        nb[-1] = nb[-1] + "!"
    elif change == "move":
        nb.append(na.pop() + "!")
    return {"a": a, "b": b, "na": na, "nb": nb, "between": draw(st.sampled_from([[], ["x"], [""]])),
            "end": draw(st.sampled_from([[], ["end"]]))}


def two_oracle(case, ctx):
    current = {}
    cases = [["test/case", lambda t: program(current["ops"])(t)]]

    def ops(a, b):
        return [["tset", a, " * "]] + [["tln", x] for x in case["between"]] + [["tset", b, " - "]] + [["tln", x] for x in case["end"]]

    current["ops"] = ops(case["a"], case["b"])
    check_eq(run(cases, ["-a"]).code, 0, "exit status of accepting")
    current["ops"] = ops(case["na"], case["nb"])
    expected = "OK" if set(case["a"]) == set(case["na"]) and set(case["b"]) == set(case["nb"]) else "DIFF"
    ctx.nontrivial(case["na"] != case["a"] or case["nb"] != case["b"])
    ctx.label(expected)
    result = run(cases, [])
    check_eq(verdict("books", "test/case"), expected, "verdict", report_marks("books", "test/case"))
    check_eq(result.code, 0 if expected == "OK" else 255, "exit status")


CAMPAIGNS = [
    Campaign("set", cases, oracle, 8000, 250000),
    Campaign("two sets", two_sets, two_oracle, 1500, 30000),
]
