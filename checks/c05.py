import functools
import json

from hypothesis import strategies as st

from vp import gen
from vp.core import Campaign, Violation, check, check_eq
from vp.programs import CELL, JSON_VALUE, PREFIX, SCALAR, tables
from vp.world import data_frame, norm_breaks, output_text, program, report_marks, run, verdict

PROPERTY = "C05"
RULE = ("tables, lists and type formats of arbitrary values, read back from the output, and then changed in one value; "
        "non-trivial: 2 or more values of which one gets changed, or of which one has blanks or line breaks")


def cell_text(value):
    return str(value).replace("\r", " ").replace("\n", " ").strip()


def column_values(table):
    """ the values as the data frame holds them """
    df = data_frame(table)
    return [(cell_text(c), [df.iloc[i, j] for i in range(len(df.index))]) for j, c in enumerate(df.columns)]


def split_row(line, expected):
    """ splits a row at the bars, knowing how many bars each value has """
    check(line.startswith("|") and line.endswith("|"), "not a table row:", line)
    parts = line[1:-1].split("|")
    rv = []
    for e in expected:
        n = e.count("|") + 1
        rv.append("|".join(parts[:n]).strip())
        parts = parts[n:]
    check_eq(parts, [], "cells left in the row", line)
    return rv


def check_table(text, table):
    lines = text.split("\n")
    check_eq(lines.pop(), "", "end of the table")
    values = column_values(table)
    rows = len(values[0][1])
    check_eq(len(lines), rows + 2, "lines of the table", text)
    check_eq(split_row(lines[0], [c for c, _ in values]), [c for c, _ in values], "column names")
    rule = lines[1]
    check(set(rule) <= {"|", "-"} and rule.startswith("|") and rule.endswith("|") and rule.count("|") == len(values) + 1,
          "separator line", rule)
    for r in range(rows):
        expected = [cell_text(v[r]) for _, v in values]
        check_eq(split_row(lines[2 + r], expected), expected, f"row {r} of {text!r}")


def verdict_after(ops, new_ops):
    current = {"ops": ops}
    cases = [["test/case", lambda t: program(current["ops"])(t)]]
    check_eq(run(cases, ["-a"]).code, 0, "exit status of accepting")
    current["ops"] = new_ops
    run(cases, [])
    return verdict("books", "test/case")


def table_oracle(case, ctx):
    table, new, how = case["table"], case["new"], case["how"]
    index = [case["index"]] if case["index"] is not None else []
    cases = [["test/case", program([[case["call"], table] + index])]]
    check_eq(run(cases, []).code, 255, "exit status without snapshot")
    check_table(output_text("books", "test/case"), table)
    values = column_values(table)
    n = sum(len(v) for _, v in values)
    ctx.nontrivial(n >= 2 and (how != "none" or any(isinstance(x, str) and x != cell_text(x) for _, v in values for x in v)))
    ctx.label(how)
    if how == "none":
        return
    new_values = column_values(new)
    changed = [[cell_text(x) for x in v] for _, v in values] != [[cell_text(x) for x in v] for _, v in new_values]
    same_width = [max([len(c)] + [len(str(x)) for x in v]) for c, v in values] == \
                 [max([len(c)] + [len(str(x)) for x in v]) for c, v in new_values]
    if index and len(set(map(str, index[0]))) < len(index[0]) or len(set(str(c) for c, _ in table)) < len(table):
        ctx.label("repeated labels")
    got = verdict_after([[case["call"], table] + index], [[case["call"], new] + index])
    if changed:
        check_eq(got, "DIFF", "verdict after a changed cell", report_marks("books", "test/case"))
    elif same_width:
        ctx.label("only padding")
        check_eq(got, "OK", "verdict after changed padding", report_marks("books", "test/case"))


NAME = st.one_of(gen.WORD, gen.LINE, st.sampled_from(["a long column name", "x", "é|"]))
PLAIN_CELL = st.one_of(gen.WORD, gen.WORD.map(lambda x: x + "-"), gen.WORD.map(lambda x: x * 30), st.integers(-10**6, 10**6), st.booleans(), st.floats(-1e5, 1e5), gen.SIMPLE_LINE,
                       gen.TEXT.map(lambda x: x.replace("|", "!")))
PADDED = st.one_of(gen.WORD, gen.SIMPLE_LINE).flatmap(
    lambda w: st.sampled_from([w, " " + w, w + " ", "  " + w, "\n" + w, w + "\t"]))


@st.composite
def table_cases(draw):
    how = draw(st.sampled_from(["none", "none", "cell", "cell", "cell", "pad"]))
    call = draw(st.sampled_from(["ttable", "tdf", "tdf"]))
    names = NAME if call == "ttable" or draw(st.booleans()) else st.one_of(NAME, st.integers(-1, 3), st.sampled_from(["a", "b", "a\nb", " x"]))
    cell = {"none": CELL, "cell": PLAIN_CELL, "pad": PADDED}[how]
    table = draw(tables(cell=cell, names=names, min_rows=0 if how == "none" else 1))
    if call == "tdf" and draw(st.integers(0, 3)) == 0:
        table = [[c, v] for c, (_, v) in zip(draw(st.lists(st.sampled_from(["a", "b", 1]), min_size=len(table), max_size=len(table))), table)]
    if draw(st.integers(0, 39)) == 0 and len(table[0][1]) > 0:
        # as many rows or columns as real tables have
        if draw(st.booleans()):
            rows = draw(st.integers(5, 120))
            table = [[c, (v * 120)[:rows]] for c, v in table]
        else:
            wide = draw(st.integers(4, 40))
            table = [[f"{table[k % len(table)][0]}{k}", list(table[k % len(table)][1])] for k in range(wide)]
    index = None
    if call == "tdf" and draw(st.booleans()):
        rows = len(table[0][1])
        index = draw(st.lists(draw(st.sampled_from([st.integers(-1, 4), st.sampled_from(["a", "b", "c", ""]), st.floats(0, 2)])), min_size=rows, max_size=rows))
    if how == "none":
        return {"table": table, "new": None, "how": how, "call": call, "index": index}
    new = [[c, list(v)] for c, v in table]
    col = draw(st.integers(0, len(new) - 1))
    row = draw(st.integers(0, len(new[col][1]) - 1))
    old = new[col][1][row]
    if how == "cell":
        if isinstance(old, str):
            new[col][1][row] = draw(st.one_of(PLAIN_CELL.filter(lambda x: isinstance(x, str)), st.just(old + "x"), st.just(old[1:]), st.just(old + "-"),
                                             st.just(old[:-1])))
        elif isinstance(old, bool):
            new[col][1][row] = not old
        else:
            new[col][1][row] = draw(st.sampled_from([-old, old + 1, old * 2 + 1]))
    else:
        s = old.strip()
        new[col][1][row] = draw(st.sampled_from([" " + s, s + " ", s.ljust(len(old)), s.rjust(len(old))]))
    return {"table": table, "new": new, "how": how, "call": call, "index": index}


def list_oracle(case, ctx):
    items, prefix, new = case["items"], case["prefix"], case["new"]
    ops = [["tlist", items, prefix]] if prefix is not None else [["tlist", items, " * "]]
    cases = [["test/case", program(ops)]]
    run(cases, [])
    prefix = " * " if prefix is None else prefix
    check_eq(output_text("books", "test/case"), "".join(norm_breaks(f"{prefix}{i}") + "\n" for i in items), "list")
    old_lines = [norm_breaks(f"{prefix}{i}") for i in items]
    new_lines = [norm_breaks(f"{prefix}{i}") for i in new]
    # items missing at the very end of the test are not compared with anything
    flat_old, flat_new = "\n".join(old_lines).split("\n") if old_lines else [], "\n".join(new_lines).split("\n") if new_lines else []
    expected = "OK" if flat_new == flat_old[:len(flat_new)] else "DIFF"
    ctx.label(expected)
    ctx.nontrivial(len(items) >= 2 and items != new)
    check_eq(verdict_after(ops, [["tlist", new, prefix]]), expected, "verdict after changed items",
             report_marks("books", "test/case"))


@st.composite
def list_cases(draw):
    items = draw(st.lists(SCALAR, max_size=5))
    if items and draw(st.integers(0, 9)) == 0:
        # as many items as real lists have
        items = (items * 200)[:draw(st.integers(5, 150))]
    new = list(items)
    if draw(st.booleans()) and new:
        at = draw(st.integers(0, len(new) - 1))
        how = draw(st.sampled_from(["change", "append", "delete", "swap"]))
        if how == "change":
            new[at] = str(new[at]) + draw(st.sampled_from(["x", " ", "1", "\nx"]))
        elif how == "append":
            new.append(draw(SCALAR))
        elif how == "delete":
            del new[at]
        else:
            new[0], new[at] = new[at], new[0]
    return {"items": items, "prefix": draw(st.one_of(st.none(), PREFIX)), "new": new}


def ref_format(value):
    if type(value) is list:
        return [ref_format(x) for x in value]
    if type(value) is dict:
        return {k: ref_format(v) for k, v in value.items()}
    return type(value).__name__


def format_oracle(case, ctx):
    value, new = decoded(case[0]), decoded(case[1])
    cases = [["test/case", program([["tformat", value]])]]
    run(cases, [])
    text = output_text("books", "test/case")
    try:
        got = json.loads(text)
    except ValueError:
        raise Violation(f"format is not JSON: {text!r}")
    check_eq(got, ref_format(value), "format of", value)
    check_eq(list(got) if isinstance(got, dict) else None, list(value) if isinstance(value, dict) else None, "order of keys")
    import booktest as bt
    check_eq(bt.value_format(value), ref_format(value), "value_format")
    expected = "OK" if json.dumps(ref_format(value)) == json.dumps(ref_format(new)) else "DIFF"
    ctx.label(expected)
    ctx.nontrivial(isinstance(value, (list, dict)) and len(value) >= 2 and value != new)
    check_eq(verdict_after([["tformat", value]], [["tformat", new]]), expected, "verdict of format of", new, "after", value)


def change_json(value):
    """ a strategy of values like the value with one leaf or member changed """
    if isinstance(value, list):
        options = [st.just(value + [None])]
        if value:
            options.append(st.integers(0, len(value) - 1).flatmap(
                lambda k: change_json(value[k]).map(lambda x: value[:k] + [x] + value[k + 1:])))
        return st.one_of(options)
    if isinstance(value, dict):
        options = [st.just({**value, "added": 1})]
        if value:
            options.append(st.sampled_from(sorted(value)).flatmap(
                lambda k: change_json(value[k]).map(lambda x: {**value, k: x})))
        return st.one_of(options)
    return st.sampled_from([1, "a", 1.5, True, None, [], {}, "$empty", "$bytes"])


# by name, to be kept in JSON
OTHER = {"$empty": (), "$pair": (1, 2), "$tuple": ("a",), "$bytes": b"x", "$set": {1, 2}, "$frozen": frozenset([1]), "$complex": 1j,
         "$range": range(3), "$type": int, "$ellipsis": Ellipsis}


def decoded(value):
    if isinstance(value, list):
        return [decoded(x) for x in value]
    if isinstance(value, dict):
        return {k: decoded(v) for k, v in value.items()}
    return OTHER.get(value, value) if isinstance(value, str) else value


LEAF = st.one_of(JSON_VALUE, st.sampled_from(sorted(OTHER)))
# as many members as real values have, also nested deeply
LONG = st.one_of(
    st.lists(LEAF, min_size=4, max_size=40),
    st.dictionaries(gen.WORD, LEAF, min_size=4, max_size=12),
    st.tuples(LEAF, st.lists(st.booleans(), min_size=2, max_size=12)).map(
        lambda x: functools.reduce(lambda v, how: [v] if how else {"in": v}, x[1], x[0])))


def format_cases():
    value = st.one_of(JSON_VALUE, JSON_VALUE, JSON_VALUE, st.lists(LEAF, max_size=3), LONG)
    return value.flatmap(lambda v: st.one_of(st.just(v), change_json(v), JSON_VALUE).map(lambda n: [v, n]))


CAMPAIGNS = [
    Campaign("tables", table_cases, table_oracle, 3200, 100000),
    Campaign("lists", list_cases, list_oracle, 3000, 60000),
    Campaign("formats", format_cases, format_oracle, 3000, 60000),
]
