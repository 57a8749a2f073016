""" strategies of test programs: lists of calls of the output API (see world.perform) """
from hypothesis import strategies as st

from vp import gen
from vp.world import norm_breaks, ref_tokens

SINGLE = st.one_of(gen.LINE, gen.SIMPLE_LINE)

PREFIX = st.sampled_from([" * ", " * ", "- ", "* ", " - ", "#", "> ", "a", "1. ", "|", "item ", "\t"])

JSON_VALUE = st.recursive(
    st.one_of(st.none(), st.booleans(), st.integers(-1000, 1000), st.floats(-10, 10, allow_nan=False), gen.WORD),
    lambda x: st.one_of(st.lists(x, max_size=3), st.dictionaries(gen.WORD, x, max_size=3)),
    max_leaves=6)

SCALAR = st.one_of(st.none(), st.booleans(), st.integers(-10**6, 10**6),
                   st.floats(allow_nan=False, allow_infinity=False, width=32), gen.TEXT)

CELL = st.one_of(gen.TEXT, gen.SIMPLE_LINE, gen.WORD.map(lambda x: (x + " ") * 30), st.integers(-10**9, 10**9), st.floats(-1e6, 1e6), st.none(), st.booleans())


@st.composite
def tables(draw, cell=CELL, names=None, min_rows=0, max_rows=4):
    cols = draw(gen.unique_lists(names if names is not None else gen.LINE, min_size=1, max_size=3))
    rows = draw(st.integers(min_rows, max_rows))
    return [[c, draw(st.lists(cell, min_size=rows, max_size=rows))] for c in cols]


def safe_join(line, text):
    """ the text, so that it does not continue the last token of the line """
    first = norm_breaks(text).split("\n")[0]
    if ref_tokens(line + first) == ref_tokens(line) + ref_tokens(first):
        return text
    return "|" + text


def next_line(line, text):
    """ the unfinished line after the text has been written """
    return (line + norm_breaks(text)).split("\n")[-1]


class Line:
    """ keeps track of the unfinished line, to keep ignored and tested text in tokens of their own """

    def __init__(self):
        self.text = ""
        self.kind = None

    def piece(self, kind, text):
        if self.text and not (kind == "t" and self.kind == "t"):
            text = safe_join(self.text, text)
        after = next_line(self.text, text)
        if text:
            self.kind = kind
        self.text = after
        if not after:
            self.kind = None
        return text


@st.composite
def line_ops(draw, ended=True, text=gen.TEXT):
    line = Line()
    ops = []
    for kind, piece in draw(st.lists(st.tuples(st.sampled_from(["t", "t", "i"]), text), max_size=5)):
        ops.append([kind, line.piece(kind, piece)])
    if not ended:
        return ops
    end = draw(st.sampled_from(["tln", "tln", "tln", "iln", "iln", "assertln", "ifloat", "imsln", "tmsln"]))
    if end in ("tln", "iln"):
        piece = draw(st.one_of(st.just(""), text))
        ops.append([end, line.piece(end[0], piece)])
    else:
        if end == "ifloat":
            op = ["ifloat", draw(st.one_of(st.floats(-1e6, 1e6), st.sampled_from([0.0, float("inf"), -1.5, 1e20]))),
                  draw(st.sampled_from([None, "ms", "%", "kg m"]))]
            written = f"{op[1]:.3f}"
        elif end == "assertln":
            op = ["assertln", True, draw(st.sampled_from([None, "bad"]))]
            written = "ok"
        elif end == "imsln":
            op, written = ["imsln", 1], "0.000 ms"
        else:
            op, written = ["tmsln", 1, 1e9], "0.000 ms"
        if line.text and safe_join(line.text, written) != written:
            ops.append(["i", line.piece("i", "|")])
        ops.append(op)
    return ops


@st.composite
def it_ops(draw):
    value = draw(st.one_of(st.lists(st.integers(0, 5), min_size=1, max_size=4), st.dictionaries(gen.WORD, st.integers(), min_size=1)))
    checks = []
    for _ in range(draw(st.integers(0, 3))):
        k = draw(st.sampled_from(["contain", "equal", "be_a", "apply"]))
        if k == "contain":
            checks.append([k, draw(st.sampled_from(sorted(value)))])
        elif k == "equal":
            checks.append([k, value])
        elif k == "be_a":
            checks.append([k, type(value).__name__])
        else:
            checks.append([k, draw(SINGLE), True])
    return [["it", draw(SINGLE), value, checks]]


@st.composite
def programs(draw, max_statements=7, side_effects=True, text=gen.TEXT):
    ops = []
    after_set = None  # prefix of the set just written
    files = 0
    n = draw(st.integers(0, max_statements))
    for k in range(n):
        kind = draw(st.sampled_from(
            ["line"] * 6 + ["header"] * 2 + ["anchor", "anchorln", "kv", "tlist", "tset", "tset", "table", "format", "it", "image"] +
            (["side"] if side_effects else [])))
        # (the lines of a set are told from the text after it by the prefix alone)
        if after_set is not None and (kind not in ("header", "side") or kind == "header" and after_set.startswith("#")):
            mark = "^" if not "^".startswith(after_set) else "~"
            ops.append([draw(st.sampled_from(["tln", "iln"])), mark])
            after_set = None
        if kind == "line":
            ops.extend(draw(line_ops(text=text)))
        elif kind == "header":
            after_set = None
            f = draw(st.sampled_from(["h1", "h2", "h3", "header", "h"]))
            title = draw(text)
            ops.append([f, draw(st.integers(1, 5)), title] if f == "h" else [f, title])
        elif kind == "anchor":
            line = Line()
            ops.append(["anchor", line.piece("t", draw(text))])
            piece = draw(st.sampled_from(["t", "i"]))
            ops.append([piece + "ln", line.piece(piece, draw(text))])
        elif kind == "anchorln":
            ops.append(["anchorln", draw(text)])
        elif kind == "kv":
            ops.append(["kv", draw(text), draw(SCALAR)])
        elif kind == "tlist":
            ops.append(["tlist", draw(st.lists(SCALAR, max_size=4)), draw(PREFIX)])
        elif kind == "tset":
            prefix = draw(PREFIX)
            items = draw(st.lists(st.one_of(SINGLE, st.integers(-20, 20), gen.WORD), max_size=5))
            ops.append(["tset", items, prefix])
            after_set = prefix
        elif kind == "table":
            ops.append([draw(st.sampled_from(["ttable", "tdf"])), draw(tables())])
        elif kind == "format":
            ops.append(["tformat", draw(JSON_VALUE)])
        elif kind == "it":
            ops.extend(draw(it_ops()))
        elif kind == "image":
            files += 1
            ops.append(["image", f"img{files}" + draw(st.sampled_from([".png", ".png", ".a.b.png", ""])), draw(gen.WORD), draw(st.booleans()), draw(st.sampled_from(["", ".png"])),
                        draw(st.sampled_from([[], [], [""], ["two words"], ["1"]]))])
        elif kind == "side":
            k = draw(st.sampled_from(["stderr", "log", "file", "tmp"]))
            if k == "stderr":
                ops.append([k, draw(text)])
            elif k == "log":
                ops.append([k, draw(st.sampled_from(["warning", "error", "info"])), draw(text)])
            else:
                files += 1
                ops.append([k, f"f{files}.txt", draw(gen.WORD)])
    if draw(st.integers(0, 2)) == 0:
        if after_set is not None:
            ops.append(["tln", "^" if not "^".startswith(after_set) else "~"])
        ops.extend(draw(line_ops(ended=False, text=text)))
    if draw(st.integers(0, 3)) == 0:
        ops.append(["return", draw(JSON_VALUE)])
    return ops


def kinds(ops):
    return set(op[0] for op in ops)
