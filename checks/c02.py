import os
import unicodedata

from hypothesis import strategies as st

from vp import gen
from vp.core import Campaign, check, check_eq
from vp.programs import Line
from vp.world import norm_breaks, output_text, program, ref_tokens, report_marks, run, snapshot_text, verdict

PROPERTY = "C02"
RULE = ("a snapshot made by an accepted program (or an arbitrary file, or none) and a program of tested and ignored text "
        "derived from it by random edits; non-trivial: at least one tested token, and differing and equal lines both occur "
        "or the snapshot has another number of lines")


# ---------------------------------------------------------------- the reference

def written(pieces):
    """ the lines as lists of (kind, text), kind of the line end, of pieces (kind, text) """
    lines, line, last = [], [], None
    for kind, text in pieces:
        parts = norm_breaks(text).split("\n")
        for k, part in enumerate(parts):
            if k > 0:
                lines.append((line, kind))
                line, last = [], kind
            if part:
                line.append((kind, part))
                last = kind
    if line:
        lines.append((line, last))
    return lines


def line_difference(line, end, snapshot_line):
    """ begin and end of the first difference in the line, if there is one. snapshot_line is None after the end of the snapshot """
    # words may be written in pieces: tested text that follows tested text is tokenised as one
    joined = []
    for kind, text in line:
        if joined and joined[-1][0] == "t" and kind == "t":
            joined[-1] = ("t", joined[-1][1] + text)
        else:
            joined.append((kind, text))
    tokens = [(kind, token) for kind, text in joined for token in ref_tokens(text)]
    expected = ref_tokens(snapshot_line) if snapshot_line is not None else None
    begin = 0
    for at, (kind, token) in enumerate(tokens):
        if kind == "t" and (expected is None or at >= len(expected) or expected[at] != token):
            # words are compared in the pieces in which they are written, whose begins may be the same as in the snapshot
            starts, at = [0], 0
            for _, text in line:
                for x in ref_tokens(text):
                    starts.append(at)
                    at += len(x)
            return max(x for x in starts if x <= begin), max(begin + len(token), len(os.path.commonprefix(["".join(x for _, x in line), snapshot_line or ""])))
        begin += len(token)
    return (begin, begin) if end == "t" and (expected is None or len(tokens) < len(expected)) else None


def model(pieces, snapshot):
    lines = written(pieces)
    text = "".join("".join(p for _, p in line) + "\n" for line, _ in lines)
    if snapshot is None:
        return text, "DIFF", [None] * len(lines)
    snapshot_lines = norm_breaks(snapshot).split("\n")
    if snapshot_lines[-1] == "":
        snapshot_lines.pop()
    marks = [line_difference(line, end, snapshot_lines[k] if k < len(snapshot_lines) else None)
             for k, (line, end) in enumerate(lines)]
    return text, "DIFF" if any(m is not None for m in marks) else "OK", marks


# ---------------------------------------------------------------- the check

def write(t, pieces, style):
    for k, (kind, text) in enumerate(pieces):
        s = style[k % len(style)] if style else 0
        if kind == "t":
            if s == 0 or not text.endswith("\n") or text.endswith("\r\n"):
                t.t(text)
            elif s == 1:
                t.tln(text[:-1])
            else:
                t.t(text[:-1]).tln()
        else:
            if s == 0 or not text.endswith("\n") or text.endswith("\r\n"):
                t.i(text)
            elif s == 1:
                t.iln(text[:-1])
            else:
                t.i(text[:-1]).iln()


def oracle(case, ctx):
    pieces, snapshot, style = case["pieces"], case["snapshot"], case["style"]
    current = {"pieces": case["pieces"]}

    def test(t):
        write(t, current["pieces"], style)

    cases = [["test/case", test]]
    if isinstance(snapshot, list):
        current["pieces"] = snapshot
        check_eq(run(cases, ["-a"]).code, 0, "exit status of accepting")
        current["pieces"] = pieces
        text, _, _ = model(snapshot, None)
        check_eq(snapshot_text("books", "test/case"), text, "accepted snapshot")
        snapshot = text
    elif snapshot is not None:
        os.makedirs("books/test")
        with open("books/test/case.md", "w", newline="") as f:
            f.write(snapshot)
    text, expected, marks = model(pieces, snapshot)
    ctx.label(expected)
    ctx.label("snapshot " + type(case["snapshot"]).__name__)
    ctx.nontrivial(any(k == "t" and s for k, s in pieces) and
                   (len(set(m is None for m in marks)) == 2 or snapshot is not None and len(snapshot.split("\n")) != len(text.split("\n"))))
    if case["point"]:
        with open(".booktest", "w") as f:
            f.write("point_error_pos=1\n")
    result = run(cases, case["args"])
    check_eq(output_text("books", "test/case"), text, "output")
    check_eq(verdict("books", "test/case"), expected, "verdict; snapshot", snapshot, "output", text)
    check_eq(result.code, 0 if expected == "OK" else 255, "exit status")
    report = report_marks("books", "test/case")
    if case["point"]:
        lines, report, pointed = iter(report), [], []
        for mark, rest in lines:
            report.append((mark, rest))
            if mark == "? ":
                mark, rest = next(lines, ("", ""))
                check(mark == "  " and rest.lstrip(" ") == "^", "line below a differing line", mark + rest)
                pointed.append(len(rest) - 1)
        for (begin, end), at in zip([m for m in marks if m is not None], pointed):
            check(begin <= at <= end, "position", at, "pointed at is not in the difference", (begin, end), "snapshot", snapshot, "output", text)
    check_eq([m[0] for m in report], ["  " if m is None else "? " for m in marks], "marks; snapshot", snapshot, "output", text)
    for (_, rest), line in zip(report, text.split("\n")):
        check(rest.startswith(line), "report line", rest, "is not of output line", line)
    check_eq(snapshot_text("books", "test/case"), snapshot, "snapshot after the run")


# ---------------------------------------------------------------- generation

@st.composite
def pieces(draw, text, max_size=8):
    line = Line()
    rv = []
    for kind, piece in draw(st.lists(st.tuples(st.sampled_from(["t", "t", "t", "i"]), text), max_size=max_size)):
        rv.append([kind, line.piece(kind, piece)])
    return rv


def repaired(ps):
    """ keeps ignored and tested text in tokens of their own after an edit """
    line = Line()
    return [[k, line.piece(k, p)] for k, p in ps]


def alike(token):
    """ other texts, that are equal for people or for programs that read them """
    rv = []
    if token[-1:].isascii() and token[-1:].isdigit():
        rv += [token + ".0" if "." not in token else token + "0", "0" + token if token[:1] not in "+-" else token[:1] + "0" + token[1:]]
        rv += ["+" + token] if token[:1] not in "+-" else [token[1:]]
    elif token.isspace() and "\n" not in token:
        rv += [token + " ", "\t", "\u00a0"]
    else:
        rv += [x for x in (token.upper(), token.lower(), token.casefold(), unicodedata.normalize("NFD", token),
                           unicodedata.normalize("NFKC", token)) if x]
    return [x for x in rv if x != token]


@st.composite
def edited(draw, ps, text):
    """ the pieces after random edits """
    ps = [list(p) for p in ps]
    for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2, 3]))):
        at = draw(st.integers(0, len(ps)))
        op = draw(st.sampled_from(["replace", "char", "insert", "delete", "swap", "kind", "split", "cut", "space", "look"]))
        if op == "insert" or at == len(ps):
            ps.insert(at, [draw(st.sampled_from("ti")), draw(text)])
        elif op == "replace":
            ps[at][1] = draw(text)
        elif op == "char" and ps[at][1]:
            k = draw(st.integers(0, len(ps[at][1]) - 1))
            ps[at][1] = ps[at][1][:k] + draw(st.sampled_from(list("ab1 .-+\n"))) + ps[at][1][k + 1:]
        elif op == "space" and ps[at][1]:
            k = draw(st.integers(0, len(ps[at][1])))
            ps[at][1] = ps[at][1][:k] + draw(st.sampled_from([" ", "\n", "x", "1"])) + ps[at][1][k:]
        elif op == "delete":
            del ps[at]
        elif op == "swap" and at + 1 < len(ps):
            ps[at], ps[at + 1] = ps[at + 1], ps[at]
        elif op == "kind":
            ps[at][0] = "t" if ps[at][0] == "i" else "i"
        elif op == "split" and ps[at][0] == "t":
            k = draw(st.integers(0, len(ps[at][1])))
            ps[at:at + 1] = [["t", ps[at][1][:k]], ["t", ps[at][1][k:]]]
        elif op == "cut":
            ps[at][1] = ps[at][1][:-1]
        elif op == "look":
            # text that looks, sorts or counts alike
            tokens = ref_tokens(ps[at][1])
            options = [(k, x) for k, t in enumerate(tokens) for x in alike(t)]
            if options:
                k, x = draw(st.sampled_from(options))
                ps[at][1] = "".join(tokens[:k] + [x] + tokens[k + 1:])
    return repaired(ps)


NARROW = st.lists(st.sampled_from(["a", "b", "ab", "1", "2", "1.5", ".", "-", " ", "  ", "\n", "\n", ", "]),
                  min_size=1, max_size=5).map("".join)

ARGS = st.sampled_from([[], [], [], ["-v"], ["-f"], ["-L"]])
STYLE = st.lists(st.integers(0, 2), max_size=4)


def cases(text):
    @st.composite
    def strategy(draw):
        first = draw(pieces(text))
        kind = draw(st.sampled_from(["list"] * 7 + ["none", "other", "file"]))
        if kind == "none":
            snapshot = None
        elif kind == "other":
            snapshot = draw(pieces(text))
        elif kind == "file":
            # a snapshot written or edited by hand: unterminated last lines, any breaks
            snapshot = draw(st.one_of(text, st.just(model(first, None)[0][:-1]), st.just("")))
        else:
            snapshot = first
            first = draw(edited(first, text))
        return {"pieces": first, "snapshot": snapshot, "style": draw(STYLE), "args": draw(ARGS), "point": draw(st.integers(0, 3)) == 0}
    return strategy()


CAMPAIGNS = [
    Campaign("narrow", lambda: cases(NARROW), oracle, 9000, 300000),
    Campaign("any text", lambda: cases(gen.TEXT), oracle, 5000, 200000),
]
