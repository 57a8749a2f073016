import json
import os
import re

from hypothesis import strategies as st

from vp import gen
from vp.core import Campaign, check, check_eq
from vp.programs import kinds, programs
from vp.world import async_program, data_frame, norm_breaks, output_text, program, read_text, report_marks, run, snapshot_text, verdict

PROPERTY = "C36"
RULE = ("random programs over the whole output API, with failures and differences, run against no snapshot, their own, edited ones and "
        "unrelated text; the page is compared with a reference rendering, the report with the page, and the verdict with the report; "
        "non-trivial: a program of at least 3 calls of 2 kinds, that is compared with a snapshot that is not its own")


def ref_format(value):
    if isinstance(value, list):
        return [ref_format(x) for x in value]
    if isinstance(value, dict):
        return {k: ref_format(v) for k, v in value.items()}
    return type(value).__name__


class Page:
    """ the page as a regular expression: measurements of time and their earlier values, padding, and hash names vary """

    def __init__(self):
        self.pattern = []
        self.at_start = True    # of the page
        self.open = False       # a line has been begun

    def write(self, text):
        text = norm_breaks(str(text))
        if text:
            self.pattern.append(re.escape(text))
            self.at_start = False
            self.open = not text.endswith("\n")

    def free(self, pattern):
        self.pattern.append(pattern)
        self.at_start, self.open = False, True

    def header(self, text):
        if not self.at_start:
            self.write("\n")
        self.write(text)
        self.write("\n\n")

    def measure(self, pattern, unit):
        self.free(pattern + re.escape(unit) + r"(?: \(was (?:-?[0-9]+\.[0-9]{3}|-?inf|nan)" + re.escape(unit) + r"\))?")
        self.write("\n")

    def condition(self, ok, message):
        self.write("ok" if ok else message if message else "FAILED")
        self.write("\n")

    def render(self, name, op):
        k = op[0]
        if k in ("t", "i", "anchor"):
            self.write(op[1])
        elif k in ("tln", "iln", "anchorln"):
            self.write(op[1])
            self.write("\n")
        elif k == "h":
            self.header("#" * op[1] + " " + op[2])
        elif k in ("h1", "h2", "h3"):
            self.header("#" * int(k[1]) + " " + op[1])
        elif k == "header":
            self.header(op[1])
        elif k == "kv":
            self.write(op[1])
            self.write(f" {op[2]}")
            self.write("\n")
        elif k in ("tlist", "tset"):
            for x in op[1]:
                self.write(f"{op[2]}{x}")
                self.write("\n")
        elif k in ("ttable", "tdf"):
            self.table(data_frame(op[1]) if k == "tdf" else as_frame(op[1]))
        elif k == "tformat":
            self.write(json.dumps(ref_format(op[1]), indent=2) + "\n")
        elif k == "assertln":
            self.condition(op[1], op[2])
        elif k == "it":
            self.header(f"## {op[1]}..")
            for c in op[3]:
                if c[0] == "contain":
                    title, ok, message = f"have {c[1]}", c[1] in op[2], None
                elif c[0] == "equal":
                    title, ok, message = f"equal {c[1]}", c[1] == op[2], None
                elif c[0] == "be_a":
                    title, ok, message = f"be a <class '{c[1]}'>", type(op[2]).__name__ == c[1], f"was {type(op[2])}"
                else:
                    title, ok, message = c[1], c[2], None
                self.write(f" * MUST {title}...")
                self.condition(ok, message)
        elif k == "ifloat":
            self.measure(re.escape(f"{op[1]:.3f}"), "" if op[2] is None else f" {op[2]}")
        elif k in ("imsln", "tmsln"):
            self.measure(r"[0-9]+\.[0-9]{3}", " ms")
        elif k == "image":
            stem = os.path.splitext(op[1])[0]
            if op[3]:
                hashed = "[0-9a-f]{8,}"
                alt = re.escape(op[5][0]) if op[5] else hashed
                self.free(r"!\[" + alt + r"\]\(" + re.escape(name) + "/" + hashed + re.escape(op[4]) + r"\)")
            else:
                alt = op[5][0] if op[5] else stem
                self.write(f"![{alt}]({name}/{op[1]})")
            self.write("\n")

    def table(self, df):
        columns = [str(c).replace("\r", " ").replace("\n", " ") for c in df.columns]
        self.write("|")
        for c in columns:
            self.write(c)
            self.free(" *")
            self.write("|")
        self.write("\n|")
        for c in columns:
            self.free("-*")
            self.write("|")
        self.write("\n")
        for i in range(len(df.index)):
            self.write("|")
            for j in range(len(columns)):
                self.write(str(df.iloc[i, j]).replace("\r", " ").replace("\n", " ").strip())
                self.free(" *")
                self.write("|")
            self.write("\n")


def as_frame(table):
    import pandas as pd
    return pd.DataFrame({c: v for c, v in table})


def rendered(name, ops):
    page = Page()
    for op in ops:
        page.render(name, op)
    if page.open:
        page.write("\n")
    return "".join(page.pattern)


def marked_at_end(ops):
    """ whether nothing is written after the last mark (or set, which is marked after its lines, when some are missing) """
    marks = [i for i, op in enumerate(ops) if op[0] in ("fail", "diff", "tset")]
    return bool(marks) and rendered("", ops[marks[-1] + 1:]) == ""


def failing(ops):
    """ whether the test fails """
    for op in ops:
        if op[0] == "fail" or op[0] == "assertln" and not op[1]:
            return True
        if op[0] == "it":
            for c in op[3]:
                if c[0] == "contain" and c[1] not in op[2] or c[0] == "equal" and c[1] != op[2] or \
                   c[0] == "be_a" and type(op[2]).__name__ != c[1] or c[0] == "apply" and not c[2]:
                    return True
    return False


def edited(text, edits):
    lines = text.split("\n")[:-1]
    for how, at, other in edits:
        if not lines:
            break
        at %= len(lines)
        if how == "drop":
            del lines[at]
        elif how == "double":
            lines.insert(at, lines[at])
        elif how == "replace":
            lines[at] = other
        elif how == "insert":
            lines.insert(at, other)
        elif how == "swap":
            lines[at], lines[-1] = lines[-1], lines[at]
        elif how == "cut":
            lines[at] = lines[at][:len(lines[at]) // 2]
        elif how == "end":
            del lines[at:]
    return "".join(line + "\n" for line in lines)


def oracle(case, ctx):
    name = case["name"]
    ops = case["ops"]
    cases = [[name, (async_program if case["async"] else program)(ops)]]
    pattern = rendered(name.split("/")[-1], ops)
    expression = re.compile(pattern)
    own = None
    changed = False
    file = f"books/{name}.md"
    for snapshot in case["snapshots"]:
        if snapshot[0] == "none":
            if os.path.exists(file):
                os.remove(file)
        elif snapshot[0] == "text" or own is None:
            write(file, snapshot[1] if snapshot[0] == "text" else "")
            changed = True
        elif snapshot[0] == "own":
            write(file, own)
        else:
            write(file, edited(own, snapshot[1]))
            changed = changed or snapshot_text("books", name) != own
        accepted = snapshot_text("books", name)
        if "-c" in case["args"] and verdict("books", name) == "OK":
            # continuing would skip it
            os.remove("books/.out/cases.txt")
        run(cases, case["args"] + [name])
        about = f"with snapshot {accepted!r}"
        page = output_text("books", name)
        check(page is not None, "the page is missing", about)
        if not expression.fullmatch(page):
            check(False, "the page is", repr(page), "and not", repr(explained(expression, pattern, page)), about)
        lines = page.split("\n")[:-1]
        marks = report_marks("books", name)
        shown = set(m for m, _ in marks)
        if len(marks) == len(lines) + 1 and marked_at_end(ops):
            # marked after the last line: the report has a line for it, the page has not
            check(marks[-1][0] in ("? ", "! ") and marks[-1][1].startswith(" " * 60 + " | "), "the report ends in", marks[-1], about)
            marks = marks[:-1]
        check_eq(len(marks), len(lines), f"lines of the report {marks} {about}")
        for (mark, text), line in zip(marks, lines):
            if mark == "  ":
                check_eq(text, line, f"line of the report {about}")
            else:
                check(mark in ("? ", "! "), "mark", mark, about)
                check(text.startswith(line.ljust(60) + " | "), "line", text, "of the report begins not with", line, about)
                check(text[len(line.ljust(60)):] == " | EOF" or text[len(line.ljust(60)) + 3:] in (accepted or "").split("\n"),
                      "line", text, "of the report quotes no line of the snapshot", about)
        expected = "FAIL" if "! " in shown else "DIFF" if "? " in shown or accepted is None else "OK"
        check_eq(verdict("books", name), expected, f"verdict with marks {sorted(shown)} {about}")
        if failing(ops):
            check_eq(expected, "FAIL", f"marks of a failing test: {marks} {about}")
        elif "! " in shown:
            check(False, "a test that does not fail is marked as failing", marks, about)
        if own is None:
            own = page
        ctx.label(f"{snapshot[0]} {expected}")
    ctx.nontrivial(changed and len(ops) >= 3 and len(kinds(ops)) >= 2)
    for k in kinds(ops):
        ctx.label("op " + k)


def explained(expression, pattern, page):
    """ the expected page, as far as it can be told """
    return re.sub(r"\\(.)", r"\1", pattern)


def write(file, text):
    os.makedirs(os.path.dirname(file), exist_ok=True)
    with open(file, "wb") as f:
        f.write(text.encode())


@st.composite
def cases(draw):
    ops = [op for op in draw(programs(text=draw(st.sampled_from([gen.TEXT, gen.SIMPLE_LINE])))) if op[0] != "return"]
    if draw(st.integers(0, 2)) == 0:
        for _ in range(draw(st.integers(1, 2))):
            ops.insert(draw(st.integers(0, len(ops))), draw(st.sampled_from(
                [["fail"], ["diff"], ["assertln", False, None], ["assertln", False, "bad"], ["assertln", True, None],
                 ["it", "x", [1, 2], [["contain", 3], ["be_a", "dict"], ["equal", [1, 2]]]], ["it", "y", "abc", [["contain", "b"], ["apply", "z", False]]]])))
    edit = st.tuples(st.sampled_from(["drop", "double", "replace", "insert", "swap", "cut", "end"]), st.integers(0, 40),
                     gen.SIMPLE_LINE.map(lambda x: x.replace("\n", " ").replace("\r", " "))).map(list)
    snapshot = st.one_of(st.just(["own"]), st.lists(edit, min_size=1, max_size=3).map(lambda x: ["edited", x]), st.lists(edit, min_size=1, max_size=3).map(lambda x: ["edited", x]),
                         gen.TEXT.filter(lambda x: not any("\ud800" <= c <= "\udfff" for c in x)).map(lambda x: ["text", norm_breaks(x)]),
                         st.just(["none"]))
    return {"name": draw(st.sampled_from(["test/a", "test/s/b c", "test/é"])), "ops": ops, "async": draw(st.booleans()),
            "snapshots": [["none"]] + draw(st.lists(snapshot, min_size=1, max_size=4)),
            "args": draw(st.sampled_from([[], [], ["-v"], ["-L"], ["-f"], ["-c"]]))}


CAMPAIGNS = [Campaign("pages", cases, oracle, 8000, 200000, hang_s=30)]
