from hypothesis import strategies as st

from vp.core import Campaign, check, check_eq
from vp.world import program, report_marks, run, snapshot_text, verdict

PROPERTY = "C03"
RULE = ("sections with distinct headers, anchor lines or key-value anchors, accepted, then written in another order, with other "
        "ignored text and other numbers of ignored lines at section ends, and possibly one change in one section; "
        "non-trivial: at least 2 sections and another order or a change")

WORDS = st.sampled_from(["foo", "bar", "a", "b", "1", "2.5", "-3", "x y", "(a)", "zed", "a=1"])
TITLE = st.text(alphabet="ABC d", min_size=1, max_size=4).filter(lambda x: x.strip() and x.upper() != x.lower() and any(c in "ABC" for c in x))


def key(s):
    return f"{s.get('prefix', '')}K{s['title']}:"


def ops_of(sections, mode):
    ops = []
    for s in sections:
        if mode == "header":
            ops.append([["h1", "h2", "h3"][s["n"] % 3], s["title"]])
        elif s["how"] == "anchorln":
            ops.append(["anchorln", s["title"]])
        elif s["how"] == "kv":
            ops.append(["kv", key(s), s["value"]])
        else:
            ops.append(["anchor", key(s)])
            ops.append(["tln", s["value"]])
        for kind, text in s["lines"]:
            ops.append([kind + "ln", text])
        for text in s["ignored"]:
            ops.append(["iln", text])
    return ops


def title_line(s, mode):
    if mode == "header":
        return "#" * (s["n"] % 3 + 1) + " " + s["title"]
    if s["how"] == "anchorln":
        return s["title"]
    return key(s) + (f" {s['value']}" if s["how"] == "kv" else s["value"])


def oracle(case, ctx):
    mode = case["mode"]
    current = {"ops": ops_of(case["before"], mode)}
    cases = [["test/case", lambda t: program(current["ops"])(t)]]
    check_eq(run(cases, ["-a"]).code, 0, "exit status of accepting")
    accepted = snapshot_text("books", "test/case")
    current["ops"] = ops_of(case["after"], mode)
    change = case["change"]
    moved = [s["n"] for s in case["after"] if s["n"] >= 0] != [s["n"] for s in case["before"]]
    ctx.label(mode)
    ctx.label("change " + change[0] if change else "no change")
    if moved:
        ctx.label("moved")
    ctx.nontrivial(len(case["before"]) > 1 and (moved or bool(change)))
    expected = "DIFF" if change else "OK"
    result = run(cases, [])
    marks = report_marks("books", "test/case")
    info = f"snapshot {accepted!r}, report {marks!r}"
    check_eq(verdict("books", "test/case"), expected, "verdict after", change, info)
    check_eq(result.code, 0 if expected == "OK" else 255, "exit status")
    check_eq(snapshot_text("books", "test/case"), accepted, "snapshot")
    # differences are only found where they are
    changed = case["at"]
    titles = {title_line(s, mode): s["n"] for s in case["after"]}
    section, inside = None, []
    for mark, rest in marks:
        line = rest[:rest.rindex(" | ")].rstrip() if mark == "? " and " | " in rest else rest
        for title, n in titles.items():
            if line == title or mark == "? " and line == title.rstrip():
                section = n
        if mark != "  ":
            check(change is not None and section == changed, f"line of section {section} is marked", rest, info)
            inside.append(line)
    if change and change[0] in ("change", "insert"):
        check(change[1] in inside, "the changed line", change[1], "is not marked", info)


@st.composite
def cases(draw):
    mode = draw(st.sampled_from(["header", "header", "anchor"]))
    titles = draw(st.lists(TITLE, min_size=1, max_size=5, unique_by=lambda x: x.strip()))
    titles = [t.strip() for t in titles]
    before = []
    # names that are parts of each other
    for n in range(1, len(titles)):
        if draw(st.integers(0, 3)) == 0:
            new = draw(st.sampled_from(["B{}", "{}B", "{} A", "A {}"])).format(draw(st.sampled_from(titles[:n])))
            if new not in titles:
                titles[n] = new
    for n, title in enumerate(titles):
        how = draw(st.sampled_from(["anchorln", "kv", "anchor"]))
        if how != "anchorln":
            title = f"{title}{n}"
        prefix = ""
        earlier = [s for s in before if s["how"] != "anchorln" and s["prefix"] == ""]
        if mode == "anchor" and how != "anchorln" and earlier and draw(st.integers(0, 2)) == 0:
            # a key that ends like the key of another section
            title, prefix = draw(st.sampled_from(earlier))["title"], "xyz"[n % 3] * (n + 1)
        # lines that only mention the other sections
        mention = [w for s in before for w in ("x " + s["title"], "see # " + s["title"], "# " + s["title"] + " x", "no " + key(s), s["title"] + " 1", " # " + s["title"],
                                              " " * (1 + n % 2) + title_line(s, mode))]
        words = WORDS if not mention else st.one_of(WORDS, WORDS, st.sampled_from(mention))
        before.append({
            "n": n, "title": title, "how": how, "value": draw(words), "prefix": prefix,
            "lines": draw(st.lists(st.tuples(st.sampled_from(["t", "t", "t", "i"]),
                                             st.one_of(words, st.just(""))).map(list), max_size=4)),
            "ignored": draw(st.lists(words, max_size=3))})
    order = draw(st.permutations(range(len(before))))
    after = []
    for n in order:
        s = dict(before[n])
        s["lines"] = [[k, x if k == "t" else draw(st.one_of(st.just(x), WORDS))] for k, x in s["lines"]]
        # the blank line before a header is tested, when the text before it is tested
        ends_tested = not s["lines"] or s["lines"][-1][0] == "t"
        least = 1 if mode == "header" and s["ignored"] and ends_tested else 0
        s["ignored"] = draw(st.lists(WORDS, min_size=least, max_size=4))
        after.append(s)
    change, at = None, None
    if mode == "header" and len(after) > 1 and draw(st.integers(0, 7)) == 0:
        # the last tested line of a section is removed
        s = after[draw(st.integers(0, len(after) - 2))]
        keep = [["t", x] for x in draw(st.lists(WORDS, max_size=2))]
        s["lines"], s["ignored"] = keep, []
        before[s["n"]]["lines"], before[s["n"]]["ignored"] = keep + [["t", draw(WORDS)]], []
        change, at = ["remove last"], s["n"]
    elif draw(st.booleans()):
        k = draw(st.integers(0, len(after) - 1))
        s = after[k]
        tested = [j for j, (kind, _) in enumerate(s["lines"]) if kind == "t"]
        options = ["section"]
        if tested:
            options += ["change", "change", "insert"]
        else:
            options += ["insert"]
        if s["how"] != "anchorln" and mode == "anchor":
            options += ["value", "value"]
        pairs = [j for j in tested if j + 1 in tested and s["lines"][j][1] != s["lines"][j + 1][1]]
        if pairs:
            options += ["remove"]
        kind = draw(st.sampled_from(options))
        at = s["n"]
        new = draw(st.sampled_from(["new", "foo new", "1 2 3 new", "-3new"]))
        if kind == "change":
            j = draw(st.sampled_from(tested))
            s["lines"][j] = ["t", new]
            change = [kind, new]
        elif kind == "insert":
            j = draw(st.integers(0, len(s["lines"])))
            s["lines"] = s["lines"][:j] + [["t", new]] + s["lines"][j:]
            change = [kind, new]
        elif kind == "value":
            s["value"] = new
            change = [kind, new]
        elif kind == "remove":
            j = draw(st.sampled_from(pairs))
            del s["lines"][j]
            change = [kind]
        else:
            added = {"n": -1, "title": "CCCCC", "how": draw(st.sampled_from(["anchorln", "kv", "anchor"])), "value": new,
                     "lines": [], "ignored": []}
            after.insert(draw(st.integers(0, len(after))), added)
            change, at = ["section"], -1
    return {"mode": mode, "before": before, "after": after, "change": change, "at": at}


# ---------------------------------------------------------------- moving the cursor by hand

MATCHERS = {"line": lambda a: (lambda x: x == a), "prefix": lambda a: (lambda x: x.startswith(a)),
            "contains": lambda a: (lambda x: a in x), "longer": lambda a: (lambda x: len(x) > len(a))}


def cursor_oracle(case, ctx):
    current = {"new": False}

    def test(t):
        if not current["new"]:
            for line in case["snapshot"]:
                t.tln(line)
            return
        for op in case["ops"]:
            if op[0] == "jump":
                t.jump(op[1])
            elif op[0] == "line":
                t.seek_line(op[1])
            elif op[0] == "prefix":
                t.seek_prefix(op[1])
            elif op[0] == "key":
                t.anchor(op[1]).tln(op[2])
            elif op[0] == "anchorln":
                t.anchorln(op[1])
            elif op[0] in ("contains", "longer"):
                t.seek(MATCHERS[op[0]](op[1]))
            elif op[0] == "t":
                t.tln(op[1])
            else:
                t.iln(op[1])

    cases_ = [["test/case", test]]
    check_eq(run(cases_, ["-a"]).code, 0, "exit status of accepting")
    lines = case["snapshot"]
    current["new"] = True
    at, expected, moved = 0, [], 0

    def seek(matches):
        nonlocal at, moved
        for k in list(range(at, len(lines))) + list(range(at)):
            if matches(lines[k]):
                moved += k != at
                at = k
                break

    for op in case["ops"]:
        if op[0] == "jump":
            # lines are counted from one
            moved += at != min(max(op[1] - 1, 0), len(lines))
            at = min(max(op[1] - 1, 0), len(lines))
            continue
        if op[0] in MATCHERS:
            seek(MATCHERS[op[0]](op[1]))
            continue
        text = op[1]
        if op[0] == "key":
            seek(MATCHERS["prefix"](op[1]))
            text = op[1] + op[2]
        elif op[0] == "anchorln":
            seek(MATCHERS["line"](op[1]))
        snapshot = lines[at] if at < len(lines) else None
        if op[0] == "i" or snapshot == text:
            expected.append(("  ", text))
        else:
            expected.append(("? ", f"{text:60s} | {'EOF' if snapshot is None else snapshot}"))
            ctx.label("differences")
        at = min(at + 1, len(lines))
    run(cases_, [])
    check_eq(report_marks("books", "test/case"), expected, "report")
    check_eq(verdict("books", "test/case"), "DIFF" if any(m == "? " for m, _ in expected) else "OK", "verdict")
    ctx.nontrivial(moved and any(m == "  " for m, _ in expected))
    ctx.label("moves", moved)


LINE = st.sampled_from(["", "a", "ab", "a=1", "a=2", "b", "b=1", "bb", "# a", "x y", " a", "1"])


def cursor_cases():
    op = st.one_of(st.tuples(st.just("t"), LINE), st.tuples(st.just("t"), LINE), st.tuples(st.just("i"), LINE),
                   st.tuples(st.just("jump"), st.integers(0, 9)), st.tuples(st.sampled_from(["line", "prefix", "contains", "longer"]), LINE),
                   st.tuples(st.just("anchorln"), LINE),
                   st.tuples(st.just("key"), st.sampled_from(["a", "a=", "b=", "b", "x "]), st.sampled_from(["", "1", "2", "y", "b"]))).map(list)
    return st.fixed_dictionaries({"snapshot": st.lists(LINE, min_size=1, max_size=7), "ops": st.lists(op, min_size=1, max_size=8)})


CAMPAIGNS = [
    Campaign("sections", cases, oracle, 9000, 300000),
    Campaign("cursor", cursor_cases, cursor_oracle, 4000, 100000),
]
