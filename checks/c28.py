import os
import re

from hypothesis import strategies as st

from vp.behave import set_behaviour, take_events
from vp.core import Campaign, check, check_eq
from vp.history import rarely, simple_spec
from vp.project import forked_workers, loaded
from vp.world import files, output_text, records, run, snapshot_text

PROPERTY = "C28"
RULE = ("histories of runs (plain, accepting, updating, continuing, failing, in parallel, in a linked directory) over tests writing random sets of files, temporary files, "
        "directories, files renamed to their hash and images, with arbitrary names and contents; the directories of every test, what "
        "the tests find when they start, hash names and image links are compared with a model. non-trivial: at least 2 runs that "
        "write different files for a test that is accepted")

NAMES = ["test/a", "test/ab", "test/a.b", "test/s/a", "test/s/b", "test/sa", "test/A b"]


def produced(ops):
    """ (files, temporary files, directories of temporary files) of the ops, hashed ones by their content """
    out, tmp = {}, {}
    for op in ops:
        k = op[0]
        if k == "file":
            out[op[1]] = op[2].encode()
        elif k == "tmp":
            tmp[op[1]] = op[2].encode()
        elif k == "in dir":
            (out if op[1] == "file" else tmp)[os.path.join(op[2], op[3])] = op[4].encode()
        elif k == "show":
            out[op[1]] = op[2].encode()
    return out, tmp


def oracle(case, ctx):
    names = case["names"]
    spec = simple_spec(names, case["async"])
    accepted = {n: None for n in names}         # snapshot text
    snapshots = {n: {} for n in names}          # snapshot files
    outputs = {n: {} for n in names}
    temporary = {n: {} for n in names}
    hash_names = {}
    wrote = {n: [] for n in names}
    if case["linked"]:
        # the book is somewhere else
        os.makedirs("else/where/book")
        os.symlink("else/where/book", "books")
    with loaded(spec) as suite, forked_workers():
        for step in case["steps"]:
            before = dict(records("books")) if os.path.isdir("books/.out") else {}
            set_behaviour({n: {"ops": ops} for n, ops in step["set"].items()})
            take_events()
            result = run(suite, step["args"] + step["select"])
            events = take_events()
            about = f"after {step['args']} {step['select']}"
            ran = set(e["case"] for e in events if e["kind"] == "begin")
            check_eq(sorted(ran), sorted(n for n in names if (not step["select"] or n in step["select"])
                                         and not ("-c" in step["args"] and before.get(n) == "OK")), "cases run " + about)
            for n in ran:
                out, tmp = produced(step["set"][n])
                mine = [e for e in events if e["case"] == n]
                for e in mine:
                    if e["kind"] == "look":
                        check_eq(e["found"], [], f"{e['at']} files found by {n} at its start {about}")
                        ctx.label("looks")
                    if e["kind"] == "rel":
                        # what is not below the directory of the page cannot be linked to
                        inside = os.path.commonpath([e["base"], e["file"]]) == e["base"]
                        check_eq(e["relative"], os.path.relpath(e["file"], e["base"]) if inside else None,
                                 f"path of {e['file']} relative to the page of {n} in {e['base']}")
                        check_eq(os.path.dirname(os.path.abspath(os.path.join("books/.out", n))), e["base"], f"directory of the page of {n}")
                        ctx.label("relative paths" if inside else "paths outside")
                    if e["kind"] == "hash":
                        postfix = e["postfix"][0] if e["postfix"] else ""
                        d, new = os.path.split(e["new"])
                        check_eq(d, os.path.dirname(e["old"]), "directory of the renamed file")
                        check(new.endswith(postfix), "renamed file", new, "without", postfix)
                        stem = new[:len(new) - len(postfix)]
                        check_eq(hash_names.setdefault(e["content"], stem), stem, "name for the same content")
                        check_eq([c for c, s in hash_names.items() if s == stem], [e["content"]], f"contents named {stem}")
                        ctx.label("hashes")
                        at = [o for o in step["set"][n] if o[0] == "hash" and o[3] == e["content"]][0][1]
                        (out if at == "file" else tmp)[new] = e["content"].encode()
                failed = any(o[0] in ("fail", "raise") for o in step["set"][n])
                text = output_text("books", n)
                new_text = text if text is not None else snapshot_text("books", n)
                verdict = "FAIL" if failed else "OK" if new_text == accepted[n] and accepted[n] is not None and text is not None else None
                if not failed:
                    judged = (verdict == "OK" and "-u" in step["args"]) or "-a" in step["args"]
                    # the text of a run that is accepted is the snapshot now
                    check(text is None or not (accepted[n] is None or text != accepted[n]) or "-a" not in step["args"],
                          "output of", n, "was not accepted", about)
                    if text is None:
                        check("-a" in step["args"] or "-u" in step["args"], "output of", n, "is missing", about)
                        snapshots[n], outputs[n] = out, {}
                        accepted[n] = new_text
                        ctx.label("acceptances")
                    else:
                        check(not ("-u" in step["args"] and dict(records("books"))[n] == "OK"), "update of", n, "left its output", about)
                        outputs[n] = out
                else:
                    check(text is not None, "failed output of", n, "is missing", about)
                    outputs[n] = out
                    ctx.label("failures")
                temporary[n] = tmp
                wrote[n].append((sorted(out), sorted(tmp)))
                links(ctx, n, new_text, "books" if text is None else "books/.out", out)
                line_ops = [o for o in step["set"][n] if o[0] in ("show", "hash")]
                check_eq(len(re.findall(r"^!\[", new_text, re.M)),
                         len([o for o in line_ops if o[0] == "show" or o[5] is not None]) if not failed else
                         len(re.findall(r"^!\[", new_text, re.M)), f"images in the output of {n}")
            for n in names:
                for what, d, expected in (("snapshot files", f"books/{n}", snapshots[n]), ("files", f"books/.out/{n}", outputs[n]),
                                          ("temporary files", f"books/.out/{n}.tmp", temporary[n])):
                    got = files(d) if os.path.isdir(d) else {}
                    check_eq(got, expected, f"{what} of {n} {about}")
            known = set()
            for n in names:
                for k in snapshots[n]:
                    known.add(f"{n}/{k}")
                known.add(f"{n}.md")
            check_eq(sorted(k for k in files("books") if not k.startswith(".out/") and k not in known and k != "index.md"), [],
                     "other files in the book " + about)
    ctx.nontrivial(any(len(w) >= 2 and accepted[n] is not None and len(set(map(str, w))) > 1 for n, w in wrote.items()))


def links(ctx, n, text, base, out):
    """ images are found relative to the page """
    for line in text.split("\n"):
        if line.startswith("!["):
            target = line[line.index("](") + 2:-1]
            page = os.path.join(base, n + ".md")
            file = os.path.normpath(os.path.join(os.path.dirname(page), target))
            check(os.path.isfile(file), "image link", target, "of", n, "does not lead to a file from", page)
            inside = os.path.relpath(file, os.path.join(base, n))
            check(inside in out, "image link", target, "of", n, "leads to", file)
            ctx.label("links")


FILE = st.one_of(st.sampled_from(["f.txt", "g.png", "a", "a.md", ".hidden", "A b.txt", "x.tmp", "äö.dat", "$x;y'\"", "-r", "a.b.c", "~", "#"]),
                 st.text(alphabet=st.sampled_from("ab.é _-+"), min_size=1, max_size=10).filter(lambda x: x.strip(".") != ""))
CONTENT = st.one_of(st.sampled_from(["", "1", "2", "x" * 4096, "x" * 4097, "x" * 4096 + "y", "x" * 8192, "x" * 8192 + "z", "\n", "\r\n", "1\n"]),
                    st.text(max_size=8).filter(lambda x: not any("\ud800" <= c <= "\udfff" for c in x)),
                 st.builds(lambda n, end: "x" * n + end, st.sampled_from([65535, 65536, 65536, 100000, 200000, 1 << 20]), st.sampled_from(["", "y", "z"])))
IMAGE = st.text(alphabet="abc_-", min_size=1, max_size=5).map(lambda x: x + ".png")


@st.composite
def program(draw, may_fail=True):
    ops, used = [], {"file": {"h0"}, "tmp": {"h0"}}

    def name(at, strategy=FILE):
        f = draw(strategy.filter(lambda x: x not in used[at]))
        used[at].add(f)
        return f

    if rarely(draw, 2):
        ops.append(["look", "tmp", "probe"])
    for k in range(draw(st.integers(0, 5))):
        kind = draw(st.sampled_from(["file", "file", "tmp", "in dir", "hash", "show", "tln", "rel"]))
        at = draw(st.sampled_from(["file", "file", "tmp"]))
        if kind in ("file", "tmp"):
            if kind == "file" and not any(o[0] in ("file", "show") or (o[0] in ("hash", "in dir", "look") and o[1] == "file") for o in ops):
                ops.append(["look", "file", "probe"])
            ops.append([kind, name(kind), draw(CONTENT)])
        elif kind == "in dir":
            ops.append([kind, at, name(at), draw(FILE), draw(CONTENT)])
        elif kind == "hash":
            # two files of the same content get the same name
            content = draw(CONTENT.filter(lambda c: not any(o[0] == "hash" and o[3] == c for o in ops)))
            image = draw(st.sampled_from([None, [], ["alt"], [""]])) if at == "file" else None
            ops.append([kind, at, f"new{k}", content, draw(st.sampled_from([[], [".png"], ["-x"]])), image])
        elif kind == "rel":
            ops.append([kind, draw(st.sampled_from(["file", "dir", "page", "below", "sibling", "same prefix", "above", "root", "up"])), name("tmp"), draw(st.booleans())])
        elif kind == "show":
            ops.append([kind, name("file", IMAGE), draw(CONTENT), draw(st.sampled_from([[], ["alt"], ["two words"], [""]]))])
        else:
            ops.append(["tln", draw(st.sampled_from(["a", "b", "c"]))])
    if may_fail and rarely(draw, 6):
        ops.insert(draw(st.integers(0, len(ops))), draw(st.sampled_from([["fail"], ["raise", "ValueError", "x"]])))
        at = [k for k, o in enumerate(ops) if o[0] == "raise"]
        if at:
            ops = ops[:at[0] + 1]
    else:
        ops.append(["tln", "end " + draw(st.sampled_from("12"))])
    return ops


@st.composite
def cases(draw):
    names = draw(st.lists(st.sampled_from(NAMES), unique=True, min_size=1, max_size=3))
    steps, last = [], {}
    for _ in range(draw(st.integers(2, 5))):
        for n in names:
            if n not in last or rarely(draw, 2):
                last[n] = draw(program())
        args = draw(st.sampled_from([[], ["-a"], ["-a"], ["-u"], ["-a", "-u"], ["-v"], ["-a", "-p2"], ["-p3"], ["-c"], ["-c", "-a"], ["-c", "-u"], ["-c", "-p2"]]))
        select = [] if rarely(draw, 2) else draw(st.lists(st.sampled_from(names), unique=True, min_size=1))
        steps.append({"args": args, "select": select, "set": dict(last)})
    return {"names": names, "linked": draw(st.integers(0, 3)) == 3, "async": [draw(st.booleans()) for _ in names], "steps": steps}


CAMPAIGNS = [Campaign("histories", cases, oracle, 2400, 60000, hang_s=60)]
