import importlib
import os
import re
import sys

from hypothesis import strategies as st

import booktest as bt
import numpy  # the generated modules use it, and must not load it again and again
from booktest.testsuite import decorate_tests

from vp import cli
from vp.core import Campaign, check, check_eq
from vp.history import rarely
from vp.world import records, run, snapshot_text

PROPERTY = "C29"
RULE = ("random trees of directories and modules with functions, books, subclasses, instances, suites, imports between the modules and "
        "things that are no tests; the names found in this process and by the command line tool are compared with the ones derived "
        "from the tree, and running everything must run under each name the function that belongs to it. algebra: merge, drop_prefix "
        "and decorate_tests on random nested suites. non-trivial: at least 4 tests from 2 kinds of definitions")

AFFIX = re.compile(r"(_?test_?book|_?book|_?test)$")


def clean(name):
    return AFFIX.sub("", name.lower())


def snake(name):
    return re.sub(r"(?<=[^A-Z])(?=[A-Z])", "_", name).lower()


def class_path(module, name):
    """ module: path of the file without its extension """
    d, f = os.path.split(module)
    parts = d.split("/") + [clean(f)]
    c = clean(snake(name))
    if c.replace("_", "") != clean(f).replace("_", ""):
        parts.append(c)
    return "/".join(parts)


def is_test_file(name):
    return name.endswith(("_test.py", "_book.py", "_suite.py")) or (name.startswith("test_") and name.endswith(".py"))


def join(a, b):
    return a + b if a.endswith("/") else a + "/" + b


# ---------------------------------------------------------------- sources

def method_source(form, name, tag, me=False):
    params = ("self, " if me else "") + "t"
    body = f"t.tln({tag!r}" + (" + f' {self.param}'" if me and form == "param" else "") + ")"
    if form == "async":
        return [f"async def {name}({params}):", f"    {body}"]
    if form == "decorated":
        return ["@bt.setup_teardown(nothing)", f"def {name}({params}):", f"    {body}"]
    if form == "depends":
        return ["@bt.depends_on(bt.port(1))", f"def {name}({params}, p):", f"    {body}"]
    if form == "default":
        return [f"def {name}({params}, x=1):", f"    {body}"]
    if form == "array":
        # the default does not compare to other values
        return [f"def {name}({params}, x=DATA):", f"    {body}"]
    if form == "lambda" and not me:
        return [f"{name} = lambda t: report(t, {tag!r})"]
    return [f"def {name}({params}):", f"    {body}"]


def source(path, items):
    rv = ["import booktest as bt", "import numpy", "", "DATA = numpy.array([1, 2])", "", "def nothing():", "    yield", "", "def report(t, tag):", "    t.tln(tag)", ""]
    for k, item in enumerate(items):
        kind = item["kind"]
        if kind == "function":
            rv += method_source(item["form"], item["name"], f"{path}:{item['name']}") + [""]
        elif kind == "book":
            base = item.get("base") or "bt.TestBook"
            rv += [f"class {item['name']}({base}):"]
            init = item["init"]
            if init != "none":
                params = {"default": "self, param=7", "args": "self, *args", "kwargs": "self, **kwargs", "required": "self, param",
                          "named": "self"}[init]
                if init == "named":
                    call = f"bt.TestBook.__init__(self, name={item['title']!r})"
                elif init == "required":
                    call = "bt.TestBook.__init__(self, f'test/param/{param}')"
                else:
                    call = "bt.TestBook.__init__(self)"
                rv += [f"    def __init__({params}):", f"        {call}",
                       f"        self.param = {'param' if init in ('default', 'required') else '0'}", ""]
            for f in item["methods"]:
                rv += ["    " + x for x in method_source(f["form"], f["name"], f"{path}:{item['name']}.{f['name']}", True)] + [""]
            rv += ["    " + x for x in item["extra"]] + ["    def helper(self):", "        pass", ""]
        elif kind == "instance":
            rv += [f"{item['name']} = {item['class']}({item['argument']!r})", ""]
        elif kind == "alias":
            rv += [f"{item['name']} = {item['of']}", ""]
        elif kind == "suite":
            for j, n in enumerate(item["cases"]):
                rv += [f"def s{k}_{j}(t):", f"    t.tln({path + ':' + item['name'] + '.' + n!r})", ""]
            cases = "[" + ", ".join(f"[{n!r}, s{k}_{j}]" for j, n in enumerate(item["cases"])) + "]"
            rv += [f"{item['name']} = bt.TestSuite({item['prefix']!r}, {cases})" if item["prefix"] else f"{item['name']} = bt.Tests({cases})", ""]
        elif kind == "import":
            rv += [f"from {item['module'].replace('/', '.')} import {item['what']}" + (f" as {item['as']}" if item["as"] else ""), ""]
        elif kind == "text":
            rv += item["lines"] + [""]
    return "\n".join(rv)


def expected_tests(case):
    """ name -> set of texts that may be written under it, and the lists of names that have an order """
    rv, orders = {}, []
    definitions = {}
    for path, items in case["files"].items():
        for item in items:
            if item["kind"] in ("function", "book", "suite", "instance"):
                definitions[path[:-3], item["name"]] = item

    def add(name, text):
        rv.setdefault(name, []).append(text)

    def add_book(path, book):
        """ the book made without arguments """
        base = class_path(path, book["name"])
        if book["init"] == "named":
            base = "/".join(base.split("/")[:-1] + [book["title"]])
        order = []
        for f in book["methods"]:
            add(join(base, f["name"][5:]), f"{path}.py:{book['name']}.{f['name']}" + ("" if f["form"] != "param" else
                                                                                     f" {7 if book['init'] == 'default' else 0}"))
            order.append(join(base, f["name"][5:]))
        orders.append(order)

    for path, items in case["files"].items():
        if not is_test_file(os.path.basename(path)):
            continue
        stem = path[:-3]
        for item in items:
            owner, what, name = stem, item, item.get("name")
            if item["kind"] == "import":
                owner, what, name = item["module"], definitions[item["module"], item["what"]], item["as"] or item["what"]
            if item["kind"] == "alias":
                what = definitions[stem, item["of"]]
            kind = what["kind"]
            if kind == "function" and name.startswith("test_"):
                add(join(f"{os.path.dirname(path)}/{clean(os.path.basename(stem))}", name[5:]), f"{owner}.py:{what['name']}")
            elif kind == "book" and what["init"] != "required":
                add_book(owner, what)
            elif kind == "instance":
                book = definitions[owner, what["class"]]
                order = []
                for f in book["methods"]:
                    n = f"test/param/{what['argument']}/{f['name'][5:]}"
                    add(n, f"{owner}.py:{book['name']}.{f['name']}" + (f" {what['argument']}" if f["form"] == "param" else ""))
                    order.append(n)
                orders.append(order)
            elif kind == "suite":
                order = []
                for n in what["cases"]:
                    full = join(what["prefix"], n) if what["prefix"] else n
                    add(full, f"{owner}.py:{what['name']}.{n}")
                    order.append(full)
                orders.append(order)
    return rv, orders


def write_tree(case):
    for path, items in case["files"].items():
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write(source(path, items))
    for path in case["others"]:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write("def test_no(t):\n    raise Exception('not a test file')\n")
    dirs = sorted(set(os.path.dirname(p) for p in case["files"]))
    for d in sorted(set("/".join(d.split("/")[:k]) for d in dirs for k in range(1, d.count("/") + 2))):
        if d not in case["namespaces"]:
            with open(d + "/__init__.py", "w"):
                pass


def check_written(n, names):
    """ tests of one name, or of names that differ by an empty part only, share their files """
    texts = [t for m in names for t in names[m] if os.path.normpath(m) == os.path.normpath(n)]
    check(snapshot_text("books", n) in [t + "\n" for t in texts], "test", n, "wrote", snapshot_text("books", n), "instead of one of", texts)


def in_process(case, ctx):
    write_tree(case)
    names, orders = expected_tests(case)
    before = set(sys.modules)
    hidden = {k: sys.modules.pop(k) for k in list(sys.modules) if k == "test" or k.startswith("test.")}
    sys.path.insert(0, os.getcwd())
    importlib.invalidate_caches()
    try:
        tests = bt.detect_test_suite("test")
        found = [c[0] for c in tests.cases]
        check_eq(sorted(set(found)), sorted(names), "tests found")
        listed = run(tests, ["-l", "*"]).out
        check_eq(sorted(x[2:] for x in listed.split("\n")[:-1]), sorted(names), "tests listed")
        for order in orders:
            if all(len(names[n]) == 1 for n in order):
                check_eq([n for n in found if n in order], order, "order of the cases of a book or suite")
        r = run(tests, ["-a", "*"])
        check_eq(r.code, 0, "exit status of the run, output", r.out)
        check_eq(sorted(n for n, _ in records("books")), sorted(names), "tests run")
        for n, texts in names.items():
            check_written(n, names)
            if len(texts) > 1:
                ctx.label("found in several places")
    finally:
        for k in set(sys.modules) - before:
            del sys.modules[k]
        for k in [k for k in sys.modules if k == "test" or k.startswith("test.")]:
            del sys.modules[k]
        sys.modules.update(hidden)
        for p in list(sys.path_importer_cache):
            if p.startswith(os.getcwd()) or p == ".":
                del sys.path_importer_cache[p]
    kinds = set(i["kind"] for items in case["files"].values() for i in items)
    for k in kinds:
        ctx.label(k)
    ctx.label("tests", len(names))
    ctx.nontrivial(len(names) >= 4 and len(kinds - {"text"}) >= 2)


def by_tool(case, ctx):
    write_tree(case)
    names, orders = expected_tests(case)
    r = cli.booktest(["-l", "*"], ".")
    check_eq(r.code, 0, "exit status of -l:", r.err[-1500:])
    check_eq(sorted(x[2:] for x in r.out.split("\n")[:-1]), sorted(names), "tests listed")
    r = cli.booktest(["-l"], ".")
    check_eq(sorted(x[2:] for x in r.out.split("\n")[:-1]), sorted(n for n in names if n.startswith(("test/", "book/"))), "tests listed by default")
    r = cli.booktest(["-a", "*"] + case["flags"], ".")
    check_eq(r.code, 0, "exit status of the run, output", r.out[-1500:], r.err[-1500:])
    check_eq(sorted(n for n, _ in records("books")), sorted(names), "tests run")
    for n, texts in names.items():
        check_written(n, names)
    ctx.nontrivial(len(names) >= 4)
    ctx.label("tests", len(names))


# ---------------------------------------------------------------- generators

DIRS = ["test", "test/sub", "test/sub/deep", "test/Other", "test/test_dir", "test/book", "test/a"]
FILES = ["a_test.py", "b_book.py", "c_suite.py", "test_d.py", "foo_book.py", "foo_bar_test.py", "x_testbook_book.py", "e_test_book.py",
         "test_f_test.py", "Foo_test.py", "testbook_suite.py", "test_testbook.py", "a2_book.py", "http_server_book.py", "x__test.py", "_g_test.py", "test_h_book.py", "test_itestbook.py", "test_jtest_book.py"]
LIBRARIES = ["helper.py", "mybook.py", "testing.py", "tests.py", "book.py", "atest.py"]
OTHERS = ["notes_test.txt", "x_test.pyc.txt", "data_book.json", "README_test", "x_test.py.bak", "test_x.pyx"]
FUNCTIONS = ["test_x", "test_y", "test_test", "test_Upper", "test_a_b", "test__z", "test_book", "test_1", "test_test_x",
             "test_a_test_b", "test_x_", "test_é"]
NOT_TESTS = ["helper", "my_test_x", "Test_x", "_test_x", "testx", "run_test"]
CLASSES = ["FooBook", "FooBarTestBook", "HTTPServer", "HttpServer", "ATest", "A", "Book", "CamelCaseBook", "FooBar", "Test", "A2", "XTestBookTest", "foo_book",
           "A1B", "V2Server3", "_Hidden", "Foo_Bar", "Foo__BarBook", "KTESTTestBook", "Ltestbook", "MTESTBOOK"]
FORMS = ["plain", "plain", "async", "decorated", "depends", "default", "array"]


@st.composite
def module_items(draw, path, importable):
    rv, used = [], set()

    def fresh(pool):
        left = [p for p in pool if p not in used]
        if not left:
            return None
        n = draw(st.sampled_from(left))
        used.add(n)
        return n

    for _ in range(draw(st.integers(0, 7))):
        kind = draw(st.sampled_from(["function"] * 4 + ["book"] * 3 + ["instance", "instance", "suite", "import", "import", "text", "alias"]))
        if kind == "function":
            n = fresh(FUNCTIONS + NOT_TESTS[:3])
            if n:
                rv.append({"kind": kind, "name": n, "form": draw(st.sampled_from(FORMS + ["lambda"]))})
        elif kind == "book":
            n = fresh(CLASSES)
            if n:
                bases = [i["name"] for i in rv if i["kind"] == "book" and i["init"] == "none"]
                init = draw(st.sampled_from(["none", "none", "none", "default", "args", "kwargs", "required", "required", "named"]))
                names = draw(st.lists(st.sampled_from(FUNCTIONS), unique=True, max_size=4))
                forms = [draw(st.sampled_from(FORMS + (["param"] if init != "none" else []))) for _ in names]
                rv.append({"kind": kind, "name": n, "init": init, "title": draw(st.sampled_from(["renamed", "new name"])),
                           "base": draw(st.sampled_from(bases)) if bases and rarely(draw, 3) else None,
                           "methods": [{"name": a, "form": b} for a, b in zip(names, forms)],
                           "extra": draw(st.sampled_from([[], [], ["test_data = 5"], ["test_path = 'x'", "other = None"],
                                                          ["@staticmethod", "def static():", "    pass"]]))})
        elif kind == "instance":
            books = [i["name"] for i in rv if i["kind"] == "book" and i["init"] == "required"]
            n = fresh(["book1", "book2", "test_book3", "_b"])
            if books and n:
                rv.append({"kind": kind, "name": n, "class": draw(st.sampled_from(books)), "argument": draw(st.sampled_from(["p1", "p2", "p3/q"]))})
        elif kind == "alias":
            of = [i["name"] for i in rv if i["kind"] in ("function", "book", "instance", "suite")]
            n = fresh(["test_alias", "Alias", "other"])
            if of and n:
                rv.append({"kind": kind, "name": n, "of": draw(st.sampled_from(of))})
        elif kind == "suite":
            n = fresh(["suite", "tests", "test_suite"])
            if n:
                rv.append({"kind": kind, "name": n, "prefix": draw(st.sampled_from(["", "test/s", "own/suite", "test/sub"])),
                           "cases": draw(st.lists(st.sampled_from(["c1", "c2", "deep/c3", "test/c4", "book/c5", "Z"]), unique=True, min_size=1))})
        elif kind == "import" and importable:
            module, what = draw(st.sampled_from(importable))
            if what not in used:
                alias = draw(st.sampled_from([None, None, "test_imported", "imported"]))
                if (alias or what) not in used:
                    used.add(alias or what)
                    rv.append({"kind": kind, "module": module, "what": what, "as": alias})
        elif kind == "text":
            rv.append({"kind": kind, "lines": draw(st.sampled_from([
                ["test_data = [1, 2]"], ["class TestFoo:", "    def test_x(self):", "        pass"], ["from booktest import TestBook"],
                ["from booktest import TestBook as Base"], ["from booktest import *"], ["import os.path as test_path"], ["test_none = None"],
                ["from booktest import Tests, TestSuite"], ["if __name__ == '__main__':", "    raise Exception()"]]))})
    return rv


@st.composite
def trees(draw, flags=False):
    paths = []
    for _ in range(draw(st.integers(1, 4))):
        name = draw(st.sampled_from(FILES + FILES + LIBRARIES))
        paths.append(draw(st.sampled_from(DIRS)) + "/" + name)
    paths = list(dict.fromkeys(paths))
    # a file and a directory of one name are one module
    paths = [p for p in paths if not any(q.startswith(p[:-3] + "/") for q in paths)]
    files, importable = {}, []
    for p in paths:
        files[p] = draw(module_items(p, importable))
        for i in files[p]:
            if i["kind"] in ("function", "book", "suite", "instance"):
                importable.append((p[:-3], i["name"]))
    # modules are written in the order in which they may import each other
    others = draw(st.lists(st.builds("{}/{}".format, st.sampled_from(DIRS[:3]), st.sampled_from(OTHERS)), max_size=2))
    rv = {"files": files, "others": others, "namespaces": [d for d in DIRS[1:] if rarely(draw, 6)]}
    if flags:
        # workers can't be given lambdas
        rv["flags"] = [] if "'lambda'" in str(files) else draw(st.sampled_from([[], ["-p2"]]))
    names, _ = expected_tests(rv)
    # one test's directory is not another test
    for n in names:
        if any(m.startswith(n + "/") for m in names):
            return {"files": {}, "others": [], "namespaces": [], "flags": []}
    return rv


# ---------------------------------------------------------------- algebra

def algebra(case, ctx):
    counter = {}

    def make(node):
        """ the object, and the names and marks of its cases """
        kind = node[0]
        if kind == "cases":
            cases = []
            for n in node[1]:
                counter[len(counter)] = n
                cases.append([n, (lambda t, k=len(counter) - 1: k)])
            return bt.Tests([list(c) for c in cases]), [(n, f(None)) for n, f in cases]
        if kind == "suite":
            inner, names = make(node[2])
            return bt.TestSuite(node[1], inner.cases), [(join(node[1], n), k) for n, k in names]
        if kind in ("merge", "list"):
            objects, names = [], []
            for c in node[1]:
                o, n = make(c)
                objects.append(o)
                names += n
            if kind == "merge":
                return bt.merge_tests(objects), names
            return objects, names
        if kind == "drop":
            inner, names = make(node[2])
            p = node[1] if node[1].endswith("/") else node[1] + "/"
            return bt.drop_prefix(node[1], inner), [(n[len(p):], k) for n, k in names if n.startswith(p)]
        if kind == "decorate":
            inner, names = make(node[2])
            return (decorate_tests(lambda f, m=node[1]: (lambda t: (m, f(t))), inner), [(n, (node[1], k)) for n, k in names])
    tests, names = make(["merge", [case]])
    check_eq([(c[0], c[1](None)) for c in tests.cases], names, "cases")
    check_eq(tests.all_names(), list(dict.fromkeys(n for n, _ in names)), "names")
    for n, k in names:
        check_eq(tests.get_case(n)(None), [x for m, x in names if m == n][0], f"case {n}")
    ctx.nontrivial(len(names) >= 3 and case[0] != "cases")
    ctx.label("cases", len(names))


PART = st.sampled_from(["a", "b", "ab", "a/b", "test", "test/a", "test/ab", "b/a"])


def suites():
    leaf = st.tuples(st.just("cases"), st.lists(PART, max_size=4)).map(list)

    def node(children):
        tests = children.filter(lambda c: c[0] != "list")
        return st.one_of(st.tuples(st.just("suite"), PART, tests).map(list),
                         st.tuples(st.just("merge"), st.lists(children, max_size=3)).map(list),
                         st.tuples(st.just("drop"), st.sampled_from(["a", "ab", "a/", "test", "test/", "test/a", "b"]), tests).map(list),
                         st.tuples(st.just("decorate"), st.integers(0, 9), children).map(list),
                         st.tuples(st.just("list"), st.lists(children, max_size=3)).map(list))
    return st.recursive(leaf, node, max_leaves=6)


CAMPAIGNS = [Campaign("trees", trees, in_process, 5600, 60000, hang_s=60),
             Campaign("command line", lambda: trees(True), by_tool, 64, 1600, hang_s=150),
             Campaign("algebra", suites, algebra, 4000, 100000)]
