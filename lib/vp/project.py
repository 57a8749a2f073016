"""
Generated suites: source text of a module defining `suite`, a Tests object over functions and parametrised books, that
can be run in this process, with forked workers, or from the command line.

spec = {"functions": [{"deps": [ref], "async": bool}],
        "books": [{"methods": [{"deps": [ref], "async": bool}], "instances": n, "base": earlier book or None}],
        "cases": [[name, ["f", i]] or [name, ["m", book, instance, method]], ...]}     in definition order
ref = ["f", i] | ["m", book, method] | ["res", value] | ["port", value] | ["id", value, identifier]
"""
import contextlib
import multiprocessing
import os
import sys
import types

from vp.core import HarnessError


def ref_source(ref, book=None):
    if ref[0] == "f":
        return f"f{ref[1]}"
    if ref[0] == "m":
        return f"test_m{ref[2]}" if ref[1] == book else f"B{ref[1]}.test_m{ref[2]}"
    if ref[0] == "res":
        return f"bt.Resource({ref[1]!r})"
    if ref[0] == "port":
        return f"bt.port({ref[1]!r})"
    if ref[0] == "id":
        return f"bt.Resource({ref[1]!r}, {ref[2]!r})"
    raise HarnessError(f"reference {ref}")


def function_source(name, f, book=None, decorators=()):
    rv = [f"@{d}" for d in decorators]
    deps = f.get("deps", [])
    rv += [f"@{d}" for d in f.get("outer", [])]
    if deps:
        rv.append("@bt.depends_on(" + ", ".join(ref_source(r, book) for r in deps) + ")")
    rv += [f"@{d}" for d in f.get("inner", [])]
    params = ", ".join((["self"] if book is not None else []) + ["t"] + [f"d{k}" for k in range(len(deps))])
    args = "[" + ", ".join(f"d{k}" for k in range(len(deps))) + "]"
    me = "self.param" if book is not None else "None"
    if f.get("async"):
        rv += [f"async def {name}({params}):", f"    return await abehave(t, {args}, {me})"]
    else:
        rv += [f"def {name}({params}):", f"    return behave(t, {args}, {me})"]
    return rv


def order_of(spec):
    """ functions and books in an order in which each is defined after what it refers to """
    functions, books = spec.get("functions", []), spec.get("books", [])
    left = [("f", i) for i in range(len(functions))] + [("b", i) for i in range(len(books))]

    def needs(item):
        refs = []
        if item[0] == "f":
            refs = functions[item[1]].get("deps", [])
        else:
            for m in books[item[1]]["methods"]:
                refs = refs + m.get("deps", [])
        rv = set()
        for r in refs:
            if r[0] == "f":
                rv.add(("f", r[1]))
            elif r[0] == "m" and not (item[0] == "b" and item[1] == r[1]):
                rv.add(("b", r[1]))
        if item[0] == "b" and books[item[1]].get("base") is not None:
            rv.add(("b", books[item[1]]["base"]))
        return rv

    rv = []
    while left:
        ready = [x for x in left if not (needs(x) & set(left))]
        if not ready:
            raise HarnessError("dependencies have a cycle")
        rv.append(ready[0])
        left.remove(ready[0])
    return rv


def source(spec):
    rv = ["import booktest as bt", "from vp.behave import abehave, behave, log_event", ""]
    rv += spec.get("preamble", [])
    for kind, i in order_of(spec):
        if kind == "f":
            rv += function_source(f"f{i}", spec["functions"][i]) + [""]
        else:
            base = spec["books"][i].get("base")
            rv += [f"class B{i}({'bt.TestBook' if base is None else f'B{base}'}):",
                   "    def __init__(self, path, param):",
                   f"        super().__init__(path{'' if base is None else ', param'})",
                   "        self.param = param", ""]
            for j, m in enumerate(spec["books"][i]["methods"]):
                rv += ["    " + line for line in function_source(f"test_m{j}", m, i)] + [""]
    rv.append("books = {")
    for i, b in enumerate(spec.get("books", [])):
        for k in range(b["instances"]):
            rv.append(f"    ({i}, {k}): B{i}('test/book{i}/p{k}', {k}),")
    rv += ["}", "suite = bt.Tests(["]
    for name, ref in spec["cases"]:
        if ref[0] == "f":
            rv.append(f"    [{name!r}, f{ref[1]}],")
        else:
            rv.append(f"    [{name!r}, books[({ref[1]}, {ref[2]})].test_m{ref[3]}],")
    rv += ["])", ""]
    return "\n".join(rv)


MODULE = "vp_generated_suite"


@contextlib.contextmanager
def loaded(spec):
    """ the suite as a Tests object of this process """
    module = types.ModuleType(MODULE)
    module.__file__ = MODULE + ".py"
    sys.modules[MODULE] = module
    try:
        exec(compile(source(spec), MODULE + ".py", "exec"), module.__dict__)
        yield module.suite
    finally:
        sys.modules.pop(MODULE, None)


@contextlib.contextmanager
def forked_workers():
    """ worker processes are forked instead of spawned, which is about 20 times faster and knows the generated module """
    contexts = multiprocessing.context._concrete_contexts
    real = dict(contexts)
    for method in contexts:
        # however the context is asked for
        contexts[method] = real["fork"]
    try:
        yield
    finally:
        contexts.update(real)
        for p in multiprocessing.active_children():
            p.kill()
            p.join(5)


def write_project(spec, d, setup_source=None):
    os.makedirs(os.path.join(d, "test"), exist_ok=True)
    with open(os.path.join(d, "test", "__init__.py"), "w"):
        pass
    with open(os.path.join(d, "test", "x_suite.py"), "w") as f:
        f.write(source(spec))
    if setup_source is not None:
        with open(os.path.join(d, "test", "__booktest__.py"), "w") as f:
            f.write(setup_source)


def dependency_cases(spec):
    """ case name -> list of (position in arguments, name of the case or None, value of a resource) in declaration order """
    by_ref = {}
    for name, ref in spec["cases"]:
        by_ref.setdefault(tuple(ref), name)
    rv = {}
    for name, ref in spec["cases"]:
        f = spec["functions"][ref[1]] if ref[0] == "f" else spec["books"][ref[1]]["methods"][ref[3]]
        deps = []
        for r in f.get("deps", []):
            if r[0] == "f":
                deps.append((by_ref.get(("f", r[1])), None))
            elif r[0] == "m":
                if ref[0] == "m" and ref[1] == r[1] and ("m", r[1], ref[2], r[2]) in by_ref:
                    deps.append((by_ref[("m", r[1], ref[2], r[2])], None))
                else:
                    found = [n for n, x in spec["cases"] if x[0] == "m" and x[1] == r[1] and x[3] == r[2]]
                    deps.append((found[0] if found else None, None))
            else:
                deps.append((None, r[1]))
        rv[name] = deps
    return rv
