"""
Helpers for running generated test programs through booktest's public interface in-process.
"""
import asyncio
import builtins
import contextlib
import io
import json
import logging
import os
import re
import sys
import types

import booktest as bt
import booktest.config

from vp.core import HarnessError, Violation, check, forget_config


class Result:
    def __init__(self, rv, out, err, exc=None, asked=0):
        self.rv = rv        # returned value
        self.out = out      # standard output
        self.err = err      # standard error
        self.exc = exc
        self.asked = asked  # number of questions asked

    @property
    def code(self):
        """ exit status as seen by the shell """
        return status(self.rv)


def status(rv):
    if rv is None:
        return 0
    if isinstance(rv, int):
        return rv & 0xff
    return 1


class NoMoreAnswers(BaseException):
    pass


def reset_config():
    forget_config()


# nothing has been read yet
reset_config()


@contextlib.contextmanager
def captured(answers=None):
    """ captures standard streams, and answers questions from a list, or by a function of what was written so far """
    out, err = io.StringIO(), io.StringIO()
    asked = [0]
    here = os.getpid()
    left = [] if callable(answers) else list(answers or [])

    def answer(prompt=""):
        if os.getpid() != here:
            raise EOFError("question in a worker process: " + str(prompt))
        out.write(str(prompt))
        asked[0] += 1
        if callable(answers):
            a = answers(out.getvalue())
            out.write(a + "\n")
            return a
        if not left:
            raise NoMoreAnswers("question without an answer: " + str(prompt))
        a = left.pop(0)
        out.write(a + "\n")
        return a

    class Stdin(io.StringIO):
        def readline(self, *a):
            return answer() + "\n"

        def __iter__(self):
            return self

        def __next__(self):
            return self.readline()

        def read(self, *a):
            raise HarnessError("stdin read")

    old = sys.stdout, sys.stderr, sys.stdin, builtins.input
    sys.stdout, sys.stderr, sys.stdin, builtins.input = out, err, Stdin(), answer
    holder = types.SimpleNamespace(out=out, err=err, asked=asked, left=left)
    try:
        yield holder
    finally:
        sys.stdout, sys.stderr, sys.stdin, builtins.input = old


def run(cases, args=(), root="books", cache=None, answers=None, setup=None, extra=None, fresh_config=True):
    """
    Runs the arguments like 'booktest <args>' would for the cases, a list of [name, function] or a Tests object.
    """
    tests = cases if isinstance(cases, bt.Tests) else bt.Tests([list(c) for c in cases])
    if fresh_config:
        reset_config()
    with captured(answers) as c:
        if setup is None and extra is None:
            rv = tests.exec(root, list(args), cache)
        else:
            import argparse
            parser = argparse.ArgumentParser()
            tests.setup_parser(parser)
            rv = tests.exec_parsed(root, parser.parse_args(list(args)), cache, extra or {}, setup)
    result = Result(rv, c.out.getvalue(), c.err.getvalue(), None, c.asked[0])
    result.answers_left = c.left
    return result


# ---------------------------------------------------------------- reading what a run left

def read_bytes(file):
    with open(file, "rb") as f:
        return f.read()


def read_text(file):
    return read_bytes(file).decode("utf-8")


def exists(*parts):
    return os.path.exists(os.path.join(*parts))


def snapshot_text(root, name):
    file = os.path.join(root, name + ".md")
    return read_text(file) if os.path.exists(file) else None


def output_text(root, name):
    file = os.path.join(root, ".out", name + ".md")
    return read_text(file) if os.path.exists(file) else None


def tree(d):
    """ all the files under d: relative path -> content (directories: None) """
    rv = {}
    for base, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(base, f)
            rv[os.path.relpath(p, d)] = read_bytes(p) if not os.path.islink(p) else b"->" + os.readlink(p).encode()
        for n in dirs:
            rv[os.path.relpath(os.path.join(base, n), d) + "/"] = None
    return rv


def files(d):
    return {k: v for k, v in tree(d).items() if v is not None}


def book_files(root):
    """ the snapshots: everything in the book except .out and the index """
    return {k: v for k, v in files(root).items()
            if not k.startswith(".out/") and k != "index.md"} if os.path.isdir(root) else {}


def of_no_case(file, names):
    """ reports, measurements and working files of the runs themselves, which can be anything """
    if not file.startswith(".out/"):
        return False
    file = file[len(".out/"):]
    return not any(file in (n + ".md", n + ".txt", n + ".log", n + ".bin") or file.startswith((n + "/", n + ".tmp/")) for n in names)


def records(root):
    """ the case report: list of (name, verdict) """
    file = os.path.join(root, ".out", "cases.txt")
    rv = []
    if os.path.exists(file):
        for line in read_bytes(file).split(b"\n"):
            parts = line.split(b"\t")
            if len(parts) == 3 and parts[1] in (b"OK", b"DIFF", b"FAIL"):
                try:
                    float(parts[2])
                except ValueError:
                    continue
                rv.append((parts[0].decode("utf-8", "replace"), parts[1].decode()))
    return rv


def as_method(function, decorate=lambda f: f):
    """ a method of a test book, that does the same """
    import booktest as bt

    class MethodTestBook(bt.TestBook):
        def __init__(self):
            super().__init__("test/methods")

        @decorate
        def test_it(self, t):
            return function(t)

        @decorate
        async def test_async(self, t):
            return function(t)
    return MethodTestBook()


def verdict(root, name):
    found = [v for n, v in records(root) if n == name]
    return found[-1] if found else None


def report_marks(root, name):
    """ the per case report: list of (mark, rest of the line) """
    file = os.path.join(root, ".out", name + ".txt")
    lines = read_text(file).split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    return [(line[:2], line[2:]) for line in lines]


SUMMARY = re.compile(r"^(\d+)/(\d+) test (failed|succeeded) in \d+ ms", re.M)


def summary(out):
    """ (number of not OK, number of cases, names of not OK) of the console summary, or None """
    found = list(SUMMARY.finditer(out))
    if not found:
        return None
    m = found[-1]
    if m.group(3) == "succeeded":
        return 0, int(m.group(2)), []
    names = []
    for line in out[m.end():].split("\n")[1:]:
        if line.startswith("  "):
            names.append(line[2:])
        elif line.strip() and names:
            break
    return int(m.group(1)), int(m.group(2)), names


CASE_LINE = re.compile(r"^  (\S.*?)\.\.(?:.*?)(DIFFERED in \d+ ms|FAILED in \d+ ms|\d+ ms)?$", re.M)


# ---------------------------------------------------------------- test programs

class ProgramError(Exception):
    """ raised by generated tests """


LOG_LEVELS = {"debug": logging.DEBUG, "warning": logging.WARNING, "error": logging.ERROR, "info": logging.INFO, "critical": logging.CRITICAL}


def perform(t, ops):
    """ makes the calls of a generated program. returns the value of the last 'return' """
    for op in ops:
        k = op[0]
        if k == "t":
            t.t(op[1])
        elif k == "tln":
            t.tln(op[1])
        elif k == "i":
            t.i(op[1])
        elif k == "iln":
            t.iln(op[1])
        elif k == "h":
            t.h(op[1], op[2])
        elif k == "h1":
            t.h1(op[1])
        elif k == "h2":
            t.h2(op[1])
        elif k == "h3":
            t.h3(op[1])
        elif k == "header":
            t.header(op[1])
        elif k == "anchor":
            t.anchor(op[1])
        elif k == "anchorln":
            t.anchorln(op[1])
        elif k == "kv":
            t.keyvalueln(op[1], op[2])
        elif k == "tlist":
            t.tlist(op[1], op[2])
        elif k == "tset":
            t.tset(op[1], op[2])
        elif k == "ttable":
            t.ttable({c: v for c, v in op[1]})
        elif k == "tdf":
            t.tdf(data_frame(op[1], *op[2:]))
        elif k == "tformat":
            t.tformat(op[1])
        elif k == "assertln":
            t.assertln(op[1], op[2])
        elif k == "it":
            it = t.it(op[1], op[2])
            for c in op[3]:
                if c[0] == "contain":
                    it.must_contain(c[1])
                elif c[0] == "equal":
                    it.must_equal(c[1])
                elif c[0] == "be_a":
                    it.must_be_a({"int": int, "str": str, "list": list, "dict": dict, "bool": bool}[c[1]])
                elif c[0] == "apply":
                    it.must_apply(c[1], lambda x, v=c[2]: v)
        elif k == "ifloat":
            t.ifloatln(op[1], op[2])
        elif k == "imsln":
            t.imsln(lambda: op[1])
        elif k == "tmsln":
            t.tmsln(lambda: op[1], op[2])
        elif k == "image":
            f = t.file(op[1])
            with open(f, "wb") as h:
                h.write(op[2].encode())
            if op[3]:
                f = t.rename_file_to_hash(f, op[4])
            t.timage(f, *op[5])
        elif k == "file":
            with open(t.file(op[1]), "wb") as h:
                h.write(op[2].encode())
        elif k == "tmp":
            with open(t.tmp_file(op[1]), "wb") as h:
                h.write(op[2].encode())
        elif k == "in dir":
            # a file in a new directory of the test: of files, or temporary
            d = t.file(op[2]) if op[1] == "file" else t.tmp_dir(op[2])
            if op[1] == "file":
                os.makedirs(d)
            with open(os.path.join(d, op[3]), "wb") as h:
                h.write(op[4].encode())
        elif k == "look":
            from vp.behave import log_event
            f = t.file(op[2]) if op[1] == "file" else t.tmp_path(op[2])
            log_event(kind="look", case=t.test_path, at=op[1], found=os.listdir(os.path.dirname(f)))
        elif k == "rel":
            # the path of something as seen from the page of the test
            from vp.behave import log_event
            base = t.out_base_dir
            d, mine = {"file": (t.file(op[2]), None), "dir": (t.tmp_dir(op[2] + ".d"), None), "page": (base, "x.md"), "below": (base, "a/b.md"),
                       "sibling": (base + op[2], "f"), "same prefix": (base + "x", op[2]), "above": (os.path.dirname(os.path.abspath(base)), op[2]),
                       "root": ("/", op[2]), "up": (os.path.join(base, "a", ".."), op[2])}[op[1]]
            f = d if mine is None else os.path.join(d, mine)
            log_event(kind="rel", case=t.test_path, at=op[1], file=os.path.abspath(f), base=os.path.abspath(base),
                      relative=t.rel_path(os.path.relpath(f) if op[3] else os.path.abspath(f)))
        elif k == "hash":
            from vp.behave import log_event
            f = t.file(op[2]) if op[1] == "file" else t.tmp_file(op[2])
            with open(f, "wb") as h:
                h.write(op[3].encode())
            new = t.rename_file_to_hash(f, *op[4])
            log_event(kind="hash", case=t.test_path, old=f, new=new, content=op[3], postfix=op[4])
            if op[5] is not None:
                t.timage(new, *op[5])
        elif k == "show":
            with open(t.file(op[1]), "wb") as h:
                h.write(op[2].encode())
            t.timage(t.file(op[1]), *op[3])
        elif k == "fail":
            t.fail()
        elif k == "diff":
            t.diff()
        elif k == "stderr":
            sys.stderr.write(op[1])
        elif k == "log":
            logging.getLogger().log(LOG_LEVELS[op[1]], "%s", op[2])
        elif k == "nlog":
            logging.getLogger(op[1]).log(LOG_LEVELS[op[2]], "%s", op[3])
        elif k == "logexc":
            try:
                raise ProgramError(op[1])
            except ProgramError:
                logging.error("%s", op[1], exc_info=False)
        elif k == "print":
            print(op[1])
        elif k == "addhandler":
            logging.getLogger().addHandler(logging.StreamHandler(io.StringIO()))
        elif k == "replace stderr":
            sys.stderr = io.StringIO()
        elif k == "interrupt":
            raise KeyboardInterrupt()
        elif k == "raise":
            raise {"ValueError": ValueError, "KeyError": KeyError, "Program": ProgramError,
                   "Assertion": AssertionError, "OSError": OSError}.get(op[1], ProgramError)(op[2])
        elif k == "exit":
            sys.exit(op[1])
        elif k == "unstorable":
            return lambda: 1
        elif k == "return":
            return op[1]
        else:
            raise AssertionError(f"unknown op {op}")
    return None


def data_frame(table, index=None):
    """ the labels of columns and rows may be anything, also repeated """
    import pandas as pd
    df = pd.DataFrame({k: v for k, (_, v) in enumerate(table)})
    df.columns = [c for c, _ in table]
    if index is not None:
        df.index = index
    return df


def program(ops, log=None, name=None):
    def test(t):
        if log is not None:
            log.append(name)
        return perform(t, ops)
    return test


def async_program(ops, log=None, name=None):
    async def test(t):
        if log is not None:
            log.append(name)
        await asyncio.sleep(0)
        return perform(t, ops)
    return test


# ---------------------------------------------------------------- reference tokenizer

def ref_tokens(text):
    """ maximal runs of blanks, optionally signed decimal numbers, alphanumeric runs, single characters """
    rv = []
    at = 0
    n = len(text)
    while at < n:
        c = text[at]
        end = at
        if c in " \t":
            while end < n and text[end] in " \t":
                end += 1
        else:
            k = at + 1 if c in "+-" else at
            if k < n and text[k].isnumeric():
                end = k
                while end < n and text[end].isnumeric():
                    end += 1
                if end + 1 < n and text[end] == "." and text[end + 1].isnumeric():
                    end += 1
                    while end < n and text[end].isnumeric():
                        end += 1
            elif c.isalnum():
                while end < n and text[end].isalnum():
                    end += 1
            else:
                end = at + 1
        rv.append(text[at:end])
        at = end
    return rv


def norm_breaks(text):
    return text.replace("\r\n", "\n").replace("\r", "\n")


@contextlib.contextmanager
def in_loop(on=True):
    """ sequential runs are made by the asynchronous function, that is meant to be called from asynchronous code """
    import booktest.runs
    import booktest.tests
    real = getattr(booktest.tests, "run_tests", None)
    if not on:
        yield True
    elif real is None or not hasattr(booktest.runs, "run_tests_async"):
        yield False
    else:
        def run_tests(*args, **kwargs):
            async def main():
                return await booktest.runs.run_tests_async(*args, **kwargs)
            return asyncio.run(main())

        booktest.tests.run_tests = run_tests
        try:
            yield True
        finally:
            booktest.tests.run_tests = real
