import booktest as bt
from hypothesis import strategies as st

from vp.behave import begun, set_behaviour, take_events
from vp.core import Campaign, check, check_eq
from vp.history import VALUES, History, behaviours, dependency_specs, steps
from vp.project import dependency_cases, forked_workers, loaded
from vp.world import output_text, records, run, snapshot_text

PROPERTY = "C10"
RULE = ("random acyclic suites of functions and parametrised books in random definition order, and histories of runs with changing "
        "values, verdicts, selections, refresh and continue flags over one memory cache of any kind (or parallel), each run judged "
        "on execution order and on every received argument; non-trivial: at least 2 dependencies received, one of them from an "
        "earlier run or after its value changed")


def make_cache(kind):
    if kind is None:
        return None
    if kind == "dict":
        return {}
    if kind == "none":
        return bt.cache.NoCache()
    return bt.cache.LruCache(kind)


def oracle(case, ctx):
    h = History(case["spec"], ctx, ["executed", "stored"])
    h.cache = make_cache(case["cache"])
    ctx.label(f"cache {case['cache']}")
    instances = {n: (ref[2] if ref[0] == "m" else None) for n, ref in case["spec"]["cases"]}
    latest, versions = {}, {}
    received = reused = 0
    with h.open():
        h.set(case["start"])
        for step in case["steps"]:
            h.set(step["set"])
            rv = h.command(step["cmd"], step["args"], step.get("answers", ()))
            if step["cmd"] != "run":
                if step["cmd"] == "clean":
                    latest.clear()
                    h.cache = make_cache(case["cache"])
                continue
            p, before, after, result, events = rv
            parallel = any(a.startswith("-p") for a in step["args"])
            ctx.label("parallel" if parallel else "sequential")
            order = begun(events)
            args = {e["case"]: e["args"] for e in events if e["kind"] == "begin"}
            check_eq({e["case"]: e["instance"] for e in events if e["kind"] == "begin"},
                     {n: instances[n] for n in order}, "test book instances")
            known = dict(latest)
            # dependencies run in this run come before their dependents
            for n in p.todo:
                for d in h.deps[n]:
                    if d in order and n in order:
                        check(order.index(d) < order.index(n), n, "was run before its dependency", d, order)
            for n in p.todo:
                if n in p.executed:
                    expected = []
                    for d, value in h.dep_spec[n]:
                        if d is None:
                            expected.append(value)
                        else:
                            expected.append(known[d])
                            received += 1
                            if d not in p.executed:
                                reused += 1
                    check_eq(args[n], expected, f"arguments of {n} depending on {h.dep_spec[n]} with {step['args']}")
                if n in p.verdicts and p.verdicts[n] != "FAIL":
                    known[n] = p.returned[n]
                if n in p.missing_dependency and n in p.verdicts:
                    check_eq(dict(after.records).get(n), "FAIL", f"verdict of {n} that lacks a dependency")
            latest = known
    ctx.label("received", received)
    ctx.label("reused", reused)
    ctx.nontrivial(received >= 2 and reused >= 1)


@st.composite
def cases(draw, parallel=0):
    spec = draw(dependency_specs(max_books=draw(st.sampled_from([0, 1, 1, 2, 2, 2, 3]))))
    names = [n for n, _ in spec["cases"]]
    kw = dict(fail=8, files=False, values=VALUES, modes=[[], [], ["-a"], ["-u"]], extra=["-r", "-r", "-c", "-f", "-v"], select=2)
    if parallel:
        kw["parallel"] = parallel
        kw["extra"] = ["-r", "-c"]
    return {
        "spec": spec,
        "start": {n: draw(behaviours(fail=10, files=False, values=VALUES)) for n in names},
        "cache": None if parallel else draw(st.sampled_from([None, "dict", "dict", "none", 1, 1, 2, 3, 8])),
        "steps": draw(st.lists(steps(names, ["run"] * 12 + ["clean"], **kw), min_size=2, max_size=3 if parallel else 6)),
    }


def outsiders(case, ctx):
    """ tests that depend on something that is not a test of the suite fail, and so do the ones that need them. the others are run """
    spec = case["spec"]
    names = [n for n, _ in spec["cases"]]
    deps = dependency_cases(spec)
    values = case["values"]
    ok = {}

    def passes(n):
        if n not in ok:
            ok[n] = all(passes(d) if d is not None else value is not None for d, value in deps[n])
        return ok[n]

    with loaded(spec) as suite, forked_workers():
        set_behaviour({n: {"ops": [["tln", n], ["return", values[k % len(values)]]]} for k, n in enumerate(names)})
        for args in case["runs"]:
            take_events()
            result = run(suite, args + ["*"])
            events = take_events()
            got = dict(records("books"))
            for n in names:
                if passes(n):
                    check_eq(got.get(n), "OK" if "-a" in args else got.get(n), f"verdict of {n} with {args}")
                    check(got.get(n) in ("OK", "DIFF"), "verdict of", n, got.get(n), "with", args)
                    mine = [e for e in events if e["kind"] == "begin" and e["case"] == n]
                    check_eq([e["args"] for e in mine],
                             [[value if d is None else values[names.index(d) % len(values)] for d, value in deps[n]]],
                             f"arguments of {n} with {args}")
                else:
                    check_eq(got.get(n), "FAIL", f"verdict of {n}, which lacks a dependency, with {args}")
                    check_eq([e for e in events if e["case"] == n], [], f"events of {n}, which lacks a dependency, with {args}")
                    check(output_text("books", n) is not None, "output of", n, "is missing")
                    check(snapshot_text("books", n) is None, n, "lacks a dependency and has a snapshot")
            check_eq(sorted(got), sorted(names), "reported cases")
            check_eq(result.code == 0, all(passes(n) for n in names) and all(v == "OK" for v in got.values()), f"exit {result.code} with {args}")
    lacking = [n for n in names if not passes(n)]
    ctx.label("lack a dependency", len(lacking))
    ctx.nontrivial(lacking and len(lacking) < len(names))


@st.composite
def outsider_cases(draw):
    spec = draw(dependency_specs(min_functions=2, max_functions=5, max_books=draw(st.sampled_from([0, 0, 1, 2])), resources=False))
    functions = [c for c in spec["cases"] if c[1][0] == "f"]
    leave = draw(st.lists(st.sampled_from(functions), unique_by=str, min_size=1, max_size=2))
    kept = [c for c in spec["cases"] if c not in leave]
    if not kept:
        kept = functions[-1:]
    spec["cases"] = kept
    mode = draw(st.sampled_from([[], [], [], ["-p2"], ["-p3"]]))
    return {"spec": spec, "values": draw(st.lists(VALUES, min_size=1, max_size=4)),
            "runs": [draw(st.sampled_from([[], ["-a"], ["-a", "-u"], ["-v"]])) + mode for _ in range(draw(st.integers(1, 2)))]}


CAMPAIGNS = [
    Campaign("outsiders", outsider_cases, outsiders, 400, 8000, hang_s=60),
    Campaign("sequential", cases, oracle, 3200, 80000, hang_s=60),
    Campaign("parallel", lambda: cases(parallel=1), oracle, 240, 8000, hang_s=60),
]
