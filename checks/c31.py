from hypothesis import strategies as st

from booktest.cache import LruCache, NoCache

from vp.behave import set_behaviour, take_events
from vp.core import Campaign, check, check_eq
from vp.history import VALUES, dependency_specs
from vp.project import dependency_cases, loaded
from vp.world import run

PROPERTY = "C31"
RULE = ("operations: random sequences of stores, reads, membership tests and lengths on caches of every size from 0 to 12 against a list "
        "ordered by use. runs: suites with dependencies run with every kind and size of cache give every test the values of a run "
        "with an unbounded cache. non-trivial: something was evicted, or (runs) more results than the cache holds")


def operations(case, ctx):
    size = case["size"]
    cache = LruCache(size) if size is not None else NoCache()
    model = []          # [key, value], least recently used first
    evicted = 0
    for op in case["ops"]:
        kind, key = op[0], op[1]
        key = tuple(key) if isinstance(key, list) else key
        known = [v for k, v in model if k == key]
        if kind == "set":
            cache[key] = op[2]
            if size is not None and key is not None:
                model = [m for m in model if m[0] != key] + [[key, op[2]]]
                if len(model) > size:
                    model.pop(0)
                    evicted += 1
        elif kind == "get":
            got = cache[key]
            check_eq(got, known[0] if known else None, f"value of {key!r} after {case['ops']}")
            if known:
                model = [m for m in model if m[0] != key] + [[key, known[0]]]
        elif kind == "in":
            check_eq(key in cache, bool(known), f"membership of {key!r} after {case['ops']}")
        check_eq(len(cache), len(model), f"length after {op} of {case['ops']}")
        if size is not None:
            check(len(cache) <= size, "more entries than", size)
    for k, v in model:
        check(k in cache, k, "is missing after", case["ops"])
    for k, v in model:
        check_eq(cache[k], v, f"value of {k!r} after {case['ops']}")
    keys = set(tuple(o[1]) if isinstance(o[1], list) else o[1] for o in case["ops"]) - {k for k, _ in model}
    for k in keys:
        check(k not in cache, k, "was evicted, but is in the cache")
    ctx.label("evictions", evicted)
    ctx.nontrivial(evicted > 0)


def runs(case, ctx):
    spec = case["spec"]
    deps = dependency_cases(spec)
    set_behaviour({n: {"ops": [["tln", n], ["return", case["values"][k % len(case["values"])]]]} for k, (n, _) in enumerate(spec["cases"])})
    values = {n: case["values"][k % len(case["values"])] for k, (n, _) in enumerate(spec["cases"])}
    with loaded(spec) as suite:
        cache = {"dict": dict, "none": NoCache}.get(case["cache"], lambda: LruCache(case["cache"]))()
        for args in case["runs"]:
            r = run(suite, args + ["*"], cache=cache)
            check_eq(r.code, 0, "exit status with cache", case["cache"], r.out)
            for e in take_events():
                if e["kind"] == "begin":
                    check_eq(e["args"], [values[d] if d is not None else v for d, v in deps[e["case"]]],
                             f"arguments of {e['case']} with cache {case['cache']}")
            if isinstance(case["cache"], int):
                check(len(cache) <= case["cache"], "more entries than", case["cache"])
    ctx.label(f"cache {case['cache']}")
    ctx.nontrivial(case["cache"] != "dict" and any(d is not None for v in deps.values() for d, _ in v)
                   and (case["cache"] == "none" or len(deps) > case["cache"]))


KEY = st.one_of(st.sampled_from("abcdefgh"), st.integers(0, 12), st.just(None), st.sampled_from(["", "a/b.bin"]),
                st.tuples(st.integers(0, 2), st.integers(0, 2)).map(list))
VALUE = st.one_of(st.none(), st.integers(), st.text(max_size=3), st.lists(st.integers(), max_size=2), st.booleans())

@st.composite
def operation_cases(draw):
    size = draw(st.one_of(st.integers(0, 5), st.integers(0, 12), st.just(None)))
    n = draw(st.integers(2, 8))
    keys = draw(st.lists(KEY, min_size=n, max_size=n))
    ops = draw(st.lists(st.one_of(st.tuples(st.just("set"), st.sampled_from(keys), VALUE), st.tuples(st.just("set"), st.sampled_from(keys), VALUE),
                                  st.tuples(st.sampled_from(["get", "get", "in"]), st.sampled_from(keys))).map(list), max_size=30))
    return {"size": size, "ops": ops}


@st.composite
def run_cases(draw):
    return {"spec": draw(dependency_specs(max_functions=6)), "values": draw(st.lists(VALUES, min_size=1, max_size=4)),
            "cache": draw(st.sampled_from(["dict", "none", 0, 1, 1, 2, 2, 3, 8])),
            "runs": [["-a"]] + draw(st.lists(st.sampled_from([["-a"], ["-a", "-r"], ["-a", "-v"]]), max_size=1))}


CAMPAIGNS = [Campaign("operations", operation_cases, operations, 16000, 600000),
             Campaign("runs", run_cases, runs, 1200, 30000)]
