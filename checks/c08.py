from hypothesis import strategies as st

from vp.core import Campaign, check, check_eq
from vp.history import behaviours, histories, play
from vp.quitting import oracle_of, quit_cases
from vp.world import in_loop

PROPERTY = "C08"
RULE = ("histories of runs (sequential and parallel), reviews and forgets with random verdicts, flags, selections and answers, each "
        "run judged against a model of report, console, exit status and order; parallel runs with a review that may be quit; histories whose runs are made from asynchronous code; suites of up to 130 cases; non-trivial: a run with verdicts of 2 kinds over "
        "earlier records of cases that it does not run, or one stopped early, or a parallel run quit before every case was reviewed")


def oracle(case, ctx):
    def each(h, step, rv):
        p, before, after, result, events = rv
        if p is None or step["cmd"] != "run":
            return
        kinds = set(p.final.values())
        for k in kinds:
            ctx.label(k)
        if p.stopped:
            ctx.label("stopped early")
        earlier = [n for n, _ in before.records if n not in p.todo]
        if earlier:
            ctx.label("earlier records")
        ctx.nontrivial(len(kinds) > 1 and (earlier or p.stopped))
        # the report holds one record per case
        names = [n for n, _ in after.records]
        check_eq(sorted(set(names)), sorted(names), "records by case")
    play(case, ctx, ["verdicts", "records", "exit", "summary", "console", "executed", "asked"], each)


def cases():
    return histories(["run"] * 5 + ["review", "forget"], min_names=2, max_names=5, min_steps=2, max_steps=6, parallel=15, fail=5,
                     select=2, extra=["-f", "-f", "-c", "-r", "-v", "-L"])


def in_event_loop(case, ctx):
    """ the asynchronous function for running tests, that is meant to be called from asynchronous code """
    with in_loop() as available:
        if available:
            oracle(case, ctx)
        else:
            ctx.label("not available")


def loop_cases():
    return histories(["run"] * 5 + ["review", "forget"], min_names=2, max_names=4, min_steps=2, max_steps=4, fail=5,
                     select=2, extra=["-f", "-f", "-c", "-r", "-v", "-L"])


@st.composite
def large_cases(draw):
    """ many cases """
    n = draw(st.sampled_from([11, 21, 33, 51, 65, 101, 130]))
    names = [f"test/{'abc'[i % 3]}{i % 7}/{i}" if i % 5 else f"book/{i}" for i in range(n)]
    pool = draw(st.lists(behaviours(fail=2, files=False), min_size=3, max_size=5)) + [[["tln", "a"]]]
    most = draw(st.integers(0, len(pool) - 1))

    def some():
        rv = {x: pool[most] for x in names}
        for _ in range(draw(st.integers(0, 12))):
            rv[names[draw(st.integers(0, n - 1))]] = pool[draw(st.integers(0, len(pool) - 1))]
        return rv

    def step():
        return {"cmd": "run", "set": some() if draw(st.booleans()) else {},
                "args": draw(st.sampled_from([[], ["-a"], ["-c"], ["-p4"], ["-p8", "-a"], ["-p3", "-c"], ["-f"], ["-v"]])) +
                draw(st.sampled_from([[], [], ["test"], ["skip:book"]]))}

    return {"names": draw(st.permutations(names)), "async": [i % 2 == 0 for i in range(n)], "start": some(),
            "steps": [step() for _ in range(draw(st.integers(1, 3)))]}


CAMPAIGNS = [Campaign("histories", cases, oracle, 3200, 80000, hang_s=60),
             Campaign("parallel reviews", quit_cases, oracle_of(["records", "exit", "summary"]), 120, 4000, hang_s=120),
             Campaign("event loop", loop_cases, in_event_loop, 480, 12000, hang_s=60),
             Campaign("many cases", large_cases, oracle, 64, 2000, hang_s=120)]
