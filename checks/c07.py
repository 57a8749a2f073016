from hypothesis import strategies as st

from vp.core import Campaign, check, check_eq
from vp.history import histories, play
from vp.world import run, snapshot_text

PROPERTY = "C07"
RULE = ("histories of runs (sequential and parallel), reviews and read-only commands with random flags, selections and answers over "
        "tests that change text, files and outcome between the steps, each step judged against a model of acceptance; non-trivial: "
        "at least one acceptance over an existing snapshot, and a case that differs or fails and keeps its snapshot")


def oracle(case, ctx):
    seen = set()

    def each(h, step, rv):
        p, before, after, result, events = rv
        if p is None:
            return
        for n, v in p.verdicts.items():
            if n in p.accepted:
                seen.add("accepted again" if before.snapshots[n] is not None else "accepted")
                if before.snapshot_files[n] and before.snapshot_files[n] != p.snapshot_files[n]:
                    seen.add("files replaced")
                # the verdict becomes OK
                check_eq(dict(after.records).get(n), "OK", f"verdict of accepted {n}")
            elif v != "OK":
                seen.add("kept" if before.snapshots[n] is not None else "not created")
    play(case, ctx, ["snapshots", "readonly"], each)
    for s in seen:
        ctx.label(s)
    ctx.nontrivial("accepted again" in seen and "kept" in seen)


def cases():
    return histories(["run"] * 8 + ["review"] * 3 + ["forget", "list", "print", "path", "garbage", "config", "clean"],
                     min_names=2, min_steps=4, max_steps=9, parallel=40)


def nested_oracle(case, ctx):
    """ a test, whose name continues the name of the accepted one """
    outer, inner = case["names"]
    text = {outer: "1", inner: "1"}
    suite = [[n, lambda t, n=n: t.tln(text[n])] for n in (outer, inner)]
    check_eq(run(suite, ["-a"]).code, 0, "accepting run")
    before = snapshot_text("books", inner)
    text[outer] = "2"
    check_eq(run(suite, ["-a", outer, "skip:" + inner]).code, 0, "accepting run")
    check_eq(snapshot_text("books", inner), before, f"snapshot of {inner} after accepting {outer}")


CAMPAIGNS = [Campaign("histories", cases, oracle, 3200, 80000, hang_s=60),
             Campaign("nested names", None, nested_oracle, 1, 1, sequence=lambda: [{"names": ["test/s/a", "test/s/a/b"]}],
                      probe="nested-names")]
