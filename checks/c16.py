import hashlib
import json
import os
import threading

import booktest as bt
import httpx
import requests
from hypothesis import strategies as st

from vp.core import Campaign, check, check_eq
from vp.web import BODY, JSON, PATHS, Clients, arguments, b64, server
from vp.webcheck import changed_entry_points, entry_points, stored
from vp.world import files, read_text, run, verdict

PROPERTY = "C16"
RULE = ("histories of plain, completing (-s) and refreshing (-S) runs, with and without acceptance and reviews, of a test whose "
        "sequence of http calls changes between runs, against a server that gives a new answer at every hit or breaks the "
        "connection; model: a map from (call, repetition) to the accepted answer; non-trivial: at least 3 runs, one with answers "
        "partly from snapshots and partly captured")

NAME = "test/web"


def identity(call):
    """ what a call is on the wire """
    kw = arguments(call, "requests" if call["client"] in ("requests", "session") else "httpx")
    for k in ("allow_redirects", "follow_redirects", "headers"):
        kw.pop(k, None)
    url = "http://h" + call["path"]
    if call["client"] in ("requests", "session"):
        r = requests.Request(call["method"], url, **kw).prepare()
        body = r.body
        lib = "requests"
        u = r.url
    else:
        r = httpx.Request(call["method"], url, **kw)
        body = r.read()
        lib = "httpx"
        u = str(r.url)
    if isinstance(body, str):
        body = body.encode()
    return lib, call["method"], u[len("http://h"):], (body or b"").hex()


def listing(file):
    """ the exchanges a test lists, by library """
    rv, lines = {}, None
    for line in read_text(file).split("\n") if os.path.exists(file) else []:
        if line.startswith("# ") and "snap" in line:
            lines = rv.setdefault({"request": "requests"}.get(line.split()[1], line.split()[1]), [])
        elif line.startswith(" * ") and lines is not None:
            lines.append(line.strip())
    return rv


def oracle(case, ctx):
    s = server()
    points = entry_points()
    now = {"calls": None, "end": None, "values": None, "tested": True, "silent": False}
    broken = set()
    made = [0]
    lock = threading.Lock()

    def answer(hit):
        with lock:
            made[0] += 1
            if hit["path"].split("?")[0] in broken:
                return None
            return {"status": 200, "headers": [["Content-Type", "text/plain"]], "reason": None, "body": b64(f"answer {made[0]}".encode())}

    def body(t):
        clients = Clients()
        now["values"] = []
        try:
            for call in now["calls"]:
                r = clients.make(call, s.url)
                now["values"].append(r["text"] if call["method"] != "HEAD" else "head")
        finally:
            clients.close()
        key = [[identity(c) for c in now["calls"]], now["values"] if now["tested"] else None]
        if not now["silent"]:
            t.tln("state " + hashlib.sha1(json.dumps(key).encode()).hexdigest())
        if now["end"] == "fail":
            t.fail()
        elif now["end"] == "raise":
            raise KeyError("end")

    test = body
    for d in case["decorators"]:
        test = (bt.snapshot_requests() if d == "requests" else bt.snapshot_httpx())(test)
    cases = [[NAME, test]]

    snap = {}            # what is accepted: (identity, repetition) -> answer
    accepted = None      # the state line accepted
    silent = False       # whether it was left out
    last = None          # (verdict, what the last run used, its state)
    s.script(answer)
    try:
        runs = mixed = 0
        for step in case["steps"]:
            before = stored()
            now.update(calls=[case["pool"][i] for i in step["calls"]], end=step["end"], tested=step["tested"], silent=step["silent"])
            broken.clear()
            broken.update(step["broken"])
            about = f"in {step['cmd']} {step['args']}"
            s.take_hits()
            if step["cmd"] == "review":
                r = run(cases, ["-w"] + step["args"])
                check_eq(s.take_hits(), [], "requests sent " + about)
                if last is None:
                    continue
                check(bool(last), "no last")
                was, used, state, quiet = last
            else:
                runs += 1
                refresh, complete = "-S" in step["args"], "-s" in step["args"]
                # the model
                used, hits, failing, missing = {}, [], False, None
                counts = {}
                n = made[0]
                values = []
                for c in now["calls"]:
                    i = identity(c)
                    key = (i, counts.get(i, 0))
                    counts[i] = counts.get(i, 0) + 1
                    if key in snap and not refresh:
                        used[key] = snap[key]
                    elif refresh or complete:
                        hits.append(i)
                        n += 1
                        if c["path"] in broken:
                            failing = True
                            break
                        used[key] = "head" if c["method"] == "HEAD" else f"answer {n}"
                    else:
                        failing, missing = True, c
                        break
                    values.append(used[key])
                fails = failing or now["end"] is not None
                state = [[identity(c) for c in now["calls"]], values if now["tested"] else None]
                old = listing("books/" + NAME + ".md")
                now["values"] = None
                r = run(cases, step["args"])
                # what is accepted is moved
                out = "books/.out/" + NAME + ".md"
                new = {} if fails else listing(out if os.path.exists(out) else "books/" + NAME + ".md")
                if not fails:
                    # the exchanges are a part of the output
                    for d in case["decorators"]:
                        check_eq(len(new.get(d, [])), sum(1 for i, _ in used if i[0] == d), f"{d} exchanges listed {about}")
                    if accepted is not None and sorted(used) != sorted(snap):
                        check({d: sorted(x) for d, x in new.items()} != {d: sorted(x) for d, x in old.items()},
                              "listing", new, "of", sorted(used), "is the one of", sorted(snap), about)
                alike = accepted is not None and (step["silent"] or (state == accepted and not silent)) and \
                    all(x == old.get(d, [])[:len(x) if d == case["decorators"][-1] else None] for d, x in new.items())
                was = "FAIL" if fails else "OK" if alike else "DIFF"
                quiet = step["silent"]
                got = [(h["method"], h["path"], h["body"].hex()) for h in s.take_hits()]
                check_eq(got, [i[1:] for i in hits], "requests sent " + about)
                check_eq(now["values"], values, "answers received " + about)
                if missing is not None:
                    ctx.label("missing snapshot")
                    told = r.out + r.err + "".join(v.decode("utf-8", "replace") for k, v in files("books/.out").items()
                                                   if k.startswith(NAME))
                    url = s.url + identity(missing)[2]
                    check(url in told, "the missing request", url, "is not named " + about, told[-800:])
                if hits and len(hits) < len(values):
                    mixed += 1
                last = (was, used, state, quiet)
            accept = (was == "DIFF" and "-a" in step["args"]) or (was == "OK" and "-u" in step["args"])
            final = "OK" if accept else was
            check_eq(verdict("books", NAME), final, "verdict " + about, r.out[-600:])
            check_eq(r.code == 0, final == "OK", "exit status is 0 " + about)
            check(not changed_entry_points(points), "changed " + about, changed_entry_points(points))
            if accept:
                snap, accepted, silent = dict(used), state, quiet
                last = ("OK", used, state, quiet)
            else:
                check_eq(stored(), before, "snapshots " + about)
            ctx.label(f"{step['cmd']} {' '.join(a for a in step['args'] if a in ('-s', '-S'))} {final}")
        # what has been accepted suffices: a run without network and flags
        if accepted is not None:
            ctx.label("last replay")
            broken.update(PATHS)
            now.update(end=None)
            state_calls = accepted[0]
            by_identity = {identity(c): c for c in case["pool"]}
            now["calls"] = [by_identity[tuple(i)] for i in state_calls]
            now["tested"] = accepted[1] is not None
            now["silent"] = silent
            before = stored()
            r = run(cases, [])
            check_eq(s.take_hits(), [], "requests sent in the last replay")
            check_eq(verdict("books", NAME), "OK", "verdict of the last replay", r.out[-600:])
            check_eq(stored(), before, "snapshots in the last replay")
        ctx.nontrivial(runs >= 3 and mixed > 0)
    finally:
        s.script({})


@st.composite
def pool_calls(draw, client):
    method = draw(st.sampled_from(["GET", "GET", "POST", "PUT", "HEAD"]))
    return {"client": client, "method": method, "path": draw(st.sampled_from(PATHS)), "query": draw(st.sampled_from([None, None, {"x": "1"}, {"x": "2"}])),
            "headers": draw(st.sampled_from([{}, {}, {"X-Key": "1"}])), "body": draw(BODY) if method in ("POST", "PUT") else None,
            "redirects": True}


@st.composite
def cases(draw):
    decorators = draw(st.sampled_from([["requests"], ["requests"], ["httpx"], ["httpx"], ["requests", "httpx"], ["httpx", "requests"]]))
    pool = []
    for _ in range(draw(st.sampled_from([1, 2, 3, 4]))):
        lib = draw(st.sampled_from(decorators))
        pool.append(draw(pool_calls(draw(st.sampled_from(["requests", "requests", "session"] if lib == "requests" else ["httpx", "client"])))))
    unique = {}
    for c in pool:
        unique.setdefault(json.dumps(identity(c)), c)
    pool = list(unique.values())
    steps = []
    for k in range(draw(st.integers(2, 7))):
        steps.append({
            "cmd": "run" if k == 0 or draw(st.integers(0, 7)) else "review",
            "args": draw(st.sampled_from([["-s", "-a"], ["-S", "-a"]] if k == 0 else
                                         [[], [], ["-a"], ["-u"], ["-s"], ["-s", "-a"], ["-s", "-a"], ["-S"], ["-S", "-a"], ["-s", "-u"],
                                          ["-S", "-u"], ["-S", "-a", "-u"], ["-s", "-a", "-u"], ["-s", "-S", "-a"]])),
            "calls": draw(st.lists(st.integers(0, len(pool) - 1), min_size=draw(st.sampled_from([0, 1, 2, 3])), max_size=6)),
            "tested": draw(st.booleans()), "silent": draw(st.booleans()),
            "end": draw(st.sampled_from([None, None, None, None, None, None, "fail", "raise"])),
            "broken": draw(st.sampled_from([[], [], [], [], ["/a"], ["/a", "/b"]])),
        })
        if k and draw(st.integers(0, 2)) == 0:
            steps[-1]["calls"] = steps[-2]["calls"]
            steps[-1]["tested"] = steps[-2]["tested"]
        if steps[-1]["cmd"] == "review":
            steps[-1]["args"] = draw(st.sampled_from([[], ["-a"], ["-a"], ["-u"]]))
    return {"decorators": decorators, "pool": pool, "steps": steps}


CAMPAIGNS = [
    Campaign("histories", cases, oracle, 2400, 60000),
]
