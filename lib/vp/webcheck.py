""" recording and replaying generated http traffic: shared by the checks of requests and httpx """
import asyncio
import json
import os
import threading

import booktest as bt
import httpx
import requests
from hypothesis import strategies as st

from vp.core import check, check_eq
from vp.web import Clients, answers, calls, scripts, server
from vp.world import book_files, read_bytes, run, verdict


def entry_points():
    return {"requests.Session.send": requests.Session.__dict__.get("send"),
            "requests.Session.get_adapter": requests.Session.__dict__.get("get_adapter"),
            "requests.Session.request": requests.Session.__dict__.get("request"),
            "requests.adapters.HTTPAdapter.send": requests.adapters.HTTPAdapter.__dict__.get("send"),
            "httpx.HTTPTransport.handle_request": httpx.HTTPTransport.__dict__.get("handle_request"),
            "httpx.AsyncHTTPTransport.handle_async_request": httpx.AsyncHTTPTransport.__dict__.get("handle_async_request"),
            "httpx.Client.send": httpx.Client.__dict__.get("send")}


def changed_entry_points(before):
    return [k for k, v in entry_points().items() if v is not before[k]]


class Traffic:
    """ a test making the calls of a case and remembering what it saw """

    def __init__(self, case):
        self.case = case
        self.seen = None
        self.runs = 0
        self.left = []     # sessions and clients of the last run

    def sync(self, t):
        self.runs += 1
        clients = Clients()
        self.left.append(clients)
        url = server().url
        case = self.case
        self.seen = []
        if case.get("threads"):
            lanes = {}
            for k, call in enumerate(case["calls"]):
                lanes.setdefault(call["path"], []).append((k, call))
            seen = [None] * len(case["calls"])

            def lane(items):
                for k, call in items:
                    try:
                        seen[k] = clients.make(call, url)
                        # shared by the threads
                        seen[k].pop("jar", None)
                    except Exception as e:
                        seen[k] = repr(e)
            ts = [threading.Thread(target=lane, args=(items,)) for items in lanes.values()]
            for x in ts:
                x.start()
            for x in ts:
                x.join()
            self.seen = seen
        else:
            for call in case["calls"]:
                self.seen.append(clients.make(call, url))
        self.write(t)

    async def concurrent(self, t):
        self.runs += 1
        url = server().url
        case = self.case
        self.seen = []
        clients = Clients()
        async with httpx.AsyncClient(verify=False) as client:
            at = 0
            for size in case["groups"]:
                group = case["calls"][at:at + size]
                at += size
                # snapshots answer at once
                retried = case.get("retried", []) if self.runs == 1 else []
                self.seen += await asyncio.gather(*[
                    self.retried(clients, c, url, client) if k in retried else clients.amake(c, url, client) for k, c in enumerate(group)])
            for call in case["calls"][at:]:
                self.seen.append(await clients.amake(call, url, client))
        self.write(t)

    async def retried(self, clients, call, url, client):
        """ given up when there is no answer in 0.1 seconds, and made again """
        try:
            return await asyncio.wait_for(clients.amake(call, url, client), 0.1)
        except asyncio.TimeoutError:
            return await clients.amake(call, url, client)

    def write(self, t):
        # what the test tells depends on all the answers, also in the snapshot text
        for call, s in zip(self.case["calls"], self.seen):
            if isinstance(s, str):
                t.tln(f"{call['method']} {call['path']} raised")
            else:
                t.tln(f"{call['method']} {call['path']} gives {s['status']} of {len(s['content']) // 2} bytes")

    def test(self, library, **kw):
        decorator = bt.snapshot_requests(**kw) if library == "requests" else bt.snapshot_httpx(**kw)
        traffic = self
        kind = self.case.get("kind", "sync")
        if kind == "async":
            @decorator
            async def test(t):
                if traffic.case.get("groups") is not None:
                    await traffic.concurrent(t)
                else:
                    traffic.sync(t)
                return 1
            return test
        if kind == "method":
            class TrafficTestBook(bt.TestBook):
                @decorator
                def test_it(self, t):
                    traffic.sync(t)
                    return 1
            return TrafficTestBook("test/traffic").test_it

        if kind == "parts":
            # helpers of the test capture their own requests
            @decorator
            def helper(t, clients, calls):
                for call in calls:
                    traffic.seen.append(clients.make(call, server().url))

            async def test(t):
                traffic.runs += 1
                traffic.seen = []
                clients = Clients()
                traffic.left.append(clients)
                for part in traffic.case["parts"]:
                    await helper(t, clients, [c for c in traffic.case["calls"] if c["path"] in part])
                traffic.write(t)
                return 1
            return test

        @decorator
        def test(t):
            traffic.sync(t)
            return 1
        return test


def stored(root="books"):
    """ the snapshots, where the order of the exchanges within a file does not count """
    return {k: json.loads(v) if k.endswith(".json") else v for k, v in book_files(root).items()}


def replay_oracle(library):
    def oracle(case, ctx):
        s = server()
        before = entry_points()
        traffic = Traffic(case)
        kw = {} if case["lose"] is None else {"lose_request_details": case["lose"]}
        if case.get("ignore") is not None:
            kw["ignore_headers"] = case["ignore"]
        cases = [["test/web", traffic.test(library, **kw)]]
        s.script(case["script"])
        r = run(cases, [case["mode"], "-a"])
        check(not changed_entry_points(before), "changed after the recording run:", changed_entry_points(before))
        check_eq(verdict("books", "test/web"), "OK", "verdict of the recording run", r.out[-600:])
        recorded, hits = traffic.seen, s.take_hits()
        accepted = stored()
        ctx.label("calls", len(case["calls"]))
        redirected = sum(1 for x in recorded if isinstance(x, dict) and x["history"])
        ctx.label("with redirects followed", 1 if redirected else 0)
        repeated = len(case["calls"]) - len(set(json.dumps(c, sort_keys=True) for c in case["calls"]))
        ctx.label("with repeated requests", 1 if repeated else 0)
        ctx.nontrivial(len(case["calls"]) >= 2 and bool(repeated or redirected or any(c["body"] for c in case["calls"])))
        # the server would answer something else now
        s.script({})
        for args in case["replays"]:
            traffic.seen = None
            r = run(cases, args)
            check_eq(s.take_hits(), [], f"requests sent to the server in replay {args}")
            check(traffic.seen is not None, "replay", args, "did not come to its end", verdict("books", "test/web"), r.out[-700:])
            for k, (a, b) in enumerate(zip(recorded, traffic.seen)):
                if a != b:
                    what = [x for x in a if a[x] != b.get(x)] if isinstance(a, dict) and isinstance(b, dict) else []
                    check_eq({x: b[x] for x in what} if what else b, {x: a[x] for x in what} if what else a,
                             f"response {k} of {case['calls'][k]} in replay {args}")
            check_eq(len(traffic.seen), len(recorded), "number of responses")
            check_eq(verdict("books", "test/web"), "OK", f"verdict of replay {args}", r.out[-600:])
            check_eq(r.code, 0, f"exit status of replay {args}")
            check_eq(stored(), accepted, f"snapshots after replay {args}")
            check(not changed_entry_points(before), "changed after replay", args, changed_entry_points(before))
        # everything works without snapshots again
        s.script({"/a": [{"status": 200, "headers": [], "body": "", "reason": None}]})
        for clients in traffic.left:
            if clients.session is not None:
                clients.session.get(s.url + "/a", timeout=10)
            if clients.client is not None:
                clients.client.get(s.url + "/a")
            clients.close()
        expected = sum((c.session is not None) + (c.client is not None) for c in traffic.left)
        check_eq(len(s.take_hits()), expected, "requests sent with sessions and clients of the test after it")
        if library == "requests":
            requests.get(s.url + "/a", timeout=10)
        else:
            httpx.get(s.url + "/a", verify=False)
        check_eq(len(s.take_hits()), 1, "requests sent after the test")
        if case.get("legacy"):
            # one file per exchange was the earlier way of storing them
            name = {"requests": ".requests", "httpx": ".httpx"}[library]
            file = f"books/test/web/{name}.json"
            with open(file) as f:
                exchanges = json.load(f)
            os.remove(file)
            os.makedirs(f"books/test/web/{name}")
            for k, v in exchanges.items():
                with open(f"books/test/web/{name}/{k}.json", "w") as f:
                    json.dump(v, f)
            traffic.seen = None
            r = run(cases, [])
            check_eq(s.take_hits(), [], "requests sent to the server in the replay of the earlier format")
            check_eq(traffic.seen, recorded, "responses in the replay of the earlier format")
            check_eq(verdict("books", "test/web"), "OK", "verdict of the replay of the earlier format")
            if case["legacy"] == "refresh":
                # the earlier format is as stale as any
                s.script(case["script"])
                r = run(cases, ["-S", "-a", "-u"])
                check_eq(verdict("books", "test/web"), "OK", "verdict of a refreshing run over the earlier format")
                check_eq(len(s.take_hits()), len(hits), "requests sent when refreshing snapshots of the earlier format")
            else:
                # completed, and so stored anew
                r = run(cases, ["-s", "-u"])
                check_eq(verdict("books", "test/web"), "OK", "verdict when completing snapshots of the earlier format", r.out[-600:])
                check_eq(s.take_hits(), [], "requests sent when completing snapshots of the earlier format")
                check_eq(traffic.seen, recorded, "responses when completing snapshots of the earlier format")
            check_eq(sorted(stored()), sorted(accepted), "files stored after the earlier format")
            recorded, traffic.seen = traffic.seen, None
            s.script({})
            r = run(cases, [])
            check_eq(s.take_hits(), [], "requests sent to the server in the replay of what was the earlier format")
            check_eq(traffic.seen, recorded, "responses in the replay of what was the earlier format")
    return oracle


@st.composite
def replay_cases(draw, clients, kinds):
    kind = draw(st.sampled_from(kinds))
    threads = kind == "sync" and draw(st.integers(0, 5)) == 0
    pool = draw(st.lists(calls(clients), min_size=1, max_size=4))
    n = draw(st.integers(1, 6))
    if draw(st.integers(0, 14)) == 0:
        # the same request many times
        pool, n = pool[:1], draw(st.integers(9, 14))
    case = {"script": draw(scripts(redirects=not threads and kind != "parts")), "calls": [draw(st.sampled_from(pool)) for _ in range(n)],
            "mode": draw(st.sampled_from(["-s", "-S", "-S"])), "kind": kind,
            "lose": draw(st.sampled_from([None, None, True, False])),
            "replays": draw(st.lists(st.sampled_from([[], [], ["-v"], ["-s"], ["-u"], ["-s", "-a"], ["-L"]]), min_size=1, max_size=3)),
            "ignore": draw(st.sampled_from([None, None, None, [], ["X-Key"]]).map(lambda x: None if x is None else list(x))),
            "legacy": draw(st.sampled_from([False] * 9 + ["refresh", "complete", "complete"]))}
    if threads:
        case["threads"] = True
    if kind == "parts":
        # no request is made in two parts
        parts = [[], [], []]
        for path in dict.fromkeys(c["path"] for c in case["calls"]):
            parts[draw(st.integers(0, 2))].append(path)
        case["parts"] = parts
        case["calls"] = [c for part in parts for c in case["calls"] if c["path"] in part]
    if case["ignore"] is not None and any(c["auth"] for c in case["calls"]):
        # with a random number in it
        case["ignore"].append("authorization")
    if (threads or kinds == ["async"]) and case["ignore"] is not None:
        # which cookies are there depends on the schedule
        case["ignore"].append("Cookie")
    return case


def same_request_in_parts(client):
    """ the server's answer changes between two helpers, that make the same request """
    call = {"client": client, "method": "GET", "path": "/a", "query": None, "headers": {}, "body": None, "redirects": True, "auth": None,
            "read": "whole"}
    answer = {"status": 200, "headers": [["Content-Type", "text/plain"]], "reason": None}
    return [{"script": {"/a": [dict(answer, body="YQ=="), dict(answer, body="YmI=")]}, "calls": [call], "parts": [["/a"], ["/a"]],
             "mode": "-S", "kind": "parts", "lose": None, "replays": [[]], "ignore": None, "legacy": False}]
