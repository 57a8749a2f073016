import base64
import hashlib
import os

import booktest as bt
from hypothesis import strategies as st

from vp.core import Campaign, check, check_eq
from vp.web import Clients, b64, server
from vp.world import files, run, verdict

PROPERTY = "C17"
RULE = ("calls with secret header values and bodies, recorded and replayed with other headers, bodies, methods and urls under random "
        "settings (ignored headers in any letter case, kept details, custom body encoders and request hashes), against a model of "
        "which requests are the same; every file of the book is searched for the secrets; non-trivial: the replay has a request "
        "that differs from the recorded one only in an ignored detail, or one that must not match")

NAME = "test/web"

HASHES = {
    "url": lambda j: "u" + str(len(j["url"])) + j["url"].rsplit("/", 1)[-1],
    "method": lambda j: "m" + j["method"],
    "body": lambda j: "b" + hashlib.md5(str(j.get("body")).encode()).hexdigest(),
    "constant": lambda j: "same",
}

ENCODERS = {
    "constant": lambda body, url, method: "body",
    "lower": lambda body, url, method: (body if isinstance(body, str) else body.decode("utf-8", "replace")).lower(),
    "length": lambda body, url, method: str(len(body)),
    "method": lambda body, url, method: method + " " + str(url)[-2:],
    # only the bodies of some requests are told from each other
    "of put": lambda body, url, method: str(body) if method == "PUT" else "any",
    "of url": lambda body, url, method: str(body) if str(url).endswith("/a") else "any",
}


def body_of(call):
    return None if call["body"] is None else call["body"].encode()


def key_of(call, case):
    """ what tells requests from each other """
    library = case["library"]
    ignore = case["ignore"]
    body = body_of(call)
    encode = ENCODERS.get(case["encode"])
    encoded = None
    if body is not None or library == "httpx":
        # httpx has an empty body where requests has none
        raw = body if body is not None else b""
        encoded = encode(raw, call["path"], call["method"]) if encode else raw.hex()
    headers = None
    if ignore is not True:
        dropped = set(x.lower() for x in (ignore or []))
        headers = sorted((k.lower(), v) for k, v in call["headers"].items() if k.lower() not in dropped)
        # the length of the body is a header as well
        if "content-length" not in dropped:
            headers.append(len(body or b""))
    if case["hash"]:
        return {"url": call["path"], "method": call["method"], "body": str(encoded), "constant": ""}[case["hash"]]
    return repr((call["method"], call["path"], encoded, headers))


def keys(calls, case):
    rv, counts = [], {}
    for c in calls:
        k = key_of(c, case)
        rv.append((k, counts.get(k, 0)))
        counts[k] = counts.get(k, 0) + 1
    return rv


def forms(text):
    raw = text.encode()
    rv = {raw, raw.lower(), raw.hex().encode()}
    for k in range(3):
        b = base64.b64encode(b"x" * k + raw).rstrip(b"=")
        rv.add(b[4 if k else 0:-2])
    return {x for x in rv if len(x) >= 8}


def oracle(case, ctx):
    s = server()
    kw = {}
    if case["ignore"] is not None:
        kw["ignore_headers"] = True if case["ignore"] is True else list(case["ignore"])
    else:
        case = dict(case, ignore=True)
    if case["lose"] is not None:
        kw["lose_request_details"] = case["lose"]
    lose = case["lose"] is not False
    if case["hash"]:
        kw["json_to_hash"] = HASHES[case["hash"]]
    if case["encode"]:
        kw["encode_body"] = ENCODERS[case["encode"]]
    now = {}

    @(bt.snapshot_requests(**kw) if case["library"] == "requests" else bt.snapshot_httpx(**kw))
    def test(t):
        clients = Clients()
        now["seen"] = []
        for c in now["calls"]:
            call = {"client": case["library"], "method": c["method"], "path": c["path"], "query": None, "headers": c["headers"],
                    "body": None if c["body"] is None else ["text", c["body"]] if case["text"] else ["bytes", b64(body_of(c))], "redirects": True}
            now["seen"].append(clients.make(call, s.url)["text"])
        t.iln(f"{len(now['calls'])} calls")
        if now.get("fail"):
            raise ValueError("failed")

    made = [0]

    def answer(hit):
        made[0] += 1
        return {"status": 200, "headers": [["Content-Type", "text/plain"]], "reason": None, "body": b64(b"answer %d" % made[0])}

    def search():
        """ no file tells what must not be stored """
        secrets = []
        for c in case["recorded"] + case["replayed"]:
            for k, v in c["headers"].items():
                if lose or case["ignore"] is True or k.lower() in [x.lower() for x in case["ignore"]]:
                    secrets.append((k, v))
            if c["body"] is not None and lose:
                secrets.append(("body", c["body"]))
                ctx.label("secret bodies")
        for file, data in files("books").items():
            for k, v in secrets:
                for form in forms(v):
                    check(form not in data and form not in data.lower(), f"{k} {v} of a request is in the file {file}")
        ctx.label("secrets", len(secrets))
        if not lose and case["ignore"] is not True:
            file = f"books/{NAME}/.{case['library']}.json"
            if os.path.exists(file):
                with open(file, "rb") as f:
                    data = f.read()
                ignored = [x.lower() for x in case["ignore"]]
                for k, v in (h for c in case["recorded"] for h in c["headers"].items()):
                    if k.lower() not in ignored:
                        check(v.encode() in data, f"header {k} {v} is not among the details of the requests")

    s.script(answer)
    try:
        cases = [[NAME, test]]
        now["calls"] = case["recorded"]
        run(cases, [case["mode"], "-a"] + case["flags"])
        check_eq(verdict("books", NAME), "OK", "verdict of the recording")
        recorded = dict(zip(keys(case["recorded"], case), now["seen"]))
        check_eq(len(s.take_hits()), len(case["recorded"]), "requests sent while recording")
        search()
        now["calls"] = case["replayed"]
        now["fail"] = case["fail"]
        run(cases, case["flags"])
        got = now["seen"]
        expected = []
        missing = False
        for k in keys(case["replayed"], case):
            if k not in recorded:
                missing = True
                break
            expected.append(recorded[k])
        check_eq(s.take_hits(), [], "requests sent in the replay")
        check_eq(got, expected, "answers of the replay")
        if missing or case["fail"]:
            check_eq(verdict("books", NAME), "FAIL", "verdict of the replay")
        elif len(case["replayed"]) == len(case["recorded"]) and sorted(keys(case["replayed"], case)) == sorted(keys(case["recorded"], case)) \
                and not case["hash"]:
            # the same requests, whatever their ignored details are
            check_eq(verdict("books", NAME), "OK", "verdict of the replay")
        search()
        ctx.label("missing" if missing else "all found")
        same = [a for a in case["replayed"] for b in case["recorded"] if a != b and key_of(a, case) == key_of(b, case)]
        ctx.label("equal in spite of details", len(same))
        ctx.nontrivial(bool(same) or missing)
    finally:
        s.script({})


NAMES = ["X-Key", "Authorization", "X-Trace", "Cookie", "X-Api-Token"]


@st.composite
def cases(draw):
    secret = st.integers(10000, 99999)

    def headers(n):
        return {k: f"secretH{draw(secret)}{k.replace('-', '')}" for k in draw(st.lists(st.sampled_from(NAMES), unique=True, max_size=n))}

    base = []
    for _ in range(draw(st.integers(1, 3))):
        method = draw(st.sampled_from(["GET", "POST", "POST", "PUT"]))
        base.append({"method": method, "path": draw(st.sampled_from(["/a", "/b", "/a/b"])), "headers": headers(3),
                     "body": None if method == "GET" else f"secretBody{draw(secret)}"})

    def variant(c):
        c = dict(c, headers=dict(c["headers"]))
        kind = draw(st.sampled_from(["same", "same", "same", "value", "add", "drop", "none", "method", "path", "body", "case", "space"]))
        if kind == "value" and c["headers"]:
            k = draw(st.sampled_from(sorted(c["headers"])))
            c["headers"][k] = f"secretV{draw(secret)}{k.replace('-', '')}"
        elif kind == "add":
            c["headers"].update(headers(2))
        elif kind == "drop" and c["headers"]:
            del c["headers"][draw(st.sampled_from(sorted(c["headers"])))]
        elif kind == "none":
            c["headers"] = {}
        elif kind == "method":
            c["method"] = "PATCH"
        elif kind == "path":
            c["path"] = draw(st.sampled_from(["/a", "/b", "/c"]))
        elif kind == "body" and c["body"] is not None:
            c["body"] = f"secretBody{draw(secret)}"
        elif kind == "case" and c["body"] is not None:
            c["body"] = c["body"].upper()
        elif kind == "space" and c["body"] is not None:
            c["body"] = draw(st.sampled_from([" {}", "{} ", "{}\n", "\n{}", '"{}"'])).format(c["body"])
        return c

    recorded = [variant(draw(st.sampled_from(base))) for _ in range(draw(st.integers(1, 4)))]
    replayed = [variant(draw(st.sampled_from(recorded + base))) for _ in range(draw(st.integers(1, 4)))]
    if draw(st.integers(0, 2)) == 0:
        replayed = [variant(c) for c in recorded]
    spelled = st.sampled_from([str.lower, str.upper, str.title, str.swapcase, str])
    ignore = draw(st.sampled_from([None, None, True, "some", "some", "some", "none"]))
    if ignore == "some":
        ignore = [draw(spelled)(k) for k in draw(st.lists(st.sampled_from(NAMES), unique=True, min_size=1, max_size=4))]
        if draw(st.booleans()):
            ignore.append(draw(spelled)("Content-Length"))
    elif ignore == "none":
        ignore = []
    return {"text": draw(st.booleans()), "library": draw(st.sampled_from(["requests", "httpx"])), "recorded": recorded, "replayed": replayed, "ignore": ignore,
            "lose": draw(st.sampled_from([None, None, True, False])),
            "hash": draw(st.sampled_from([None, None, None, "url", "method", "body", "constant"])),
            "encode": draw(st.sampled_from([None, None, None, "constant", "lower", "length", "method", "of put", "of url"])),
            "mode": draw(st.sampled_from(["-s", "-S"])), "flags": draw(st.sampled_from([[], [], ["-v"], ["-L"]])),
            "fail": draw(st.integers(0, 5)) == 0}


CAMPAIGNS = [
    Campaign("matching", cases, oracle, 2400, 60000),
]
