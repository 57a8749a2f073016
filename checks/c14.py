import booktest as bt
import requests
from hypothesis import strategies as st

from vp.core import Campaign, check_eq
from vp.webcheck import replay_cases, replay_oracle, same_request_in_parts
from vp.world import run, verdict

PROPERTY = "C14"
RULE = ("random sequences of http calls (methods, paths, queries, headers, bodies, repetitions, sessions with cookies, threads, digest "
        "authentication, responses read whole, in pieces or not at all) against a local "
        "server with scripted random answers (statuses, repeated headers, cookies, encodings, compression, redirects, answers changing "
        "with each hit); recorded, accepted and replayed with the server answering otherwise; arguments: what the transport is given by "
        "a captured request is compared with a request that is not captured; non-trivial: at least 2 calls with a repetition, "
        "redirect or body, or an argument other than the defaults")


def arguments_oracle(case, ctx):
    """ a request that gets captured is sent as it would be without capturing """
    sent = []

    def send(adapter, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
        sent.append({"method": request.method, "url": request.url, "body": request.body, "headers": dict(request.headers), "stream": stream,
                     "timeout": timeout, "verify": verify, "cert": cert, "proxies": dict(proxies or {})})
        rv = requests.Response()
        rv.status_code = 200
        rv.url = request.url
        rv.request = request
        rv._content = b"answer"
        rv._content_consumed = True
        return rv

    def body(t):
        session = requests.Session()
        for k, v in case["session"].items():
            setattr(session, k, v)
        for call in case["calls"]:
            client = session if call["session"] else requests
            client.request(call["method"], "http://127.0.0.1:9/" + call["path"], **call["kw"])
        t.tln("end")

    original = requests.adapters.HTTPAdapter.__dict__["send"]
    requests.adapters.HTTPAdapter.send = send
    try:
        run([["test/web", body]], ["-a"])
        plain, sent = sent, []
        run([["test/web", bt.snapshot_requests()(body)]], [case["mode"], "-a"])
    finally:
        requests.adapters.HTTPAdapter.send = original
    check_eq(verdict("books", "test/web"), "OK", "verdict of the capturing run")
    check_eq(sent, plain, "requests given to the transport while capturing")
    ctx.nontrivial(any(c["kw"] for c in case["calls"]) or bool(case["session"]))


KW = st.fixed_dictionaries({}, optional={
    "timeout": st.sampled_from([1, 0.5, (1, 2), None]), "verify": st.sampled_from([True, False, "/tmp/ca.pem"]),
    "cert": st.sampled_from([None, "/tmp/cert.pem", ("/tmp/c.pem", "/tmp/k.pem")]),
    "proxies": st.sampled_from([{}, {"http": "http://127.0.0.1:8"}, {"https": "http://p"}]), "stream": st.booleans(),
    "headers": st.sampled_from([{}, {"X-Key": "a"}]), "params": st.sampled_from([{}, {"a": "1"}]), "data": st.sampled_from(["", "x", {"a": "b"}])})


def argument_cases():
    call = st.fixed_dictionaries({"method": st.sampled_from(["GET", "POST", "PUT"]), "path": st.sampled_from(["", "a", "b"]),
                                  "session": st.booleans(), "kw": KW})
    return st.fixed_dictionaries({
        "calls": st.lists(call, min_size=1, max_size=4), "mode": st.sampled_from(["-s", "-S"]),
        "session": st.fixed_dictionaries({}, optional={"verify": st.sampled_from([False, "/tmp/ca.pem"]), "cert": st.just("/tmp/s.pem"),
                                                       "proxies": st.just({"http": "http://127.0.0.1:7"}), "stream": st.just(True)})})


CAMPAIGNS = [
    Campaign("replay", lambda: replay_cases(["requests", "requests", "session"], ["sync", "sync", "sync", "async", "method", "parts"]),
             replay_oracle("requests"), 1200, 40000),
    Campaign("arguments", argument_cases, arguments_oracle, 400, 8000),
    Campaign("same request in helpers", None, replay_oracle("requests"), 1, 1, sequence=lambda: same_request_in_parts("requests"),
             probe="same-request-in-helpers"),
]
