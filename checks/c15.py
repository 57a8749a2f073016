from hypothesis import strategies as st

from vp.core import Campaign
from vp.web import PATHS
from vp.webcheck import replay_cases, replay_oracle, same_request_in_parts

PROPERTY = "C15"
RULE = ("random sequences of http calls (methods, paths, queries, headers, bodies, repetitions, clients, concurrent asynchronous "
        "calls with different delays, some given up and made again) against a local server with scripted random answers (statuses, headers, encodings, "
        "compression, redirects, answers changing with each hit); recorded, accepted and replayed with the server answering "
        "otherwise; non-trivial: at least 2 calls with a repetition, redirect or body")


@st.composite
def concurrent_cases(draw):
    case = draw(replay_cases(["async"], ["async"]))
    left = len(case["calls"])
    case["groups"] = []
    while left > 0:
        n = draw(st.integers(1, min(left, 4)))
        case["groups"].append(n)
        left -= n
    # identical requests of a group can reach the server in any order, and so give answers in any order: only what each
    # request got must be replayed
    for answers in case["script"].values():
        for a in answers:
            a["delay"] = draw(st.sampled_from([0, 0, 0, 2, 6, 15]))
    if any(n > 1 for n in case["groups"]):
        # the redirects and authentications of concurrent requests reach their target in any order
        for c in case["calls"]:
            c["auth"] = None
        for path, answers in case["script"].items():
            case["script"][path] = [a for a in answers if a["status"] not in (301, 302, 303, 307, 308)] or \
                [{"status": 200, "headers": [], "reason": None, "body": "YQ==", "delay": answers[0]["delay"]}]
    return case


@st.composite
def cancelled_cases(draw):
    """ a group of different requests, of which some are given up and made again """
    case = draw(replay_cases(["async"], ["async"]))
    template = case["calls"]
    case["calls"] = []
    case["retried"] = []
    for k, path in enumerate(draw(st.lists(st.sampled_from(PATHS), min_size=2, max_size=5, unique=True))):
        case["calls"].append({**template[k % len(template)], "path": path, "auth": None, "redirects": False})
        answers = case["script"][path]
        if draw(st.integers(0, 2)) == 0:
            case["retried"].append(k)
            # never answered in time
            answers.insert(0, {**answers[0], "delay": 400})
        else:
            for a in answers:
                a["delay"] = draw(st.sampled_from([0, 0, 3, 60, 150]))
    case["groups"] = [len(case["calls"])]
    case["legacy"] = False
    return case


CAMPAIGNS = [
    Campaign("replay", lambda: replay_cases(["httpx", "httpx", "client"], ["sync", "sync", "sync", "async", "method", "parts"]),
             replay_oracle("httpx"), 1200, 30000),
    Campaign("concurrent", concurrent_cases, replay_oracle("httpx"), 800, 20000),
    Campaign("cancelled", cancelled_cases, replay_oracle("httpx"), 150, 3000),
    Campaign("same request in helpers", None, replay_oracle("httpx"), 1, 1, sequence=lambda: same_request_in_parts("httpx"),
             probe="same-request-in-helpers"),
]
