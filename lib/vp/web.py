""" a local http server with scripted answers, and generated http calls made with requests and httpx """
import asyncio
import base64
import gzip
import json
import os
import socket
import threading
from http.server import BaseHTTPRequestHandler, HTTPServer
from socketserver import ThreadingMixIn

import httpx
import requests
from hypothesis import strategies as st

from vp import gen
from vp.core import HarnessError, check, check_eq

_SERVERS = {}


class Server:
    """
    answers are looked up by path: the n:th hit gets the n:th answer, and the last one is repeated. or they are made by a
    function of the hit, where None is a broken connection.
    """

    def __init__(self):
        self.hits = []
        self.answers = {}
        self.counts = {}
        self.lock = threading.Lock()
        outer = self

        class Handler(BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def log_message(self, *args):
                pass

            def version_string(self):
                return "vp"

            def answer(self):
                size = int(self.headers.get("Content-Length") or 0)
                body = self.rfile.read(size) if size else b""
                if self.headers.get("Transfer-Encoding") == "chunked":
                    while True:
                        size = int(self.rfile.readline(), 16)
                        body += self.rfile.read(size)
                        self.rfile.readline()
                        if size == 0:
                            break
                path = self.path.split("?")[0]
                with outer.lock:
                    n = outer.counts.get(path, 0)
                    outer.counts[path] = n + 1
                    outer.hits.append({"method": self.command, "path": self.path, "body": body,
                                       "headers": {k.lower(): v for k, v in self.headers.items()}})
                    hit = outer.hits[-1]
                    answers = None if callable(outer.answers) else outer.answers.get(path)
                if callable(outer.answers):
                    a = outer.answers(hit)
                    if a is None:
                        self.close_connection = True
                        return
                elif not answers:
                    a = {"status": 404, "headers": [], "body": "", "reason": None}
                else:
                    a = answers[min(n, len(answers) - 1)]
                data = base64.b64decode(a["body"])
                if a.get("gzip"):
                    data = gzip.compress(data, mtime=0)
                if a.get("delay"):
                    import time
                    time.sleep(a["delay"] / 1000)
                self.send_response(a["status"], a.get("reason"))
                for k, v in a["headers"]:
                    self.send_header(k, v)
                if a.get("gzip"):
                    self.send_header("Content-Encoding", "gzip")
                self.send_header("Connection", "close")
                no_body = self.command == "HEAD" or a["status"] in (204, 304)
                if a["status"] not in (204, 304):
                    self.send_header("Content-Length", str(len(data)))
                self.end_headers()
                if not no_body:
                    self.wfile.write(data)
                self.close_connection = True

            do_GET = do_POST = do_PUT = do_DELETE = do_PATCH = do_HEAD = do_OPTIONS = answer

        class S(ThreadingMixIn, HTTPServer):
            daemon_threads = True
            request_queue_size = 64

            def handle_error(self, request, client_address):
                pass

        self.server = S(("127.0.0.1", 0), Handler)
        self.port = self.server.server_address[1]
        self.url = f"http://127.0.0.1:{self.port}"
        self.thread = threading.Thread(target=self.server.serve_forever, args=(0.05,), daemon=True)
        self.thread.start()

    def script(self, answers):
        with self.lock:
            self.answers = answers
            self.counts = {}
            self.hits = []

    def take_hits(self):
        with self.lock:
            rv = self.hits
            self.hits = []
            return rv


def server():
    s = _SERVERS.get(os.getpid())
    if s is None:
        s = _SERVERS[os.getpid()] = Server()
    return s


# ---------------------------------------------------------------- generated answers and calls

PATHS = ["/a", "/b", "/a/b", "/c%20d", "/%C3%A9"]

JSON = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-100, 100), gen.WORD, st.just("é漢😀")),
                    lambda x: st.one_of(st.lists(x, max_size=2), st.dictionaries(gen.WORD, x, max_size=2)), max_leaves=4)


def b64(data):
    return base64.b64encode(data).decode()


HEADER_NAMES = ["X-One", "x-two", "X-THREE", "ETag", "X-Count", "Cache-Control", "Vary"]
HEADER_VALUE = st.one_of(gen.WORD, st.sampled_from(["1", "a, b", "", "x=1; y=2", "\"quoted\"", "W/\"1\""]))


COOKIES = ["sid=abc", "sid=xyz; Path=/", "a=1; HttpOnly; SameSite=Lax", "t=2; Expires=Wed, 09 Jun 2100 10:18:14 GMT; Path=/a", "sid=; Max-Age=0",
           "q=\"x y\"", "m=5; Max-Age=36000"]


@st.composite
def answers(draw, redirects=True):
    kind = draw(st.sampled_from(["json", "json", "text", "text", "binary", "empty", "encoded"] + (["redirect"] if redirects else [])))
    headers = [[k, draw(HEADER_VALUE)] for k in draw(st.lists(st.sampled_from(HEADER_NAMES), max_size=2, unique_by=str.lower))]
    if draw(st.integers(0, 3)) == 0:
        headers += [["Set-Cookie", c] for c in draw(st.lists(st.sampled_from(COOKIES), min_size=1, max_size=3))]
    if draw(st.integers(0, 7)) == 0:
        headers += [["X-Many", "one"], ["X-Many", draw(HEADER_VALUE)]]
    status = draw(st.sampled_from([200, 200, 200, 200, 201, 202, 400, 401, 404, 418, 500, 503, 299]))
    a = {"status": status, "headers": headers, "reason": draw(st.sampled_from([None, None, None, "Fine", ""]))}
    if kind == "json":
        a["body"] = b64(json.dumps(draw(JSON), ensure_ascii=draw(st.booleans())).encode())
        headers.append(["Content-Type", "application/json"])
    elif kind == "text":
        a["body"] = b64(draw(gen.TEXT).encode("utf-8"))
        headers.append(["Content-Type", draw(st.sampled_from(["text/plain; charset=utf-8", "text/html", "text/plain; charset=UTF-8"]))])
    elif kind == "encoded":
        enc = draw(st.sampled_from(["latin-1", "utf-16", "cp1252", "iso-8859-15", "utf-32"]))
        a["body"] = b64(draw(st.text(alphabet="abc éèü€ñ\n", max_size=10)).encode(enc, "replace"))
        headers.append(["Content-Type", f"text/plain; charset={enc}"])
    elif kind == "binary":
        a["body"] = b64(draw(st.binary(max_size=30)))
        if draw(st.booleans()):
            headers.append(["Content-Type", draw(st.sampled_from(["application/octet-stream", "image/png", "text/plain", "application/json"]))])
    elif kind == "empty":
        a["body"] = ""
        a["status"] = draw(st.sampled_from([200, 204, 404, 304]))
    else:
        a["body"] = b64(draw(st.binary(max_size=5)))
        a["status"] = draw(st.sampled_from([301, 302, 303, 307, 308]))
        headers.append(["Location", draw(st.sampled_from(["/end", "/end?x=1", "/end2"]))])
        return a
    if a["body"] and draw(st.integers(0, 4)) == 0:
        a["gzip"] = True
    return a


@st.composite
def scripts(draw, redirects=True):
    rv = {}
    for p in PATHS:
        rv[p] = draw(st.lists(answers(redirects), min_size=1, max_size=3))
    for p in PATHS:
        if draw(st.integers(0, 5)) == 0:
            # asks for authentication first
            rv[p].insert(0, {"status": 401, "reason": None, "body": b64(draw(st.sampled_from([b"", b"who"]))), "headers": [
                ["WWW-Authenticate", 'Digest realm="test", nonce="abc", qop="auth"']]})
    rv["/end"] = draw(st.lists(answers(False), min_size=1, max_size=2))
    rv["/end2"] = draw(st.lists(answers(False), min_size=1, max_size=1))
    return rv


BODY = st.one_of(
    st.none(), st.none(),
    st.tuples(st.just("text"), st.one_of(gen.LINE, st.just("é漢"))).map(list),
    st.tuples(st.just("bytes"), st.binary(max_size=8).map(b64)).map(list),
    st.tuples(st.just("pieces"), st.lists(st.one_of(gen.WORD, st.just("é")), max_size=3)).map(list),
    st.tuples(st.just("json"), JSON.filter(lambda x: x is not None)).map(list),
    st.tuples(st.just("form"), st.dictionaries(gen.WORD, gen.WORD, min_size=1, max_size=2)).map(list))


@st.composite
def calls(draw, clients):
    method = draw(st.sampled_from(["GET", "GET", "GET", "POST", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS"]))
    return {"client": draw(st.sampled_from(clients)), "method": method, "path": draw(st.sampled_from(PATHS[:3] + PATHS)),
            "query": draw(st.one_of(st.none(), st.none(), st.dictionaries(gen.WORD, st.one_of(gen.WORD, st.just("é &=")), max_size=2))),
            "headers": draw(st.dictionaries(st.sampled_from(["X-Key", "Authorization", "Accept", "X-Trace"]), gen.WORD, max_size=2)),
            "body": draw(BODY) if method in ("POST", "PUT", "PATCH", "DELETE") else None,
            "redirects": draw(st.sampled_from([True, True, False])),
            "auth": draw(st.sampled_from([["user", "word"], ["user", "ä:b"]])) if draw(st.integers(0, 9)) == 0 else None,
            # how the response is read
            "read": draw(st.sampled_from(["whole", "whole", "whole", "whole", "pieces", "lines", "not"]))}


def arguments(call, library, asynchronous=False):
    kw = {"headers": call["headers"]}
    if call["query"]:
        kw["params"] = call["query"]
    b = call["body"]
    if b is not None:
        kind, value = b
        if kind == "text":
            kw["data" if library == "requests" else "content"] = value.encode("utf-8") if library == "requests" and not value.isascii() else value
        elif kind == "bytes":
            kw["data" if library == "requests" else "content"] = base64.b64decode(value)
        elif kind == "json":
            kw["json"] = value
        elif kind == "pieces":
            # in pieces when it can be
            if library == "requests":
                kw["data"] = "".join(value).encode()
            elif asynchronous:
                async def pieces():
                    for x in value:
                        yield x.encode()
                kw["content"] = pieces()
            else:
                kw["content"] = iter([x.encode() for x in value])
        else:
            kw["data"] = value
    if call.get("auth"):
        kw["auth"] = (requests.auth.HTTPDigestAuth if library == "requests" else httpx.DigestAuth)(*call["auth"])
    kw["allow_redirects" if library == "requests" else "follow_redirects"] = call["redirects"]
    return kw


def cookies_of(jar):
    return sorted((c.name, c.value, c.path) for c in jar)


def seen_by_requests(r, read="whole"):
    rv = {"status": r.status_code, "headers": sorted((k.lower(), v) for k, v in r.headers.items()), "cookies": cookies_of(r.cookies),
          "url": r.url, "history": [(h.status_code, h.url) for h in r.history], "content": ""}
    if read != "whole":
        if read == "pieces":
            rv["pieces"] = b"".join(r.iter_content(3)).hex()
        elif read == "lines":
            rv["lines"] = [x.hex() for x in r.iter_lines()]
        r.close()
        return rv
    rv = {"cookies": rv["cookies"], "elapsed": type(r.elapsed).__name__, "status": r.status_code, "content": r.content.hex(), "text": r.text, "ok": r.ok, "reason": r.reason, "encoding": r.encoding,
          "headers": sorted((k.lower(), v) for k, v in r.headers.items()),
          "lookup": [r.headers.get(k) for k in ("content-TYPE", "x-ONE", "ETAG", "content-length", "nothing")],
          "url": r.url, "history": [(h.status_code, h.url, h.content.hex()) for h in r.history],
          "chunks": b"".join(r.iter_content(3)).hex(), "redirect": r.is_redirect, "links": r.links,
          "request": (r.request.method, r.request.url)}
    try:
        rv["json"] = r.json()
    except ValueError:
        rv["json"] = "no json"
    try:
        r.raise_for_status()
        rv["raised"] = None
    except requests.HTTPError as e:
        rv["raised"] = str(e)
    return rv


def seen_of_httpx_stream(r, pieces):
    return {"status": r.status_code, "headers": sorted((k.lower(), v) for k, v in r.headers.multi_items() if k.lower() != "content-encoding"),
            "cookies": cookies_of(r.cookies.jar), "url": str(r.url), "history": [(h.status_code, str(h.url)) for h in r.history],
            "content": "", "pieces": pieces, "elapsed": type(r.elapsed).__name__ if pieces is not None else None}


def seen_by_httpx(r):
    rv = {"cookies": cookies_of(r.cookies.jar), "elapsed": type(r.elapsed).__name__, "status": r.status_code, "content": r.content.hex(), "text": r.text, "ok": r.is_success, "encoding": r.encoding,
          "headers": sorted((k.lower(), v) for k, v in r.headers.multi_items() if k.lower() != "content-encoding"),
          "lookup": [r.headers.get(k) for k in ("content-TYPE", "x-ONE", "ETAG", "content-length", "nothing")],
          "url": str(r.url), "history": [(h.status_code, str(h.url), h.content.hex()) for h in r.history],
          "chunks": b"".join(r.iter_bytes(3)).hex(), "redirect": r.is_redirect, "links": r.links,
          "request": (r.request.method, str(r.request.url))}
    try:
        rv["json"] = r.json()
    except ValueError:
        rv["json"] = "no json"
    return rv


class Clients:
    def __init__(self):
        self.session = None
        self.client = None

    def make(self, call, url):
        u = url + call["path"]
        read = call.get("read", "whole")
        if call["client"] in ("requests", "session"):
            how = {"stream": True} if read != "whole" else {}
            if call["client"] == "requests":
                return seen_by_requests(requests.request(call["method"], u, **arguments(call, "requests"), **how), read)
            if self.session is None:
                self.session = requests.Session()
            rv = seen_by_requests(self.session.request(call["method"], u, **arguments(call, "requests"), **how), read)
            rv["jar"] = cookies_of(self.session.cookies)
            return rv
        if call["client"] == "httpx":
            kw = arguments(call, "httpx")
            if read != "whole":
                with httpx.stream(call["method"], u, verify=False, **kw) as r:
                    return self.pieces(r, read)
            return seen_by_httpx(httpx.request(call["method"], u, verify=False, **kw))
        if call["client"] == "client":
            if self.client is None:
                self.client = httpx.Client(verify=False)
            if read != "whole":
                with self.client.stream(call["method"], u, **arguments(call, "httpx")) as r:
                    rv = self.pieces(r, read)
            else:
                rv = seen_by_httpx(self.client.request(call["method"], u, **arguments(call, "httpx")))
            rv["jar"] = cookies_of(self.client.cookies.jar)
            return rv
        raise HarnessError(call["client"])

    def pieces(self, r, read):
        return seen_of_httpx_stream(r, b"".join(r.iter_bytes(3)).hex() if read == "pieces" else list(r.iter_lines()) if read == "lines" else None)

    async def amake(self, call, url, client):
        read = call.get("read", "whole")
        if read != "whole":
            async with client.stream(call["method"], url + call["path"], **arguments(call, "httpx", True)) as r:
                if read == "pieces":
                    pieces = b"".join([x async for x in r.aiter_bytes(3)]).hex()
                else:
                    pieces = [x async for x in r.aiter_lines()] if read == "lines" else None
                return seen_of_httpx_stream(r, pieces)
        return seen_by_httpx(await client.request(call["method"], url + call["path"], **arguments(call, "httpx", True)))

    def close(self):
        if self.session is not None:
            self.session.close()
        if self.client is not None:
            self.client.close()
