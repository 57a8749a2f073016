"""
What generated test functions do: looked up from vpstate/behaviour.json, and logged in vpstate/events, so that the same
suite can change its behaviour between runs, also in other processes.
"""
import asyncio
import json
import os
import time

STATE = "vpstate"


def set_behaviour(behaviour, d="."):
    os.makedirs(os.path.join(d, STATE), exist_ok=True)
    with open(os.path.join(d, STATE, "behaviour.json"), "w") as f:
        json.dump(behaviour, f)


def log_event(**event):
    event["time"] = time.monotonic()
    event["pid"] = os.getpid()
    fd = os.open(os.path.join(STATE, "events"), os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o666)
    try:
        os.write(fd, (json.dumps(event) + "\n").encode())
    finally:
        os.close(fd)


def take_events(d=".", keep=False):
    """ events since the last call """
    file = os.path.join(d, STATE, "events")
    if not os.path.exists(file):
        return []
    with open(file) as f:
        rv = [json.loads(line) for line in f]
    if not keep:
        os.remove(file)
    return rv


def begun(events):
    return [e["case"] for e in events if e["kind"] == "begin"]


def load(key):
    with open(os.path.join(STATE, "behaviour.json")) as f:
        return json.load(f).get(key) or {}


def case_key(t):
    return t.test_path


def jsonable(value):
    try:
        json.dumps(value)
        return value
    except (TypeError, ValueError):
        return {"repr": repr(value)}


def behave(t, args, instance=None):
    from vp.world import perform
    key = case_key(t)
    b = load(key)
    log_event(kind="begin", case=key, args=jsonable(list(args)), instance=instance, setup=os.environ.get("VP_SETUP", ""))
    try:
        if b.get("ms"):
            time.sleep(b["ms"] / 1000)
        if b.get("barrier"):
            log_event(kind="barrier", case=key, met=barrier(key, b["barrier"], b["timeout"]))
        rv = perform(t, b.get("ops", []))
        log_event(kind="return", case=key, value=jsonable(rv))
        return rv
    finally:
        log_event(kind="end", case=key)


async def abehave(t, args, instance=None):
    await asyncio.sleep(0)
    rv = behave(t, args, instance)
    await asyncio.sleep(0)
    return rv


def barrier(key, count, timeout):
    """ waits until this many cases have come here. returns whether they did """
    d = os.path.join(STATE, "barrier")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, key.replace("/", "-")), "w"):
        pass
    until = time.monotonic() + timeout
    while len(os.listdir(d)) < count:
        if time.monotonic() > until:
            return False
        time.sleep(0.002)
    return True


def bracket(label, mode="plain"):
    """ a setup and teardown generator, that logs what it does and extends the state, that tests see """
    def before():
        log_event(kind="setup", label=label)
        if mode == "setup raises":
            raise ValueError("setup " + label)
        old = os.environ.get("VP_SETUP", "")
        os.environ["VP_SETUP"] = f"{old}/{label}"
        return old

    def after(old):
        os.environ["VP_SETUP"] = old
        log_event(kind="teardown", label=label)
        if mode == "teardown raises":
            raise ValueError("teardown " + label)

    def plain():
        old = before()
        yield
        after(old)

    def final():
        old = before()
        try:
            yield
        finally:
            after(old)

    return final if mode == "finally" else plain


def failing_process(at, teardown):
    """ a process setup and teardown, of which the at-th setup, or every one, or every teardown raises """
    log_event(kind="setup", label="process")
    mine = [e for e in take_events(keep=True) if e["kind"] == "setup"]
    # the setups of several processes have one order: the one of their events
    count = [k for k, e in enumerate(mine) if e["pid"] == os.getpid()][-1] + 1
    if at == "always" or at == count:
        raise ValueError("process setup")
    os.environ["VP_SETUP"] = "/process"
    yield
    os.environ["VP_SETUP"] = ""
    log_event(kind="teardown", label="process")
    if teardown:
        raise ValueError("process teardown")
