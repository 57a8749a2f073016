""" the command line tool as a user runs it """
import os
import shutil
import signal
import subprocess
import sys

from vp.core import REPO, HarnessError, Violation, check, check_eq
from vp.world import Result

LIB = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def environment(extra=None):
    env = {k: v for k, v in os.environ.items() if not k.startswith("BOOKTEST_")}
    env.update({"PYTHONPATH": REPO + ":" + LIB, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONUTF8": "1", "PYTHONHASHSEED": "0",
                "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8"})
    env.update(extra or {})
    return env


def start(args, d, env=None):
    return subprocess.Popen([sys.executable, "-m", "booktest"] + list(args), cwd=d, env=environment(env), stdin=subprocess.DEVNULL,
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def booktest(args, d, env=None, timeout=120, stdin=None):
    """ runs 'booktest <args>' in the directory. a run that does not end is a violation """
    p = subprocess.Popen([sys.executable, "-m", "booktest"] + list(args), cwd=d, env=environment(env),
                         stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        out, err = p.communicate(stdin.encode() if stdin is not None else None, timeout=timeout)
    except subprocess.TimeoutExpired:
        kill(p)
        out, err = p.communicate()
        raise Violation(f"'booktest {' '.join(args)}' did not end in {timeout} s: " + out.decode("utf-8", "replace")[-500:] +
                        err.decode("utf-8", "replace")[-500:])
    except BaseException:
        kill(p)
        raise
    kill(p)
    return Result(p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"))
