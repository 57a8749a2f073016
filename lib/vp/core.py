"""
The campaign runner: generated cases, an oracle per case, shrinking, replay files and evidence.

A check module (checks/cNN.py) gives

  PROPERTY   the property id
  RULE       how cases are made and what makes one non-trivial
  CAMPAIGNS  a list of Campaign
"""
import hashlib
import json
import logging
import os
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VP_REPO", "/repo")  # another tree only when trying out planted bugs
SCALE = float(os.environ.get("VP_SCALE", "1"))  # another number of cases, when developing
SHRINK = os.environ.get("VP_SHRINK", "1") == "1"
NOBODY = 65534
SHARDS = 8


class Violation(Exception):
    """ the property does not hold for the case """


class Hang(BaseException):
    """ the case did not end """


class StopCampaign(BaseException):
    """ out of time, or some other worker has found a violation """


class HarnessError(Exception):
    """ the machinery failed, says nothing about the property """


def check(cond, *message):
    if not cond:
        raise Violation(" ".join(m if isinstance(m, str) else repr(m) for m in message))


def check_eq(got, expected, *message):
    if got != expected:
        raise Violation(" ".join(m if isinstance(m, str) else repr(m) for m in message) +
                        f": got {_short(got)}, expected {_short(expected)}")


def _short(x, limit=1500):
    r = repr(x)
    return r if len(r) <= limit else r[:limit] + f"... ({len(r)} characters)"


class Campaign:
    def __init__(self, name, strategy, oracle, quick, thorough, hang_s=40, shrink_s=40, sequence=None, probe=None):
        """
        @param strategy: callable without arguments returning a Hypothesis strategy of JSON-able cases
        @param oracle: callable (case, ctx), raises Violation
        @param quick, thorough: number of cases, over all workers
        @param sequence: instead of strategy, a callable without arguments returning a list of all cases (enumeration)
        @param probe: name of a known finding, that the cases of the sequence show. a violation is reported as the known
                      finding, when known_findings.txt lists it under this name, and as a violation otherwise
        """
        self.name = name
        self.strategy = strategy
        self.oracle = oracle
        self.quick = quick
        self.thorough = thorough
        self.hang_s = hang_s
        self.shrink_s = shrink_s
        self.sequence = sequence
        self.probe = probe


class Ctx:
    """ what an oracle gets to know and to tell about a case """

    def __init__(self, base):
        self.base = base
        self.labels = {}
        self.is_nontrivial = False
        self._n = 0

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def fresh_dir(self, prefix="d"):
        self._n += 1
        d = os.path.join(os.getcwd(), f"{prefix}{self._n}")
        os.makedirs(d)
        return d


def case_hash(campaign, case):
    return hashlib.sha1((campaign + "\0" + json.dumps(case, sort_keys=True)).encode("utf-8", "replace")).hexdigest()[:16]


# ---------------------------------------------------------------- process state

def scratch_root():
    for d in ("/dev/shm", tempfile.gettempdir()):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return tempfile.mkdtemp(prefix="vp-", dir=d)
    return tempfile.mkdtemp(prefix="vp-")


class ProcessState:
    """ remembers the state of the worker process, and puts it back after each case """

    def __init__(self):
        self.environ = dict(os.environ)
        self.stdout, self.stderr, self.stdin = sys.stdout, sys.stderr, sys.stdin
        self.handlers = list(logging.getLogger().handlers)
        self.level = logging.getLogger().level
        self.modules = set(sys.modules)
        self.path = list(sys.path)

    def restore(self):
        if dict(os.environ) != self.environ:
            os.environ.clear()
            os.environ.update(self.environ)
        sys.stdout, sys.stderr, sys.stdin = self.stdout, self.stderr, self.stdin
        root = logging.getLogger()
        root.handlers = list(self.handlers)
        root.setLevel(self.level)
        sys.path[:] = self.path
        forget_config()


CONFIG_STATE = {}


def config_state():
    import types
    import booktest.config
    return {k: v for k, v in vars(booktest.config).items()
            if not k.startswith("__") and not isinstance(v, (types.ModuleType, types.FunctionType, type, str)) and not callable(v)}


def forget_config():
    """ the configuration is read once in a process: each case starts with what there is in a new one """
    import copy
    import booktest.config
    now = config_state()
    if not CONFIG_STATE:
        # called first when nothing has been read
        CONFIG_STATE.update({k: copy.deepcopy(v) for k, v in now.items()})
        CONFIG_STATE[""] = None
    for k, v in now.items():
        if k in CONFIG_STATE:
            setattr(booktest.config, k, copy.deepcopy(CONFIG_STATE[k]))
        else:
            delattr(booktest.config, k)
    for v in list(vars(booktest.config).values()):
        if hasattr(v, "cache_clear"):
            v.cache_clear()


UNREADABLE = (LookupError, ValueError, FileNotFoundError, NotADirectoryError, IsADirectoryError, TypeError, AttributeError, EOFError,
              pickle.UnpicklingError)


def in_repo(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + "/"):
            return True
        tb = tb.tb_next
    return False


def on_alarm(_sig, _frame):
    raise Hang()


def evaluate(campaign, case, base, state, hang_s=None):
    """ runs the oracle in a fresh scratch directory. returns (ctx, message or None, is_hang) """
    ctx = Ctx(base)
    d = os.path.join(base, "case")
    if os.path.exists(d):
        shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    os.chdir(d)
    ctx.dir = d
    signal.signal(signal.SIGALRM, on_alarm)
    limit = hang_s or campaign.hang_s
    signal.alarm(limit)
    message, is_hang = None, False
    try:
        try:
            campaign.oracle(case, ctx)
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
    except Violation as e:
        message = str(e)
    except Hang:
        message, is_hang = f"did not end in {limit} s", True
    except (HarnessError, MemoryError, StopCampaign):
        raise
    except Exception as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        if in_repo(e.__traceback__):
            message = "unexpected exception: " + "".join(traceback.format_exception(e))[-1500:]
        elif isinstance(e, UNREADABLE):
            # nothing of this happens, when the case leaves behind what the oracle knows
            message = "cannot make sense of the outcome: " + "".join(traceback.format_exception(e))[-1500:]
        else:
            raise
    except SystemExit as e:
        if in_repo(e.__traceback__):
            message = "unexpected exit: " + "".join(traceback.format_exception(e))[-1500:]
        else:
            raise HarnessError("exit from oracle: " + traceback.format_exc())
    finally:
        state.restore()
        os.chdir(base)
        shutil.rmtree(d, ignore_errors=True)
    return ctx, message, is_hang


# ---------------------------------------------------------------- a worker

class Stats:
    def __init__(self):
        self.evaluations = 0
        self.labels = {}
        self.hashes = set()
        self.samples = []
        self.per_campaign = {}
        self.probes = {}

    def add(self, campaign, case, ctx):
        self.evaluations += 1
        c = self.per_campaign.setdefault(campaign, [0, 0])
        c[0] += 1
        for k, v in ctx.labels.items():
            k = f"{campaign}:{k}"
            self.labels[k] = self.labels.get(k, 0) + v
        if ctx.is_nontrivial:
            h = case_hash(campaign, case)
            if h not in self.hashes:
                c[1] += 1
                self.hashes.add(h)
                if sum(1 for s in self.samples if s["campaign"] == campaign) < 2:
                    text = json.dumps(case)
                    if len(text) < 3000:
                        self.samples.append({"campaign": campaign, "case": case})


def drop_privileges(base):
    if os.getuid() == 0:
        try:
            os.chown(base, NOBODY, NOBODY)
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
        except OSError:
            pass


def prepare_worker(base):
    os.makedirs(os.path.join(base, "home"), exist_ok=True)
    os.makedirs(os.path.join(base, "tmp"), exist_ok=True)
    if os.getuid() == 0:
        for d in (base, os.path.join(base, "home"), os.path.join(base, "tmp")):
            try:
                os.chown(d, NOBODY, NOBODY)
            except OSError:
                pass
    os.chdir(base)
    os.environ["HOME"] = os.path.join(base, "home")
    os.environ["TMPDIR"] = os.path.join(base, "tmp")
    tempfile.tempdir = os.path.join(base, "tmp")
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(base, "hypothesis")
    for key in list(os.environ):
        if key.startswith("BOOKTEST_") or key.lower().endswith("_proxy") or key.startswith("COVERAGE_"):
            del os.environ[key]
    drop_privileges(base)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(3000)
    logging.raiseExceptions = False


def campaign_seed(seed, name, shard):
    return int(hashlib.sha256(f"{seed}/{name}/{shard}".encode()).hexdigest()[:12], 16)


def run_campaign(campaign, count, seed, shard, base, state, stats, stop, deadline):
    """ returns None or a failure (case, message, is_hang) """
    last = {}

    def one(case):
        if stop.is_set() or time.time() > deadline:
            raise StopCampaign()
        ctx, message, is_hang = evaluate(campaign, case, base, state)
        stats.add(campaign.name, case, ctx)
        if message is not None:
            last["failure"] = (case, message, is_hang)
            if is_hang:
                raise StopCampaign()
            raise Violation(message)

    if campaign.sequence is not None:
        cases = list(campaign.sequence())
        for k, case in enumerate(cases):
            if k % SHARDS == shard:
                try:
                    one(case)
                except (Violation, StopCampaign):
                    break
        return last.get("failure")

    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = campaign.shrink_s

    @hypothesis.seed(campaign_seed(seed, campaign.name, shard))
    @settings(max_examples=count, database=None, deadline=None, report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck), verbosity=Verbosity.quiet,
              phases=[Phase.generate, Phase.shrink] if SHRINK else [Phase.generate])
    @given(campaign.strategy())
    def test(case):
        one(case)

    try:
        test()
    except StopCampaign:
        pass
    except BaseException as e:
        if "failure" not in last:
            raise
        if not isinstance(e, Violation) and not type(e).__module__.startswith("hypothesis"):
            # something else than the recorded violation
            if not isinstance(e, (Exception,)):
                raise
    return last.get("failure")


def worker(shard, module, tier, seed, base, stop, deadline, conn, only):
    try:
        prepare_worker(base)
        state = ProcessState()
        stats = Stats()
        failure = None
        times = {}
        for campaign in module.CAMPAIGNS:
            if only and campaign.name not in only:
                continue
            total = int((campaign.quick if tier == "quick" else campaign.thorough) * SCALE)
            count = total // SHARDS + (1 if shard < total % SHARDS else 0)
            if count == 0 and campaign.sequence is None:
                continue
            t0 = time.time()
            failure = run_campaign(campaign, count, seed, shard, base, state, stats, stop, deadline)
            times[campaign.name] = time.time() - t0
            if failure is not None and campaign.probe is not None:
                stats.probes[campaign.name] = failure
                failure = None
                continue
            if failure is not None:
                failure = (campaign.name,) + tuple(failure)
                stop.set()
                break
            if stop.is_set() or time.time() > deadline:
                break
        conn.send(("ok", failure, stats.__dict__, times))
    except BaseException:
        stop.set()
        conn.send(("error", traceback.format_exc(), None, None))
    finally:
        conn.close()
        sys.stdout.flush()
        os._exit(0)
