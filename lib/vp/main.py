import importlib.util
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import time
import traceback

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

from vp import core
from vp.core import SHARDS, VERIF


def load(property_id):
    file = os.path.join(VERIF, "checks", property_id.lower() + ".py")
    spec = importlib.util.spec_from_file_location("vp_check_" + property_id.lower(), file)
    module = importlib.util.module_from_spec(spec)
    sys.modules[spec.name] = module
    spec.loader.exec_module(module)
    return module


def known_findings(property_id):
    """ the listed findings: lines 'KNOWN-FINDING: property=<id> probe=<name> <what fails>' """
    rv = []
    file = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(file):
        with open(file) as f:
            for line in f:
                if line.startswith(f"KNOWN-FINDING: property={property_id} "):
                    rv.append(line.strip())
    return rv


def replay(module, file, hang_s=None):
    with open(file) as f:
        data = json.load(f)
    campaign = [c for c in module.CAMPAIGNS if c.name == data["campaign"]][0]
    base = core.scratch_root()
    os.chmod(base, 0o755)
    parent = os.getpid()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            core.prepare_worker(base)
            state = core.ProcessState()
            ctx, message, is_hang = core.evaluate(campaign, data["case"], base, state, hang_s)
            os.write(w, json.dumps({"message": message, "hang": is_hang}).encode()[:60000])
        except BaseException:
            os.write(w, json.dumps({"error": traceback.format_exc()[-5000:]}).encode())
        os._exit(0)
    os.close(w)
    data = b""
    while True:
        part = os.read(r, 65536)
        if not part:
            break
        data += part
    os.waitpid(pid, 0)
    shutil.rmtree(base, ignore_errors=True)
    return json.loads(data)


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    property_id = sys.argv[1]
    args = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    if args and args[0] in ("quick", "thorough"):
        tier = args[0]
        args = args[1:]
    seed = int(os.environ.get("VERIF_SEED", "1"))

    begin = time.time()
    import booktest
    if not os.path.abspath(booktest.__file__).startswith(core.REPO + "/"):
        print(f"booktest is imported from {booktest.__file__}")
        return 2
    module = load(property_id)

    if args and args[0] == "--replay":
        rv = replay(module, args[1])
        if "error" in rv:
            print(rv["error"])
            return 2
        if rv["message"] is not None:
            print(rv["message"])
            print(f"VIOLATION property={property_id} replay={args[1]}")
            return 1
        print("holds")
        return 0
    if args and args[0] == "--only":
        only = args[1].split(",")

    limit = float(os.environ.get("VP_LIMIT_S", "420" if tier == "quick" else "3000"))
    deadline = begin + limit
    bases = []
    ctx = multiprocessing.get_context("fork")
    stop = ctx.Event()
    procs = []
    root = core.scratch_root()
    os.chmod(root, 0o755)
    failures, errors = [], []
    total = core.Stats()
    try:
        for shard in range(SHARDS):
            base = os.path.join(root, f"w{shard}")
            os.makedirs(base)
            parent_conn, child_conn = ctx.Pipe(False)
            p = ctx.Process(target=core.worker,
                            args=(shard, module, tier, seed, base, stop, deadline, child_conn, only))
            p.start()
            child_conn.close()
            procs.append((p, parent_conn))
        times = {}
        for shard, (p, conn) in enumerate(procs):
            try:
                while not conn.poll(1):
                    if not p.is_alive() and not conn.poll(0):
                        raise EOFError()
                    if time.time() > deadline + 200:
                        raise EOFError("too late")
                kind, failure, stats, ts = conn.recv()
            except EOFError as e:
                errors.append(f"worker {shard} died {e} {p.exitcode}")
                stop.set()
                continue
            if kind == "error":
                errors.append(failure)
                continue
            if failure is not None:
                failures.append((shard,) + tuple(failure))
            total.evaluations += stats["evaluations"]
            total.hashes |= stats["hashes"]
            total.probes.update(stats["probes"])
            for k, v in stats["labels"].items():
                total.labels[k] = total.labels.get(k, 0) + v
            for k, v in stats["per_campaign"].items():
                o = total.per_campaign.setdefault(k, [0, 0])
                o[0] += v[0]
                o[1] += v[1]
            if shard < 3:
                total.samples.extend(stats["samples"])
            for k, v in ts.items():
                times[k] = max(times.get(k, 0), v)
        for p, _ in procs:
            p.join(5)
            if p.is_alive():
                p.kill()
    finally:
        for p, _ in procs:
            if p.is_alive():
                p.kill()
        shutil.rmtree(root, ignore_errors=True)

    exit_code = 0
    confirmed = []
    findings = known_findings(property_id)
    found = []
    for c in module.CAMPAIGNS:
        if c.probe is not None and c.name in total.probes:
            listed = [line for line in findings if f" probe={c.probe} " in line]
            if listed:
                found += listed
            else:
                failures.append((0, c.name) + tuple(total.probes[c.name]))
    for shard, campaign, case, message, is_hang in failures:
        replays = os.path.join(VERIF, "replays")
        os.makedirs(replays, exist_ok=True)
        file = os.path.join(replays, f"{property_id}-{campaign.replace(' ', '_')}-{core.case_hash(campaign, case)}.json")
        with open(file, "w") as f:
            json.dump({"property": property_id, "campaign": campaign, "case": case,
                       "message": message, "seed": seed, "shard": shard}, f, indent=1)
        again = replay(module, file, 120 if is_hang else None)
        if is_hang and not again.get("message"):
            print(f"a case of {campaign} took long, but ends: {file}")
            total.labels["slow cases"] = total.labels.get("slow cases", 0) + 1
            continue
        if not again.get("message"):
            message += f"\n(not reproduced by the first replay: {again})"
        confirmed.append((file, campaign, message))
        # one is enough, and replays of cases that hang take long
        break

    for file, campaign, message in confirmed[:1]:
        print(f"{campaign}: {message}")
        print(f"VIOLATION property={property_id} replay={file}")
        exit_code = 1
    if errors and exit_code == 0:
        for e in errors[:2]:
            print(e)
        exit_code = 2

    for line in found:
        print(line)

    wall = time.time() - begin
    level = getattr(module, "LEVEL", "exploration")
    evidence = {
        "property": property_id,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": len(total.hashes),
            "rule": module.RULE,
            "samples": total.samples[:12],
            "campaigns": {k: {"evaluations": v[0], "distinct_nontrivial": v[1],
                              "slowest_worker_s": round(times.get(k, 0), 1)}
                          for k, v in total.per_campaign.items()},
            "labels": dict(sorted(total.labels.items())),
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "known_findings": found,
        "violations": len(confirmed),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", property_id + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print(f"{property_id} {tier} seed={seed}: {total.evaluations} cases, {len(total.hashes)} distinct non-trivial, "
          f"{wall:.1f} s, exit {exit_code}")
    return exit_code


if __name__ == "__main__":
    sys.exit(main())
