"""Runs one check (one process tree): cases in parallel, verdict, evidence, known findings."""
import collections
import hashlib
import importlib
import json
import os
import pickle
import random
import signal
import sys
import time
import traceback
from multiprocessing.connection import Pipe, wait

LIB = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(LIB)
sys.path.insert(0, LIB)
sys.path.insert(1, os.path.join(ROOT, "checks"))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(2, REPO)

import simcore  # noqa: E402

simcore.install()
fork = simcore.REAL["os.fork"]
T0 = time.time()


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.repo = REPO
        self.scratch = os.environ["VERIF_SCRATCH"]
        self.quick = tier == "quick"

    def rng(self, *what):
        return random.Random("%s/%s/%s" % (self.seed, self.pid, "/".join(map(str, what))))

    def tmp(self, name):
        d = os.path.join(self.scratch, "w", str(name))
        os.makedirs(d, exist_ok=True)
        os.chmod(os.path.dirname(d), 0o711)
        return d

    def rm(self, d):
        import shutil

        assert os.path.realpath(d).startswith(os.path.realpath(self.scratch) + "/")
        shutil.rmtree(d, ignore_errors=True)


def run_case(mod, ctx, i):
    """One case; always returns an outcome."""
    t = time.time()
    try:
        item = mod.case(i, ctx.rng(i), ctx)
        out = mod.run(item, i, ctx)
        out.setdefault("violations", [])
    except BaseException:
        out = {"violations": [], "error": traceback.format_exc()}
    out["i"] = i
    out["real_s"] = time.time() - t
    return out


def worker_loop(mod, ctx, conn):
    while True:
        try:
            i = conn.recv()
        except EOFError:
            break
        if i is None:
            break
        conn.send_bytes(pickle.dumps(run_case(mod, ctx, i)))
    os._exit(0)


def spawn(mod, ctx):
    a, b = Pipe()
    pid = fork()
    if pid == 0:
        try:
            a.close()
            worker_loop(mod, ctx, b)
        finally:
            os._exit(3)
    b.close()
    return pid, a


def run_all(mod, ctx, indices, limit_s, case_s):
    """Runs the cases on all cores; yields outcomes in order of completion."""
    todo = collections.deque(indices)
    njobs = int(os.environ.get("VERIF_JOBS") or os.cpu_count() or 4)
    busy = {}
    idle = []
    stop = T0 + limit_s
    while todo or busy:
        late = time.time() > stop
        if late:
            todo.clear()
            if not busy:
                break
        while todo and len(busy) < njobs:
            w = idle.pop() if idle else spawn(mod, ctx)
            i = todo.popleft()
            w[1].send(i)
            busy[w[1]] = (w[0], i, time.time())
        if not busy:
            break
        for c in wait(list(busy), timeout=1.0):
            pid, i, t = busy.pop(c)
            try:
                out = pickle.loads(c.recv_bytes())
                idle.append((pid, c))
            except EOFError:
                _, st = simcore.REAL["os.waitpid"](pid, 0)
                out = {"i": i, "violations": [], "error": "worker ended with status %r" % st}
            yield out
        now = time.time()
        for c, (pid, i, t) in list(busy.items()):
            if now - t > case_s:
                simcore.REAL["os.kill"](pid, signal.SIGKILL)
                simcore.REAL["os.waitpid"](pid, 0)
                del busy[c]
                yield {"i": i, "violations": [], "hang": True,
                       "error": "case took over %d s of real time" % case_s}
    for pid, c in idle:
        c.close()


def known_findings(pid):
    out = {}
    try:
        with open(os.path.join(ROOT, "known_findings.txt")) as f:
            for line in f:
                if line.startswith("known: "):
                    parts = line.split(None, 3)
                    if parts[1] == "property=" + pid and parts[2].startswith("key="):
                        out[parts[2][4:]] = parts[3].strip()
    except OSError:
        pass
    return out


def jsonable(x, depth=0):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, str):
        return x.encode("utf-8", "backslashreplace").decode()
    if isinstance(x, (int, float, bool)) or x is None:
        return x
    return repr(x)


def self_test():
    c = simcore.clock()
    c.start(1700000000.0)
    a = time.time()
    c.set_ns(1700000100 * simcore.NS)
    b = time.time()
    c.stop()
    assert 99 < b - a < 101, (a, b)
    import dsari.daemon  # noqa: F401
    import dsari.render  # noqa: F401
    import zoneinfo

    zoneinfo.ZoneInfo("America/New_York")
    print("self test passed")
    return 0


def main():
    argv = sys.argv[1:]
    if argv[0] == "--self-test":
        return self_test()
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if "--replay" in argv:
        replay = argv[argv.index("--replay") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if replay:
        with open(replay) as f:
            r = json.load(f)
        seed, tier = r["seed"], r["tier"]
    ctx = Ctx(pid, tier, seed)
    mod = importlib.import_module(pid)
    if hasattr(mod, "setup"):
        mod.setup(ctx)
    if replay:
        if os.environ.get("VERIF_VERBOSE") == "profile":
            import cProfile

            cProfile.runctx('run_case(mod, ctx, r["case"])', globals(), locals(), sort="cumtime")
            return 0
        out = run_case(mod, ctx, r["case"])
        print(json.dumps(jsonable(out), indent=1)[:200000])
        return 1 if out["violations"] else 0
    n = mod.QUICK if tier == "quick" else mod.THOROUGH
    if callable(n):
        n = n(ctx)
    if os.environ.get("VERIF_N"):
        n = int(os.environ["VERIF_N"])
    limit = getattr(mod, "LIMIT", {}).get(tier, 240 if tier == "quick" else 780)
    known = known_findings(pid)
    counts = collections.Counter()
    fps = set()
    samples, errors, viols = [], [], []
    found = {}
    slowest = []
    done = 0
    for out in run_all(mod, ctx, range(n), limit, getattr(mod, "CASE_S", 120)):
        done += 1
        if out.get("error"):
            errors.append((out["i"], out["error"]))
            continue
        slowest.append((round(out.get("real_s", 0), 1), out["i"]))
        for k, v in out.get("counts", {}).items():
            counts[k] = max(counts[k], v) if k.startswith("max-") else counts[k] + v
        if out.get("nontrivial", True):
            fps.add(out.get("fp") or str(out["i"]))
        if "fps" in out:
            fps.update(out["fps"])
        if out.get("sample") is not None and len(samples) < 3:
            samples.append(jsonable(out["sample"]))
        for v in out["violations"]:
            if v["key"] in known:
                found[v["key"]] = found.get(v["key"], 0) + 1
            else:
                viols.append((out["i"], v))
        if len(viols) > 40:
            break
    post = []
    if hasattr(mod, "finish"):
        post = mod.finish(ctx, counts) or []
        for v in post:
            if v["key"] in known:
                found[v["key"]] = found.get(v["key"], 0) + 1
            else:
                viols.append((None, v))
    for k, c in sorted(found.items()):
        print("KNOWN-FINDING: property=%s %s (key %s, seen %d times)" % (pid, known[k], k, c))
    rc = 0
    why = None
    if viols:
        rc = 1
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        seen = set()
        for i, v in viols:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            path = os.path.join(ROOT, "replays", "%s-%s.json" % (
                pid, hashlib.sha1(("%s/%s/%s" % (seed, i, v["key"])).encode()).hexdigest()[:12]))
            rec = {"property": pid, "seed": seed, "tier": tier, "case": i, "violation": jsonable(v)}
            with open(path, "w") as f:
                json.dump(rec, f, indent=1)
            print("%s: case %s: [%s] %s" % (pid, i, v["key"], str(v["what"])[:1500]))
            print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(path, ROOT)))
            if len(seen) >= 8:
                break
    else:
        need = getattr(mod, "NEED", {})
        if errors and len(errors) > max(2, done // 50):
            why = "%d of %d cases ended in errors, e.g. %s" % (len(errors), done, errors[0][1][-3000:])
        elif done < n and done < n // 20 + 1:
            why = "only %d of %d cases in time" % (done, n)
        else:
            for k, m in need.items():
                if counts[k] < m * min(1.0, done / max(1, n)):
                    why = "the monitor saw too little: %s = %d (need %d)" % (k, counts[k], m)
        if why:
            rc = 2
            print("INCONCLUSIVE property=%s %s" % (pid, why), file=sys.stderr)
    for i, e in errors[:3]:
        print("note: case %s was not judged: %s" % (i, e[-1500:]), file=sys.stderr)
    cov = {
        "evaluations": done, "distinct_nontrivial": len(fps), "rule": mod.RULE,
        "samples": samples or [{"note": "no sample"}],
        "observed": {k: counts[k] for k in sorted(counts)},
        "cases_planned": n, "cases_not_judged": len(errors),
        "known_findings_seen": found,
        "slowest_case_s": max(slowest)[0] if slowest else None,
    }
    if os.environ.get("VERIF_VERBOSE"):
        print("slowest: %s" % sorted(slowest)[-8:])
    if hasattr(mod, "EXHAUSTIVE"):
        cov["exhaustive"] = bool(mod.EXHAUSTIVE) and done == n
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": cov, "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - T0, 2), "violations": len(viols),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", ".%s.%d" % (pid, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(jsonable(ev), f, indent=1)
        f.write("\n")
    simcore.REAL["os.rename"](tmp, os.path.join(ROOT, "evidence", pid + ".json"))
    print("%s %s: %s; %d cases, %d distinct, %.1f s" % (
        pid, tier, {0: "held", 1: "VIOLATED", 2: "inconclusive"}[rc], done, len(fps), time.time() - T0))
    return rc


if __name__ == "__main__":
    rc = 3
    try:
        rc = main()
    except BaseException:
        traceback.print_exc()
        if isinstance(sys.exc_info()[1], SystemExit):
            rc = 3
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(rc)
