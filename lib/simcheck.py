"""Common part of the checks that run histories of the daemon in the simulated world."""
import hashlib
import os

import gen
import model
import simcore


def main_entry():
    import dsari.daemon

    return dsari.daemon.main()


def prepare(ctx):
    """Import the code once per worker, before any World is active."""
    import dsari.daemon  # noqa: F401


def run_scn(ctx, scn, i):
    d = ctx.tmp("h%d-%s" % (os.getpid(), i))
    try:
        for c in [scn["model"][scn["cid0"]]] if "model" in scn else []:
            pass
        return simcore.fork_history(scn, d, main_entry)
    finally:
        ctx.rm(d)


def with_dirs(scn, d):
    """Placeholder data directory in the configuration files."""
    return scn


def fingerprint(res):
    """What kind of history was it: order of event kinds per job."""
    h = hashlib.sha1()
    for e in res["hist"]:
        if e["e"] in ("start", "exit", "kill", "sig", "consumed", "config"):
            h.update(("%s/%s/%s|" % (e["e"], e.get("job"), e.get("sig"))).encode())
    return h.hexdigest()[:16]


def judge(pid, scn, res, extra=None):
    """Outcome of one history for one property."""
    if res.get("harness_error"):
        return {"violations": [], "error": res["harness_error"]}
    ex = res["exit"]
    if ex["kind"] == "abort" and "cpu" in ex["why"]:
        return {"violations": [], "error": "cpu limit"}
    c = model.Checker(scn, res)
    issues = c.check()
    if extra:
        extra(c, scn, res)
    v = [x for x in c.issues if pid in x["labels"]]
    counts = dict(c.counts)
    counts["virtual-seconds"] = int(res["hist"][-1]["t"] - scn["start"]) if res["hist"] else 0
    counts["operations"] = res["nb"]
    if ex["kind"] == "abort" and not v:
        return {"violations": [], "error": "history aborted: %s" % ex["why"], "counts": counts}
    return {"violations": v, "counts": counts, "fp": fingerprint(res), "other": [x for x in c.issues if pid not in x["labels"]]}


def sample(scn, res, c=None):
    ev = []
    for e in res["hist"]:
        if e["e"] in ("db",):
            continue
        ev.append("%+.3f %s %s" % (e["t"] - scn["start"], e["e"],
                                   " ".join(str(e[k]) for k in ("job", "sig", "tid", "cid", "status", "state") if e.get(k) is not None)))
        if len(ev) > 40:
            break
    return {"config": scn["config_files"], "events": ev}


def std(pid, prof, quick, thorough, extra=None):
    """Module-level functions for a check that samples random histories."""

    def case(i, rng, ctx):
        p = prof(i, rng, ctx) if callable(prof) else prof
        return gen.scenario(rng, p, pid)

    def run(scn, i, ctx):
        res = run_scn(ctx, scn, i)
        out = judge(pid, scn, res, extra)
        if i < 3 and "hist" in res:
            out["sample"] = sample(scn, res)
        out.pop("other", None)
        return out

    return {"case": case, "run": run, "setup": prepare, "QUICK": quick, "THOROUGH": thorough}


def pmap(ctx, n, f):
    """[f(0), ..., f(n-1)] computed by 8 forked processes; None where that failed."""
    import pickle

    out = [None] * n
    kids = []
    d = ctx.tmp("pmap")
    for w in range(8):
        p = os.path.join(d, str(w))
        pid = simcore.REAL["os.fork"]()
        if pid == 0:
            try:
                r = {b: f(b) for b in range(w, n, 8)}
                with open(p, "wb") as fh:
                    pickle.dump(r, fh)
            except BaseException:
                import traceback

                traceback.print_exc()
            finally:
                os._exit(0)
        kids.append((pid, p))
    for pid, p in kids:
        simcore.REAL["os.waitpid"](pid, 0)
        try:
            with open(p, "rb") as fh:
                for b, x in pickle.load(fh).items():
                    out[b] = x
        except OSError:
            pass
    return out
