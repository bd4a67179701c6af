"""The hand-over from running to history is atomic at every crash point."""
import os
import random

import gen
import model
import simcheck
import simcore

RULE = ("one evaluation = one history of the real daemon killed at one chosen operation (database statement, commit, fork, wait, file "
        "operation, sleep), inspected, and continued by a second daemon on what was left; a second connection looks at the "
        "database at every operation of both; distinct = (history, operation)")
LEVEL = "fault_enumeration"
NEED = {"crashes": 200, "db-states": 1000, "crash-with-running": 60}
ASSUMPTIONS = ["a kill is process death without cleanup; the page cache survives (no power loss)", "SQLite"]
bases = []
points = []


def base(rng, b):
    prof = {"spans": [(1, 60.0), (1, 100.0)], "njobs": [(1, 1 + b % 3)], "hups": 0.3 if b % 2 else 0, "ntrig": [(1, 3)],
            "p_concurrent": 0.4, "p_limit": 0.3, "p_slow": 0.0, "p_anygroups": 0.3,
            "durs": [(2, 0.05), (3, 4.0), (2, 15.0), (1, 30.0)]}
    scn = gen.scenario(rng, prof)
    scn["slack"] = 1500
    scn["observe_every"] = True
    return scn


def record(ctx, b):
    res = simcheck.run_scn(ctx, dict(bases[b], record_boundaries=True), "rec%d" % b)
    return res.get("bnames")


def setup(ctx):
    simcheck.prepare(ctx)
    n = 8 if ctx.quick else 60
    for b in range(n):
        bases.append(base(ctx.rng("base", b), b))
    for b, names in enumerate(simcheck.pmap(ctx, n, lambda b: record(ctx, b))):
        for x in names or ():
            points.append((b, x[0], x[1]))
    rng = ctx.rng("order")
    # everything around the database and processes first, a part of the plain polls
    rng.shuffle(points)
    points.sort(key=lambda p: p[2] in ("sleep", "wait"))


def QUICK(ctx):
    return min(len(points), 480)


def THOROUGH(ctx):
    return len(points)


def case(i, rng, ctx):
    return points[i]


def rows(x):
    return {r["run_id"]: tuple(sorted((k, v) for k, v in r.items() if k != "rowid")) for r in x or ()}


def run(item, i, ctx):
    b, at, name = item
    scn = dict(bases[b], crash_at=at)
    d = ctx.tmp("c%d-%d" % (os.getpid(), i))
    try:
        res = simcore.fork_history(scn, d, simcheck.main_entry)
        if res.get("harness_error"):
            return {"error": res["harness_error"]}
        v = []

        def bad(key, what, **k):
            v.append(dict(k, key=key, what="killed at operation %d (%s): %s" % (at, name, what)))

        c = model.Checker(scn, res)
        c.check_db()
        for x in c.issues:
            if "R02" in x["labels"]:
                bad(x["key"], x["what"])
        if res["exit"]["kind"] != "crash":
            if res["exit"]["kind"] in ("exc", "exit", "killed"):
                bad("daemon-crash", str(res["exit"])[-1500:])
                return {"violations": v}
            return {"violations": v, "nontrivial": False, "counts": {"not-reached": 1}}
        live = {r.id for r in c.runs if r.reap is None}
        dbf = os.path.join(d, "var", "dsari.sqlite3")
        db = simcore.read_db(dbf)
        before = {}
        if db["error"] and "no such table" not in db["error"]:
            bad("unreadable", "database unreadable after the kill: %s" % db["error"])
        elif db["runs"] is not None:
            if db["integrity"] != "ok":
                bad("integrity", "integrity check says %r" % db["integrity"])
            before = rows(db["runs"])
            run_ids = [x["run_id"] for x in db["running"] or ()]
            for r in c.runs:
                n = (r.id in before) + run_ids.count(r.id)
                if r.job is not None and n != 1:
                    bad("places", "after the kill run %s is listed %d times" % (r.id, n))
            for x in before:
                r = [r for r in c.runs if r.id == x]
                if not r or r[0].exit is None:
                    bad("phantom", "the history lists %r, which has not ended" % x)
        t = res["exit"]["t"] + random.Random(at).choice([0.01, 2.5, 100.0])
        rel = t - scn["start"]
        ev = [dict(e, t=e["t"] - rel) for e in scn["events"] if e["t"] > rel + 1 and e["op"] == "trigger"]
        end = 70.0
        cid = c.effective(res["exit"]["t"])[-1]
        disk = [e["cid"] for e in res["hist"] if e["e"] == "config"]
        cid = disk[-1] if disk else scn["cid0"]
        if scn["model"][cid].get("broken"):
            cid = scn["cid0"]
        scn2 = dict(scn, crash_at=None, start=t, end=end, cid0=cid, config_files=gen.files(scn["model"][cid]),
                    events=sorted([e for e in ev if e["t"] < end] + [{"t": end, "op": "signal", "sig": 15}], key=lambda e: e["t"]),
                    precreate_triggers=[], precreated_runs=set(before), first_pid=200001)
        res2 = simcore.fork_history(scn2, d, simcheck.main_entry)
        if res2.get("harness_error"):
            return {"error": res2["harness_error"]}
        if res2["exit"]["kind"] != "return":
            bad("restart", "the next daemon does not come up or keep running: %s" % str(res2["exit"])[-1500:])
        else:
            c2 = model.Checker(scn2, res2)
            for x in c2.check():
                if "R02" in x["labels"] or "R01" in x["labels"] or "S03" in x["labels"]:
                    # triggers left over from before the kill are picked up by the new daemon
                    if x["key"] in ("unknown-trigger", "late-start", "replaced-started"):
                        continue
                    bad("restart-" + x["key"], "after the restart: " + x["what"])
            old = set(x["run_id"] for x in db["running"] or ())
            for e in res2["hist"]:
                if e["e"] == "db" and e["t"] > t + 3.0 or e["e"] == "db" and any(
                        f["e"] == "start" and f["t"] <= e["t"] for f in res2["hist"]):
                    if old & {x[1] for x in e["running"]}:
                        bad("leftover", "runs of the killed daemon are still listed as running after the restart")
                        break
            if old & {x["run_id"] for x in res2["db"]["running"]}:
                bad("leftover", "runs of the killed daemon are still listed as running after the restart")
            after = rows(res2["db"]["runs"])
            for k, r in before.items():
                if after.get(k) != r:
                    bad("record-lost", "record %s was %r, after the restart %r" % (k, r, after.get(k)))
        counts = {"crashes": 1, "db-states": c.counts.get("db-states", 0), "crash-with-running": int(bool(live)),
                  "crash-at-" + name: 1, "restart-starts": len([e for e in res2["hist"] if e["e"] == "start"]),
                  "observations": res["counts"].get("observations", 0) + res2["counts"].get("observations", 0)}
        out = {"violations": v, "counts": counts, "fp": "%d/%d" % (b, at)}
        if i < 3:
            out["sample"] = {"killed at": "%d %s" % (at, name), "before": simcheck.sample(scn, res)["events"][-10:],
                             "after": simcheck.sample(scn2, res2)["events"][:10]}
        return out
    finally:
        ctx.rm(d)
