"""PREVIOUS_* variables describe the latest earlier runs of the same job."""
import os

import gen
import rows
import simcheck
import simcore

RULE = ("one evaluation = two successive histories of the real daemon (the first ended by a shutdown or killed) on a database that already "
        "has records of the same and of similarly named jobs; every environment at exec is compared with the committed records of that "
        "instant; distinct = different event sequence")
NEED = {"starts": 1500, "with-previous": 1200, "with-good": 900, "with-bad": 700, "without-previous": 50, "out-of-order": 60,
        "restarts": 60, "restart-starts": 150}
ASSUMPTIONS = ["stop times of the runs of one job differ", "SQLite"]
QUICK = 240
THOROUGH = 4500
setup = simcheck.prepare


def case(i, rng, ctx):
    prof = {"spans": [(1, 300.0), (1, 700.0)], "njobs": [(1, 1), (1, 3), (1, 5)], "hups": 0.3, "ntrig": [(1, 3), (1, 15)], "p_slow": 0.0,
            "p_anygroups": 0.2, "durs": [(3, 0.4), (2, 8.0), (2, 30.0), (1, 100.0)], "p_limit": 0.15, "p_sched": 0.95, "p_concurrent": 0.6}
    scn = gen.scenario(rng, prof)
    for b in scn["behaviour"]:
        k = rng.random()
        new = []
        for y in scn["behaviour"][b] * 3:
            y = dict(y, dur=gen.duration(rng, prof))
            y["status"] = 0 if k < 0.15 else gen.status(rng) if k < 0.5 else rng.choice([0, 256, 512, 9])
            new.append(y)
        scn["behaviour"][b] = new
    jobs = sorted(scn["model"]["c0"]["jobs"])
    other = sorted({x.upper() for x in jobs} | {x.lower() for x in jobs} | {x + "x" for x in jobs} | {x[:-1] for x in jobs} | {"zz", "%", "_%"})
    hist = []
    if rng.random() < 0.7:
        names = [x for x in jobs if rng.random() < 0.6] + [x for x in other if x and x not in jobs]
        hist = rows.history(rng, names, scn["start"] - 30 * 86400, scn["start"] - 1, rng.choice([1, 5, 30, 120]))
        if rng.random() < 0.4:
            z = rng.choice([0, 1])
            for r in hist:
                r["exit_code"] = z
    scn["crash_at"] = rng.randrange(2000, 30000) if rng.random() < 0.5 else None
    return {"scn": scn, "hist": hist, "gap": rng.choice([0.1, 5.0, 3000.0]), "sig": rng.choice([2, 15])}


def judge(res, final, issue, count, phase):
    db = {x["run_id"]: x for x in final}
    known = []
    for e in res["hist"]:
        if e["e"] == "db":
            known = [x[1] for x in e["runs_list"][:e["runs_n"]]]
        if e["e"] != "start" or "env" not in e["payload"]:
            continue
        env = e["payload"]["env"]
        recs = sorted((db[x] for x in known if x in db and db[x]["job_name"] == e["job"]), key=lambda x: x["stop_time"])
        count("starts")
        if phase:
            count("restart-starts")
        if len(recs) > 1 and recs[-1]["start_time"] < max(x["start_time"] for x in recs):
            count("out-of-order")
        for pre, sel in (("PREVIOUS_", recs), ("PREVIOUS_GOOD_", [x for x in recs if x["exit_code"] == 0]),
                         ("PREVIOUS_BAD_", [x for x in recs if x["exit_code"] != 0])):
            have = {k[len(pre):]: v for k, v in env.items() if k.startswith(pre) and not (
                pre == "PREVIOUS_" and k.startswith(("PREVIOUS_GOOD_", "PREVIOUS_BAD_")))}
            name = pre.lower().strip("_").replace("_", "-")
            if not sel:
                if pre == "PREVIOUS_":
                    count("without-previous")
                if have:
                    issue(name + "-unexpected", "run of %r sees %s=%r, but there is no such earlier run" % (e["job"], pre, have))
                continue
            count({"PREVIOUS_": "with-previous", "PREVIOUS_GOOD_": "with-good", "PREVIOUS_BAD_": "with-bad"}[pre])
            x = sel[-1]
            # runs that ended at the same time (a database may keep milliseconds only)
            x = next((y for y in sel if y["stop_time"] == x["stop_time"] and y["run_id"] == have.get("RUN_ID")), x)
            try:
                ok = (have["RUN_ID"] == x["run_id"] and have["EXIT_CODE"] == str(x["exit_code"]) and all(
                    abs(float(have[a.upper()]) - x[a]) < 1e-5 for a in ("schedule_time", "start_time", "stop_time")) and len(have) == 5)
            except (KeyError, ValueError):
                ok = False
            if not ok:
                issue(name + ("-missing" if not have else "-wrong" if have.get("RUN_ID") != x["run_id"] else "-values"),
                      "run of %r sees %s*=%r, the last such run is %r" % (e["job"], pre, have, x))


def run(item, i, ctx):
    scn = item["scn"]
    d = ctx.tmp("h%d-%s" % (os.getpid(), i))
    v, counts, keys = [], {}, set()

    def count(k, n=1):
        counts[k] = counts.get(k, 0) + n

    def issue(key, what):
        if key not in keys:
            keys.add(key)
            v.append({"key": key, "what": what})

    try:
        dbf = os.path.join(d, "var", "dsari.sqlite3")
        if item["hist"]:
            rows.write(dbf, item["hist"])
        res = simcore.fork_history(scn, d, simcheck.main_entry)
        if res.get("harness_error"):
            return {"error": res["harness_error"]}
        if res["exit"]["kind"] not in ("return", "crash"):
            return {"error": "daemon ended: %r" % (res["exit"],)}
        rec = simcore.read_db(dbf)["runs"]
        if rec is None:
            return {"violations": [], "nontrivial": False}
        judge(res, rec, issue, count, 0)
        t = res["exit"]["t"] + item["gap"]
        cid = [e["cid"] for e in res["hist"] if e["e"] == "config"][-1:] or ["c0"]
        cid = "c0" if scn["model"][cid[0]].get("broken") else cid[0]
        scn2 = dict(scn, crash_at=None, start=t, end=120.0, cid0=cid, config_files=gen.files(scn["model"][cid]),
                    events=[{"t": 120.0, "op": "signal", "sig": item["sig"]}], precreate_triggers=[], first_pid=200001)
        res2 = simcore.fork_history(scn2, d, simcheck.main_entry)
        if res2.get("harness_error"):
            return {"error": res2["harness_error"]}
        if res2["exit"]["kind"] != "return":
            return {"error": "second daemon ended: %r" % (res2["exit"],)}
        count("restarts")
        judge(res2, res2["db"]["runs"], issue, count, 1)
        out = {"violations": v, "counts": counts, "fp": simcheck.fingerprint(res) + simcheck.fingerprint(res2)}
        if i < 3:
            out["sample"] = {"records before": len(item["hist"]), "first": simcheck.sample(scn, res)["events"][:20]}
        return out
    finally:
        ctx.rm(d)
