"""Exported metrics agree with the run records."""
import json
import os
import zlib

import gen
import gencfg
import prom
import rows
import tools

RULE = ("one evaluation = one database (rows written directly) and configuration dumped by the real exporter with some set of options, parsed strictly and "
        "compared with the rows; distinct = different database, configuration or options")
NEED = {"dumps": 300, "jobs": 900, "runs": 5000, "running": 600, "off": 30, "empty-jobs": 150, "many": 60, "quantile-lists": 150, "failed": 1000, "single": 50}
ASSUMPTIONS = ["quantiles interpolate linearly, as documented in the code", "running runs of jobs which are not configured may or may not be given"]
QUICK = 1400
THOROUGH = 12000
setup = tools.prepare


def case(i, rng, ctx):
    cfg = gencfg.doc(rng, rng.randrange(0, 6))
    cfg.pop("database", None)
    if rng.random() < 0.3:
        cfg["database"] = {"type": "sqlite3", "file": "@ROOT@/elsewhere/my db"}
    jobs = list(gencfg.compiled_jobs(cfg))
    t = rng.randrange(1500000000, 1800000000)
    pool = rng.sample(jobs, rng.randrange(1, len(jobs) + 1)) if jobs else []
    pool += ["gone job"] if rng.random() < 0.5 or not pool else []
    done = rows.history(rng, pool, t, t + 10 ** 6, rng.choice([0, 1, 2, 3, 7, 30, 100]))
    k = rng.random()
    if k < 0.15:
        for r in done:
            r["exit_code"] = 0
    elif k < 0.3:
        for r in done:
            r["exit_code"] = rng.randrange(1, 256)
    if rng.random() < 0.3:
        for r in rng.sample(done, len(done) // 2):
            r.update({"schedule_time": r["start_time"]} if rng.random() < 0.5 else {"schedule_time": 0.0} if rng.random() < 0.1 else {
                "schedule_time": float(int(r["schedule_time"]))})
    if rng.random() < 0.25:
        # no time at all, or the clock was set back meanwhile
        for r in rng.sample(done, (len(done) + 2) // 3):
            r["stop_time"] = round(r["start_time"] - (0 if rng.random() < 0.7 else rng.uniform(0, 2)), 6)
            if rng.random() < 0.2:
                r["schedule_time"] = round(r["start_time"] + rng.uniform(0, 2), 6)
        done.sort(key=lambda r: r["stop_time"])
    order = rng.random() < 0.3
    if order:
        # as after an import or a clock step
        rng.shuffle(done)
    live = [rows.record(rng, rng.choice(pool), t + rng.uniform(0, 10 ** 6), running=True) for _ in range(rng.choice([0, 1, 3, 9]))]
    q = None
    k = rng.random()
    if k < 0.4:
        q = rng.choice([[0.5], [0.0, 1.0], [0.25, 0.5, 0.75], [0.999], [0.1, 0.2, 0.3, 0.4], [0, 1], [0.5, 0.01]])
    elif k < 0.6:
        q = sorted({round(rng.random(), rng.choice([1, 2, 4])) for _ in range(rng.randrange(1, 6))})
    return {"cfg": cfg, "files": gencfg.file(rng, cfg), "done": done, "live": live, "q": q, "off": rng.random() < 0.2, "now": t + 10 ** 6 + rng.random(),
            "tz": rng.choice(gen.TZS), "cache": rng.choice([None, None, "0", "1e9", "0.5"])}


def run(item, i, ctx):
    v, keys = [], set()
    counts = dict.fromkeys(NEED, 0)

    def bad(key, what):
        if key not in keys:
            keys.add(key)
            v.append({"key": key, "what": what})

    root = os.path.realpath(ctx.tmp("c%d-%d" % (os.getpid(), i)))
    try:
        conf = tools.configure(root, item["files"])
        f = (item["cfg"].get("database") or {}).get("file")
        rows.write(f.replace("@ROOT@", root) if f else os.path.join(root, "var", "dsari.sqlite3"), item["done"], item["live"])
        argv = ["-c", conf, "--dump"]
        if item["q"] is not None:
            argv += ["--quantiles", ",".join(map(str, item["q"]))]
            counts["quantile-lists"] += 1
        if item["off"]:
            argv.append("--no-running")
        if item["cache"]:
            argv += ["--job-cache-time", item["cache"]]
        r = tools.call(root, "prometheus_exporter", argv, now=item["now"], tz=item["tz"], environ={"WSGI_ARGS": json.dumps(["-c", conf])})
        if r.code != 0:
            bad("failed", "exporter: %r" % r)
            return {"violations": v, "counts": counts, "fp": "failed"}
        try:
            types, out = prom.parse(r.text)
        except ValueError as e:
            bad("format", "output is not well-formed: %s" % e)
            return {"violations": v, "counts": counts, "fp": "format"}
        jobs = gencfg.compiled_jobs(item["cfg"])
        quant = [float(x) for x in item["q"]] if item["q"] is not None else [0.01, 0.1, 0.5, 0.9, 0.99]
        for key, text in prom.check_jobs(out, jobs, item["done"], quant) + prom.check_running(out, jobs, item["live"], not item["off"]):
            bad(key, text)
        if types.get("dsari_run_count", "counter") != "counter" or any(types.get("dsari_run_%s_seconds" % n, "summary") != "summary" for n in ("duration", "latency")):
            bad("types", "types are %r" % types)
        if out.get("dsari_time") is None or abs(list(out["dsari_time"].values())[0] - item["now"]) > 60:
            bad("time", "time is %r at %r" % (out.get("dsari_time"), item["now"]))
        per = {j: sum(x["job_name"] == j for x in item["done"]) for j in jobs}
        counts["dumps"] += 1
        counts["jobs"] += len(jobs)
        counts["runs"] += sum(per.values())
        counts["running"] += sum(x["job_name"] in jobs for x in item["live"]) * (not item["off"])
        counts["off"] += item["off"] and bool(item["live"])
        counts["empty-jobs"] += sum(not x for x in per.values())
        counts["single"] += sum(x == 1 for x in per.values())
        counts["many"] += sum(x >= 15 for x in per.values())
        counts["failed"] += sum(x["exit_code"] != 0 for x in item["done"] if x["job_name"] in jobs)
        res = {"violations": v, "counts": counts, "fp": zlib.crc32(repr((item["cfg"], item["done"], item["live"], item["q"], item["off"])).encode())}
        if i == 0:
            res["sample"] = {"jobs": per, "running": len(item["live"]), "quantiles": quant, "series": sum(map(len, out.values()))}
        return res
    finally:
        ctx.rm(root)
