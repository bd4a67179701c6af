"""A compiled configuration dump is a loadable, equivalent configuration."""
import json
import zlib

import gencfg
import model
import tools

RULE = ("one evaluation = one random valid configuration: compiled dumps in JSON and YAML by the real tool, each loaded back as a "
        "configuration of its own, checked, dumped again and compared; distinct = different document")
NEED = {"round-trips": 300, "jobs": 400, "scheduled-jobs": 300}
ASSUMPTIONS = ["R schedules are random by design: their next run is not compared"]
QUICK = 240
THOROUGH = 20000
setup = tools.prepare


def case(i, rng, ctx):
    d = gencfg.doc(rng)
    return {"doc": d, "files": gencfg.file(rng, d), "now": rng.randrange(1600000000, 1800000000) + rng.random(), "tz": rng.choice(gencfg.gen.TZS),
            "name": rng.choice(["json", "yaml"])}


def norm(dump, random_jobs):
    out = json.loads(json.dumps(dump))
    for n, j in out["jobs"].items():
        if n in random_jobs:
            j["next_scheduled_run"] = None
    return out


def run(item, i, ctx):
    import os

    v, keys = [], set()

    def bad(key, what):
        if key not in keys:
            keys.add(key)
            v.append({"key": key, "what": "%s; configuration: %s" % (what, item["files"])})

    root = os.path.realpath(ctx.tmp("c%d-%d" % (os.getpid(), i)))
    counts = {"round-trips": 0}
    try:
        conf = tools.configure(root, item["files"])
        k = {"now": item["now"], "tz": item["tz"], "tick_ns": 0}
        docj = json.loads(json.dumps(item["doc"]).replace("@ROOT@", root))
        j = tools.info(root, conf, "config", "dump", "--format", "json", **k)
        y = tools.info(root, conf, "config", "dump", "--format", "yaml", **k)
        if j.code or y.code:
            bad("no-dump", "dump failed: %r / %r" % (j, y))
            return {"violations": v}
        try:
            dj, dy = j.json(), y.yaml()
        except Exception as e:
            bad("unparsable-dump", "dump cannot be parsed: %r" % e)
            return {"violations": v}
        jobs = gencfg.compiled_jobs(docj)
        rnd = {n for n, x in jobs.items() if x["schedule"] and "R" in x["schedule"].split("RULE")[0] and not x["schedule"].upper().startswith("RRULE")}
        if not model.same(norm(dj, rnd), norm(dy, rnd)):
            bad("formats-differ", "JSON dump %r, YAML dump %r" % (dj, dy))
        # the dump says what was written
        if set(dj.get("jobs", {})) != set(jobs):
            bad("jobs-differ", "dumped jobs %r, configured %r" % (sorted(dj["jobs"]), sorted(jobs)))
        else:
            for n, x in jobs.items():
                g = dict(dj["jobs"][n])
                nx = g.pop("next_scheduled_run", None)
                g["concurrency_groups"] = sorted(g.get("concurrency_groups") or [])
                if set(x) - set(g):
                    bad("option-missing", "job %r dumped without %r" % (n, sorted(set(x) - set(g))))
                for o in x:
                    if o in g and not (model.same(g[o], x[o]) or o == "job_group" and x[o] is None and g[o] is None):
                        bad("option-" + o, "job %r has %s=%r, dumped %r" % (n, o, x[o], g[o]))
                if (nx is None) != (x["schedule"] is None) and not (x["schedule"] or "").upper().startswith("RRULE"):
                    bad("next-run", "job %r with schedule %r has next run %r" % (n, x["schedule"], nx))
        raw = tools.info(root, conf, "config", "dump", "--raw", "--format", item["name"], **k)
        r = raw.json() if item["name"] == "json" else raw.yaml()
        if not model.same(r, docj):
            bad("raw", "raw dump %r" % r)
        # round trips
        for fmt, text in (("json", j.out), ("yaml", y.out)):
            root2 = os.path.join(root, "again-" + fmt)
            os.makedirs(root2)
            conf2 = tools.configure(root2, {"dsari." + fmt: text})
            c = tools.info(root, conf2, "config", "check", **k)
            if c.code != 0:
                bad("rejected-" + fmt, "the %s dump is not accepted: %r\n%r" % (fmt, c, text))
                continue
            again = tools.info(root, conf2, "config", "dump", "--format", fmt, **k)
            d2 = again.json() if fmt == "json" else again.yaml()
            a, b = norm(dj, rnd), norm(d2, rnd)
            for x in (a, b):
                x.pop("config_d", None)
            if not model.same(a, b):
                ks = [q for q in set(a) | set(b) if not model.same(a.get(q), b.get(q))]
                q = sorted(ks)[0]
                bad("changed-" + q, "%s was %r, after a round trip through %s %r" % (q, a.get(q), fmt, b.get(q)))
            counts["round-trips"] += 1
        counts["jobs"] = len(jobs)
        counts["scheduled-jobs"] = len([1 for x in jobs.values() if x["schedule"]])
        out = {"violations": v, "counts": counts, "fp": str(zlib.crc32(json.dumps(item["doc"], sort_keys=True).encode()))}
        if i < 2:
            out["sample"] = {"files": item["files"], "dump": j.text[:1500]}
        return out
    finally:
        ctx.rm(root)
