"""Run and job listings show exactly the recorded runs and configured jobs."""
import datetime
import json
import os
import re
import shlex
import zlib

import cronref
import gen
import gencfg
import model
from listing import PARSE, columns, near, us, us_f
import rows
import tools

RULE = ("one evaluation = one database (rows written directly) and configuration with the run and job listings of the real tool in all formats and "
        "several filters compared with the rows and configuration; distinct = different database and configuration")
NEED = {"listings": 1500, "runs": 3000, "running": 600, "filtered": 500, "no-match": 50, "jobs-listed": 500, "narrow": 50, "next-runs": 200, "next-other-zone": 50}
ASSUMPTIONS = ["SQLite tables as documented", "times are compared to the microsecond"]
QUICK = 140
THOROUGH = 9000
setup = tools.prepare


def case(i, rng, ctx):
    cfg = gencfg.doc(rng, rng.randrange(1, 6))
    cfg.pop("database", None)
    if rng.random() < 0.3:
        cfg["database"] = {"type": "sqlite3", "file": "@ROOT@/elsewhere/my db"}
    jobs = list(gencfg.compiled_jobs(cfg)) + (["gone job", "zz"] if rng.random() < 0.5 else [])
    now = rng.randrange(1600000000, 1800000000) + rng.random()
    n = rng.choice([0, 1, 3, 8, 25, 60])

    def data():
        return {str(k): gen.data_value(rng) for k in range(rng.randrange(0, 3))} if rng.random() < 0.4 else {}

    done = []
    for _ in range(n):
        r = rows.record(rng, rng.choice(jobs), now - rng.choice([rng.uniform(0, 3000), rng.uniform(0, 90000), rng.uniform(0, 10 ** 7)]), data=data(), tdata=data())
        done.append(r)
    if done and rng.random() < 0.2:
        # same times
        done.append(dict(done[0], run_id=rows.run_id(rng)))
    if done and rng.random() < 0.3:
        r = done[-1]
        r.update(rng.choice([{"exit_code": 0, "stop_time": r["start_time"]}, {"start_time": float(int(r["start_time"]))}, {"schedule_time": 0.0},
                             {"schedule_time": 1234567890.0, "exit_code": 255}]))
        r["stop_time"] = max(r["stop_time"], r["start_time"])
    live = [rows.record(rng, rng.choice(jobs), now - rng.choice([0.5, rng.uniform(0, 5000), rng.uniform(0, 10 ** 6)]), running=True, data=data(), tdata=data())
            for _ in range(rng.choice([0, 1, 2, 5, 12]))]
    ids = [r["run_id"] for r in done + live]
    lists = []
    for fmt in ("json", "yaml", "tabular", "pretty"):
        lists.append({"fmt": fmt})
        js = rng.sample(jobs, rng.randrange(1, len(jobs) + 1))
        lists.append({"fmt": fmt, "job": js + (["nothing"] if rng.random() < 0.3 else [])})
        xs = rng.sample(ids, rng.randrange(1, min(len(ids), 6) + 1)) if ids else []
        lists.append({"fmt": fmt, "run": xs + ([rows.run_id(rng)] if rng.random() < 0.4 or not xs else [])})
    lists.append({"fmt": rng.choice(["json", "tabular"]), "job": ["no such job"]})
    lists.append({"fmt": "json", "job": [jobs[0], jobs[0]]})
    lists.append({"fmt": "pretty", "columns": rng.choice([40, 60, 80, 120])})
    return {"cfg": cfg, "files": gencfg.file(rng, cfg), "jobs": jobs, "done": done, "live": live, "lists": lists, "now": now, "tz": rng.choice(gen.TZS),
            "jobsel": rng.sample(jobs, rng.randrange(1, len(jobs) + 1))}


def run(item, i, ctx):
    v, keys = [], set()
    counts = dict.fromkeys(NEED, 0)

    def bad(key, what):
        if key not in keys:
            keys.add(key)
            v.append({"key": key, "what": what})

    root = os.path.realpath(ctx.tmp("c%d-%d" % (os.getpid(), i)))
    try:
        conf = tools.configure(root, item["files"])
        db = item["cfg"].get("database", {}).get("file", "@ROOT@/var/dsari.sqlite3").replace("@ROOT@", root)
        rows.write(db, item["done"], item["live"])
        k = {"now": item["now"], "tz": item["tz"], "tick_ns": 0}
        rec = {r["run_id"]: r for r in item["done"] + item["live"]}
        for l in item["lists"]:
            argv = ["run", "list", "--format", l["fmt"]]
            want = set(rec)
            if "job" in l:
                for x in l["job"]:
                    argv += ["--job=" + x]
                want = {x for x in rec if rec[x]["job_name"] in l["job"]}
            if "run" in l:
                for x in l["run"]:
                    argv += ["--run", x]
                want = {x for x in rec if x in l["run"]}
            r = tools.info(root, conf, *argv, environ={"COLUMNS": str(l["columns"])} if "columns" in l else None, **k)
            what = "dsari-info %s" % " ".join(argv)
            if r.code != 0:
                bad("failed-" + l["fmt"], "%s: %r" % (what, r))
                continue
            counts["listings"] += 1
            counts["filtered"] += "job" in l or "run" in l
            counts["no-match"] += not want
            counts["narrow"] += "columns" in l
            try:
                got = PARSE[l["fmt"]](r)
            except Exception as e:
                bad("unparsable-" + l["fmt"], "%s: %r; %r" % (what, e, r))
                continue
            ids = [x["run_id"] for x in got]
            if len(ids) != len(set(ids)):
                bad("twice-" + l["fmt"], "%s lists a run more than once: %r" % (what, ids))
            if set(ids) != want:
                bad("set-" + l["fmt"], "%s should list %r, lists %r" % (what, sorted(want), sorted(ids)))
                continue
            for x in got:
                w = rec[x["run_id"]]
                counts["runs"] += 1
                live = "stop_time" not in w
                counts["running"] += live
                for f, y in x.items():
                    if f in ("run_id",):
                        continue
                    if f.endswith("_time"):
                        ok = y is None and live and f == "stop_time" or y is not None and w.get(f) is not None and near(y, us_f(w[f]))
                    elif f == "exit_code":
                        ok = y is None if live else y == w["exit_code"]
                    elif f == "duration":
                        ok = near(y, us_f((item["now"] if live else w["stop_time"])) - us_f(w["start_time"]))
                    elif f == "job":
                        ok = y == w["job_name"].rstrip()
                    elif f == "delay":
                        ok = near(y, us_f(w["start_time"]) - us_f(w["schedule_time"]))
                    elif f in ("trigger_data", "run_data"):
                        ok = model.same(y, w[f])
                    else:
                        ok = y == w[f]
                    if not ok:
                        bad("%s-%s" % (f, l["fmt"]), "%s shows %s %r of the %s run %r" % (what, f, y, "running" if live else "completed", w))
        # jobs
        want = gencfg.compiled_jobs(json.loads(json.dumps(item["cfg"]).replace("@ROOT@", root)))

        def own(n, shown, fmt, what):
            """The next run against an evaluation of our own."""
            s = want[n]["schedule"]
            if s is None or re.search("[HR@]", re.sub("MAR|APR|FRI|THU", "", s.upper())):
                return
            tz = want[n]["schedule_timezone"] or item["tz"]
            try:
                c = cronref.Cron(s if len(s.split()) > 5 else s + " *", tz)
                # without seconds: some second of the minute, of this or the next matching one
                w = c.next(item["now"] if len(s.split()) > 5 else item["now"] // 60 * 60 + 59)
            except ValueError:
                return
            if w is None or not all(cronref.dst_free(tz, x, before=2 * 86400, after=2 * 86400, step=6 * 3600) for x in (item["now"], w)) \
                    or cronref.utcoffset(tz, item["now"]) != cronref.utcoffset(tz, w):
                return
            counts["next-runs"] += 1
            counts["next-other-zone"] += tz != item["tz"]
            x = shown and us(shown) / 1e6
            if not shown or (len(s.split()) > 5 and not -1e-7 <= x - w <= 1.0000001) or not item["now"] < x <= w + 61 \
                    or not (c.matches(int(x)) or c.matches(int(x - 1))):
                bad("job-next-" + fmt, "%s: job %r with schedule %r in %s at %.6f: next run %r shown, expected %d" % (what, n, s, tz, item["now"], shown, w))
            elif datetime.datetime.fromisoformat(shown).utcoffset().total_seconds() != cronref.utcoffset(tz, w):
                bad("job-next-zone-" + fmt, "%s: job %r with schedule %r in %s: next run shown as %r" % (what, n, s, tz, shown))

        dump = tools.info(root, conf, "config", "dump", **k)
        nexts = {n: j.get("next_scheduled_run") for n, j in dump.json()["jobs"].items()} if dump.code == 0 else {}
        for sel in (None, item["jobsel"], ["no such job"]):
            names = sorted(want) if sel is None else sorted(set(want) & set(sel))
            for fmt in ("json", "yaml", "tabular", "pretty"):
                argv = ["job", "list", "--format", fmt] + (["--job=" + x for x in sel] if sel else [])
                what = "dsari-info %s" % " ".join(argv)
                r = tools.info(root, conf, *argv, **k)
                if r.code != 0:
                    bad("failed-jobs-" + fmt, "%s: %r" % (what, r))
                    continue
                if fmt in ("json", "yaml"):
                    got = r.json() if fmt == "json" else r.yaml()
                    if sorted(got) != names:
                        bad("jobs-" + fmt, "%s should list %r, lists %r" % (what, names, sorted(got)))
                        continue
                    for n in names:
                        g = dict(got[n])
                        nx = g.pop("next_scheduled_run", None)
                        g["concurrency_groups"] = sorted(g.get("concurrency_groups") or [])
                        for o in want[n]:
                            if not model.same(g.get(o), want[n][o]):
                                bad("job-%s-%s" % (o, fmt), "%s: job %r has %s=%r, shown %r" % (what, n, o, want[n][o], g.get(o)))
                        if "R" not in (want[n]["schedule"] or "").split("RULE")[0].upper().replace("MAR", "").replace("APR", "").replace("FRI", "") \
                                and nx != nexts.get(n):
                            bad("job-next-" + fmt, "%s: job %r has next run %r, shown %r" % (what, n, nexts.get(n), nx))
                        own(n, nx, fmt, what)
                        counts["jobs-listed"] += 1
                    continue
                if any("\n" in c or "\t" in c for n in names for c in want[n]["command"]) or any("\t" in (want[n]["schedule"] or "") for n in names):
                    continue
                if fmt == "tabular":
                    got = [x.split("\t") for x in r.text.split("\n")[:-1]]
                    got = {x[0]: {"schedule": x[1], "command": x[2], "next": x[3]} for x in got}
                    cnt = len(r.text.split("\n")) - 1
                else:
                    h, t = columns(r.text)
                    cut = h.index("Job Name"), h.index("Schedule"), h.index("Command"), h.index("Next Scheduled Run")
                    got = {}
                    for x in t:
                        got[x[cut[0]].rstrip()] = {"schedule": x[cut[1]], "command": x[cut[2]], "next": x[cut[3]].rstrip()}
                    cnt = len(t)
                wn = {n.rstrip() if fmt == "pretty" else n: n for n in names}
                if sorted(got) != sorted(wn) or cnt != len(names):
                    if len(wn) == len(names):
                        bad("jobs-" + fmt, "%s should list %r, lists %r" % (what, names, r.text))
                    continue
                for a, n in wn.items():
                    counts["jobs-listed"] += 1
                    if got[a]["schedule"].rstrip() != (want[n]["schedule"] or "").rstrip():
                        bad("job-schedule-" + fmt, "%s: job %r has schedule %r, shown %r" % (what, n, want[n]["schedule"], got[a]["schedule"]))
                    if not re.search("R", re.sub("MAR|APR|FRI|RRULE", "", (want[n]["schedule"] or "").upper())):
                        nx = got[a]["next"] or None
                        if (nx and us(nx)) != (nexts.get(n) and us(nexts[n])):
                            bad("job-next-" + fmt, "%s: job %r has next run %r, shown %r" % (what, n, nexts.get(n), nx))
                        own(n, nx, fmt, what)
                    try:
                        c = shlex.split(got[a]["command"])
                    except ValueError:
                        c = None
                    if fmt == "tabular" and c != want[n]["command"]:
                        bad("job-command-" + fmt, "%s: job %r has command %r, shown %r" % (what, n, want[n]["command"], got[a]["command"]))
        out = {"violations": v, "counts": counts, "fp": str(zlib.crc32(json.dumps([item["files"], item["done"], item["live"]], sort_keys=True).encode()))}
        if i in (4, 5):
            out["sample"] = {"rows": [r for r in rec.values()][:2], "tabular": tools.info(root, conf, "run", "list", "--format", "tabular", **k).text[:600]}
        return out
    finally:
        ctx.rm(root)
