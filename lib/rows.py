"""Run records written directly through the documented tables, without the code under test."""
import json
import os
import uuid

import simcore

COLS = ("job_name", "run_id", "schedule_time", "start_time", "stop_time", "exit_code", "trigger_type", "trigger_data", "run_data")
TYPES = {"schedule_time": "real", "start_time": "real", "stop_time": "real", "exit_code": "integer"}


def connect(path):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    c = simcore.REAL["sqlite3.connect"](path, timeout=5)
    for t, cols in (("runs", COLS), ("runs_running", [x for x in COLS if x not in ("stop_time", "exit_code")])):
        c.execute("CREATE TABLE IF NOT EXISTS %s (%s)" % (t, ", ".join("%s %s" % (x, TYPES.get(x, "text")) for x in cols)))
    return c


def add(c, runs=(), running=()):
    for r in runs:
        c.execute("INSERT INTO runs (%s) VALUES (%s)" % (",".join(COLS), ",".join("?" * len(COLS))), vals(r, COLS))
    cols = [x for x in COLS if x not in ("stop_time", "exit_code")]
    for r in running:
        c.execute("INSERT INTO runs_running (%s) VALUES (%s)" % (",".join(cols), ",".join("?" * len(cols))), vals(r, cols))
    c.commit()


def vals(r, cols):
    return [json.dumps(r[x]) if x in ("trigger_data", "run_data") else r[x] for x in cols]


def write(path, runs=(), running=()):
    c = connect(path)
    add(c, runs, running)
    c.close()


def run_id(rng):
    return str(uuid.UUID(int=rng.getrandbits(128), version=4))


def record(rng, job, t, running=False, data=None, tdata=None):
    """A record of a run that started at about t."""
    sched = t - rng.choice([0.0, 0.01, rng.uniform(0, 2), rng.uniform(0, 900)])
    k = rng.random()
    tt = "schedule" if k < 0.6 else "file"
    r = {"job_name": job, "run_id": run_id(rng), "schedule_time": round(sched, 6), "start_time": round(t, 6), "trigger_type": tt,
         "trigger_data": (tdata if tdata is not None else {}) if tt == "file" else {}, "run_data": data or {}}
    if not running:
        r["stop_time"] = round(t + rng.choice([0.004, rng.uniform(0.01, 1), rng.uniform(1, 90), rng.uniform(60, 9000), rng.uniform(0, 200000)]), 6)
        r["exit_code"] = rng.choice([0, 0, 0, 0, 1, 1, 2, 127, 137, 143, 255, rng.randrange(1, 256)])
    return r


def history(rng, jobs, t0, t1, n, p_good=0.0):
    """n completed records between t0 and t1, in order of their stop times (all different)."""
    out, seen = [], set()
    while len(out) < n:
        r = record(rng, rng.choice(jobs), rng.uniform(t0, t1))
        if rng.random() < p_good:
            r["exit_code"] = 0
        if r["stop_time"] < t1 and r["stop_time"] not in seen:
            seen.add(r["stop_time"])
            out.append(r)
    return sorted(out, key=lambda r: r["stop_time"])
