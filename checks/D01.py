"""All database backends store and answer alike."""
import contextlib
import datetime
import json
import os
import zoneinfo

import E02
import I01
import M01
import M02
import R03
import W01
import emu
import gen
import gencfg
import rows
import simcheck
import simcore
import tools

RULE = ("one evaluation = one case of another check (histories of the real daemon with return data, previous-run histories with a kill and a restart, listings, metrics, "
        "served metrics or reports) with the records in PostgreSQL, MySQL or MongoDB instead of SQLite, on emulated drivers; distinct = different case")
KINDS = ["pg", "my", "mongo"]
NEED = {"%s-%s" % (k, p): 5 for k in KINDS for p in ("info", "metrics", "served", "report", "previous", "history")}
NEED.update({"runs": 1500, "renderings": 30, "scrapes": 150, "starts": 600, "records": 600, "no-jobs": 8, "odd-ids": 20, "restarts": 10, "leftovers": 60})
ASSUMPTIONS = ["the emulated drivers behave as the real ones do (types, time zones, transactions, row order)", "documents that BSON can represent",
               "MongoDB keeps times to the millisecond", "records were written by this version"]
PARTS = [("info", I01), ("metrics", M01), ("served", M02), ("report", W01), ("previous", E02), ("history", R03), ("info", I01), ("metrics", M01)]
QUICK = 264
THOROUGH = 9600
CASE_S = 300


def setup(ctx):
    emu.install()
    import dsari.daemon  # noqa: F401
    import dsari.database  # noqa: F401

    simcheck.prepare(ctx)
    tools.prepare(ctx)


class Fixed:
    """Context of the other check."""

    quick = False

    def __init__(self, ctx):
        self.__dict__.update({k: v for k, v in ctx.__dict__.items() if k != "quick"})
        self.tmp, self.rm = ctx.tmp, ctx.rm


def ms(x):
    """Times as MongoDB keeps them, all stop times of a job still different."""
    seen = {}

    def walk(x):
        if isinstance(x, dict):
            if "run_id" in x and "start_time" in x and "job_name" in x:
                for k in ("schedule_time", "start_time", "stop_time"):
                    if k in x:
                        x[k] = round(int(x[k] * 1000 + 0.0001) / 1000, 3)
                if "stop_time" in x:
                    x["stop_time"] = max(x["stop_time"], x["start_time"])
                    while seen.setdefault(x["stop_time"], x["run_id"]) != x["run_id"]:
                        x["stop_time"] = round(x["stop_time"] + 0.001, 3)
            for y in x.values():
                walk(y)
        elif isinstance(x, (list, tuple)):
            for y in x:
                walk(y)

    walk(x)
    return x


def bsonable(x):
    try:
        emu.bson(x)
        return True
    except (OverflowError, UnicodeError, emu.MongoError):
        return False


def case(i, rng, ctx):
    kind = KINDS[i % 3]
    name, mod = PARTS[i // 3 % len(PARTS)]
    gen.DATABASE = emu.section(kind)
    try:
        while True:
            item = mod.case(1000 + i, rng, Fixed(ctx))
            if kind != "mongo" or name != "history" or all(bsonable(y["rd"]) for b in item["behaviour"].values() for y in b):
                break
    finally:
        gen.DATABASE = None
    if kind == "mongo":
        item = ms(item)
        if name == "history":
            item["db_tol"] = 1e-3
    special = None
    if name in ("info", "metrics", "report"):
        item["cfg"]["database"] = emu.section(kind)
        item["files"] = gencfg.file(rng, item["cfg"])
    if name == "info" and rng.random() < 0.5:
        special = "odd-ids"
        bad = rng.choice(["x", "", "not-an-id", "1234", "a" * 36, "'", "%", "{}", "00000000-0000-0000-0000-00000000000g"])
        item["lists"].append({"fmt": "json", "run": [bad]})
        if item["done"]:
            item["lists"].append({"fmt": "tabular", "run": [bad, item["done"][0]["run_id"]]})
            # what some databases take for the same
            x = item["done"][-1]["run_id"]
            item["lists"].append({"fmt": "json", "run": [rng.choice([x.upper(), x.replace("-", ""), "{%s}" % x, "urn:uuid:" + x, x + " ", x[:-1]])]})
    if name == "info" and rng.random() < 0.4 and item["done"]:
        # names that differ in case only
        j = item["jobs"][0]
        if j.swapcase() != j and j.swapcase() not in item["jobs"]:
            item["done"] += [dict(item["done"][0], run_id=rows.run_id(rng), job_name=x) for x in (j, j.swapcase())]
            item["lists"] += [{"fmt": "json", "job": [j]}, {"fmt": "tabular", "job": [j.swapcase()]}]
    if name == "report" and i // 24 % 5 in (1, 3):
        special = "no-jobs"
        item["cfg"] = dict(item["cfg"], jobs={}, job_groups={})
        for s in item["steps"]:
            s["hide"] = None
    if name == "served":
        for c in item["cfgs"]:
            c["database"] = emu.section(kind)
        item["http"] = False
    old = [rows.record(rng, rng.choice(["old", "x", "a b"]), scn_start(item) - rng.uniform(5, 90000), running=True)
           for _ in range(rng.choice([0, 1, 3, 6]))] if name in ("history", "previous") else []
    return {"old": ms(old) if kind == "mongo" else old, "kind": kind, "part": name, "item": item, "special": special, "server_tz": rng.choice(["UTC", "UTC", "America/New_York", "Europe/Berlin", "Asia/Kolkata"]),
            "read_tz": rng.choice(gen.TZS)}


def scn_start(item):
    return item["start"] if "start" in item else 1600000000.0


class Server:
    """Stands in for rows' connection."""

    def __init__(self, kind, path):
        self.kind, self.d = kind, os.path.dirname(path)
        os.makedirs(self.d, exist_ok=True)
        import dsari.config
        import dsari.database

        cfg = dsari.config.Config()
        cfg.data_dir = self.d
        cfg.database = json.loads(json.dumps(emu.section(kind)).replace("@ROOT@", os.path.dirname(self.d)))
        self.cfg = cfg
        self.db = dsari.database.get_database(cfg)

    def put(self, r, live):
        import dsari

        run = dsari.Run(dsari.Job(r["job_name"]), id=r["run_id"])
        zones = ["UTC", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe"]
        for n, k in enumerate(("schedule_time", "start_time") + (() if live else ("stop_time",))):
            z = zoneinfo.ZoneInfo(zones[(int(r["start_time"]) + n) % 4])
            t = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(microseconds=round(r[k] * 1000000))
            setattr(run, k, t.astimezone(z))
        for k in ("trigger_type", "trigger_data", "run_data") + (() if live else ("exit_code",)):
            setattr(run, k, r[k])
        (self.db.insert_running_run if live else self.db.insert_run)(run)

    def execute(self, sql, params=None):
        assert sql.startswith("DELETE FROM runs_running"), sql
        emu.delete_running(self.kind, self.d, params)

    def commit(self):
        pass

    def close(self):
        if hasattr(self.db, "db_conn"):
            self.db.db_conn.close()
        elif hasattr(self.db, "client"):
            self.db.client.close()


@contextlib.contextmanager
def backend(kind, item, notes):
    """The other check's harness works on the emulated server."""
    saved = [(m, n, getattr(m, n)) for m, n in ((rows, "connect"), (rows, "add"), (simcore, "read_db"), (simcore, "fork_history"), (emu, "TZ"), (gen, "DATABASE"))]
    emu.TZ = item["server_tz"]
    gen.DATABASE = emu.section(kind)

    def add(c, runs=(), running=()):
        for r in runs:
            c.put(r, False)
        for r in running:
            c.put(r, True)

    def read_db(path):
        if simcore.W is not None:
            return {"runs": None, "running": None, "error": "read later"}
        out = {"runs": None, "running": None, "error": None, "integrity": "ok"}
        if not os.path.exists(path):
            return out
        root = os.path.dirname(os.path.dirname(path))
        conf = os.path.join(root, "etc-read")
        simcore.write_files(conf, {"dsari.json": json.dumps({"data_dir": "@ROOT@/var", "database": emu.section(kind)})})
        r = tools.info(root, conf, "run", "list", "--format", "json", tz=item["read_tz"])
        if r.code != 0:
            out["error"] = repr(r)
            return out
        out["runs"], out["running"] = [], []
        for rid, x in r.json().items():
            live = x["stop_time"] is None
            y = {"run_id": rid, "job_name": x["job_name"], "trigger_type": x["trigger_type"], "exit_code": x["exit_code"],
                 "trigger_data": json.dumps(x["trigger_data"]), "run_data": json.dumps(x["run_data"])}
            for k in ("schedule_time", "start_time", "stop_time"):
                try:
                    y[k] = None if x[k] is None else I01.us(x[k]) / 1e6
                except ValueError:
                    y[k] = -1.0  # no zone: not a time at all
            out["running" if live else "runs"].append(y)
        return out

    def fork_history(scn, root, *a, **k):
        old = item.get("old") if not notes else None
        if old:
            # what an earlier daemon that was killed left behind
            c = rows.connect(os.path.join(root, "var", "dsari.sqlite3"))
            for r in old:
                c.put(r, True)
            c.close()
        res = saved[3][2](scn, root, *a, **k)
        if "exit" in res and res["exit"]["kind"] != "crash":
            res["db"] = read_db(os.path.join(root, "var", "dsari.sqlite3"))
        left = {r["run_id"] for r in old or ()} & {r["run_id"] for r in (res.get("db") or {}).get("running") or ()}
        if left:
            item["left"] = sorted(left)
        notes.append(emu.notes(root))
        notes.append(res.get("stderr", "") if "Unsupported" in res.get("stderr", "") + str(res.get("exit")) else "")
        return res

    rows.connect = lambda path: Server(kind, path)
    rows.add = add
    simcore.read_db = read_db
    simcore.fork_history = fork_history
    try:
        yield
    finally:
        for m, n, f in saved:
            setattr(m, n, f)


def run(item, i, ctx):
    kind, part = item["kind"], item["part"]
    mod = dict(PARTS)[part]
    notes = []
    keep = []
    real_rm = ctx.rm

    def rm(p):
        notes.append(emu.notes(p))
        real_rm(p)

    sub = Fixed(ctx)
    sub.rm = rm
    orig = simcheck.judge

    def judge(pid, scn, res, extra=None):
        out = orig(pid, scn, res, extra)
        for x in out.get("other") or ():
            if {"R01", "R02"} & set(x["labels"] if not isinstance(x["labels"], str) else x["labels"].split()):
                out["violations"].append(x)
        if "exit" in res and res["exit"]["kind"] == "exc":
            keep.append(str(res["exit"])[-1500:])
        return out

    with backend(kind, item, notes):
        simcheck.judge = judge
        try:
            out = mod.run(item["item"], 1000 + i, sub)
        finally:
            simcheck.judge = orig
    text = " ".join(notes) + json.dumps([x["what"] for x in out.get("violations") or ()])
    if "Unsupported" in text or any(n.strip() for n in notes):
        return {"violations": [], "error": "the emulation does not know this: %s" % text[-1500:]}
    if out.get("error") and out["error"].startswith(("daemon ended", "second daemon ended")):
        # with SQLite this does not happen
        out = {"violations": [{"key": "daemon-ended", "what": out["error"]}]}
    if item.pop("left", None):
        out.setdefault("violations", []).append({"key": "leftover", "what": "runs of an earlier daemon that was killed are still listed as running at the end"})
    for x in out.get("violations") or ():
        x["key"] = "%s-%s-%s" % (kind, part, x["key"])
        x["what"] = "[%s] %s" % ({"pg": "PostgreSQL", "my": "MySQL", "mongo": "MongoDB"}[kind], x["what"])
    c = {k: v for k, v in (out.get("counts") or {}).items() if isinstance(v, (int, float))}
    c["%s-%s" % (kind, part)] = 1
    c["leftovers"] = len(item["old"])
    if item["special"]:
        c[item["special"]] = 1
    out["counts"] = c
    out["fp"] = "%s-%s-%s" % (kind, part, out.get("fp"))
    return out
