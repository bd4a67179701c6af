"""Daemon and tools use the database at the same time without disturbing each other."""
import json
import os
import re
import shutil
import signal
import sqlite3
import subprocess
import sys
import time
import zlib

import gencfg
from listing import PARSE
import rows
import simcore
import tools

RULE = ("injected: one evaluation = one request to a real tool during which, right before its n-th statement on the run tables, another connection records "
        "what the daemon would (a run starts, a run ends, several do), for every n; live: one evaluation = one listing by a real tool process "
        "while a real daemon runs several jobs per second, or the daemon's whole session; distinct = different database, request and statement")
NEED = {"injected": 300, "handed-over": 400, "started": 100, "outputs": 40, "dumps": 40, "renders": 15, "live-sessions": 3, "live-listings": 10, "live-runs": 20,
        "large-histories": 1}
ASSUMPTIONS = ["SQLite; the other backends have no server here", "a change is visible to a reader at once or not at all (committed together)",
               "a listing with a large history takes less than a minute to read it"]
CASE_S = 300
LIVE, LARGE = 4, 1


def QUICK(ctx):
    return LIVE + LARGE + 220


def THOROUGH(ctx):
    return 24 + 3 + 4000


def kinds(ctx):
    return (LIVE, LARGE) if ctx.quick else (24, 3)


def setup(ctx):
    tools.prepare(ctx)
    import dsari.prometheus_exporter  # noqa: F401


def case(i, rng, ctx):
    live, large = kinds(ctx)
    if i < large:
        return {"kind": "large", "n": 350000 if ctx.quick else rng.choice([350000, 700000]), "tool": rng.choice(["list", "list", "dump"])}
    if i < large + live:
        return {"kind": "live", "jobs": rng.randrange(2, 5), "groups": rng.random() < 0.3, "seconds": 6 if ctx.quick else 15,
                "fmts": [rng.choice(["json", "tabular", "yaml", "pretty"]) for _ in range(3)], "extra": rng.choice(["dump", "render", "job", "output"])}
    cfg = gencfg.doc(rng, rng.randrange(1, 5))
    cfg.pop("database", None)
    jobs = list(gencfg.compiled_jobs(cfg)) + (["gone job"] if rng.random() < 0.3 else [])
    now = rng.randrange(1600000000, 1800000000) + rng.random()
    done = rows.history(rng, jobs, now - 10 ** 6, now, rng.choice([0, 1, 5, 20]))
    live = [rows.record(rng, rng.choice(jobs), now - rng.uniform(10, 5000), running=True) for _ in range(rng.choice([1, 1, 2, 4]))]
    acts = []
    for k in range(rng.choice([1, 1, 2, 3])):
        t = rng.choice(["end", "end", "end", "start", "start-end", "all"])
        acts.append(t)
    req = rng.choice(["list", "list", "list", "list", "output", "output", "dump", "render"])
    item = {"kind": "inject", "cfg": cfg, "files": gencfg.file(rng, cfg), "jobs": jobs, "done": done, "live": live, "acts": acts, "now": now, "req": req,
            "fmt": rng.choice(["json", "yaml", "tabular", "pretty"]), "new": [rows.record(rng, rng.choice(jobs), now, running=True) for _ in acts]}
    k = rng.random()
    if k < 0.2:
        item["job"] = rng.sample(jobs, rng.randrange(1, len(jobs) + 1))
    elif k < 0.4:
        ids = [r["run_id"] for r in done + live + item["new"]]
        item["run"] = rng.sample(ids, rng.randrange(1, len(ids) + 1))
    return item


def ended(r, now):
    return dict(r, stop_time=round(now, 6), exit_code=zlib.crc32(r["run_id"].encode()) % 3)


def hand_over(c, r):
    """As the daemon does: both in one transaction"""
    c.execute("BEGIN IMMEDIATE")
    c.execute("INSERT INTO runs (%s) VALUES (%s)" % (",".join(rows.COLS), ",".join("?" * len(rows.COLS))), rows.vals(r, rows.COLS))
    c.execute("DELETE FROM runs_running WHERE run_id = ?", (r["run_id"],))
    c.execute("COMMIT")


def begin(c, r):
    cols = [x for x in rows.COLS if x not in ("stop_time", "exit_code")]
    c.execute("INSERT INTO runs_running (%s) VALUES (%s)" % (",".join(cols), ",".join("?" * len(cols))), rows.vals(r, cols))


class Writer:
    """Does what a daemon does in between the statements of the tool; lives in the tool's process"""

    def __init__(self, db, item, at, log):
        self.db, self.item, self.at, self.log = db, item, at, log
        self.n = 0
        self.busy = False
        self.conn = None
        self.todo = list(item["acts"])
        self.live = list(item["live"])
        self.new = list(item["new"])

    def connect(self, real):
        def f(*a, **k):
            c = real(*a, **k)
            c.set_trace_callback(self.statement)
            return c

        return f

    def statement(self, sql):
        if self.busy:
            return
        try:
            if not re.search(r"\bFROM\s+[\"'`\[]?runs", sql, re.I):
                return
            self.n += 1
            if self.at is None or self.n < self.at or not self.todo:
                return
            self.busy = True
            try:
                self.act()
            finally:
                self.busy = False
        except BaseException as e:
            self.note({"error": repr(e)})

    def note(self, d):
        with open(self.log, "a") as f:
            f.write(json.dumps(d) + "\n")

    def act(self):
        if self.conn is None:
            self.conn = simcore.REAL["sqlite3.connect"](self.db, timeout=0, isolation_level=None)
        a = self.todo[0]
        now = self.item["now"]
        did = []
        try:
            if a in ("start", "start-end") and self.new:
                r = self.new[0]
                begin(self.conn, r)
                self.new.pop(0)
                self.live.append(r)
                did.append(["start", r["run_id"]])
            if a == "start-end":
                self.todo[0] = a = "end-new"
            if a == "end-new":
                r = self.live[-1]
                hand_over(self.conn, ended(r, now))
                self.live.pop()
                did.append(["end", r["run_id"]])
            while a in ("end", "all") and self.live:
                r = self.live[0]
                hand_over(self.conn, ended(r, now))
                self.live.pop(0)
                did.append(["end", r["run_id"]])
                if a == "end":
                    break
        except sqlite3.OperationalError as e:
            # the tool is reading right now: the daemon would wait
            if self.conn.in_transaction:
                self.conn.execute("ROLLBACK")
            self.note({"did": did, "locked": repr(e)})
            return
        self.todo.pop(0)
        self.note({"did": did, "n": self.n})


def request(item):
    if item["req"] == "list":
        a = ["run", "list", "--format", item["fmt"]]
        for x in item.get("job", ()):
            a.append("--job=" + x)
        for x in item.get("run", ()):
            a += ["--run", x]
        return "info", a
    if item["req"] == "output":
        return "info", ["run", "output", item["live"][0]["run_id"]]
    if item["req"] == "dump":
        return "prometheus_exporter", ["--dump"]
    return "render", []


def run(item, i, ctx):
    v, keys = [], set()
    counts = dict.fromkeys(NEED, 0)

    def bad(key, what):
        if key not in keys:
            keys.add(key)
            v.append({"key": key, "what": what})

    root = os.path.realpath(ctx.tmp("c%d-%d" % (os.getpid(), i)))
    try:
        return {"inject": inject, "live": live, "large": large}[item["kind"]](item, i, ctx, root, counts, bad, v)
    finally:
        ctx.rm(root)


def inject(item, i, ctx, root, counts, bad, v):
    conf = tools.configure(root, item["files"])
    var = os.path.join(root, "var")
    db = os.path.join(var, "dsari.sqlite3")
    tool, argv = request(item)
    argv = ["-c", conf] + argv
    fps = []
    at = None
    while True:
        shutil.rmtree(var, ignore_errors=True)
        rows.write(db, item["done"], item["live"])
        out = os.path.join(var, "runs", item["live"][0]["job_name"], item["live"][0]["run_id"])
        os.makedirs(out)
        with open(os.path.join(out, "output.txt"), "w") as f:
            f.write("some output\n")
        log = os.path.join(root, "acts")
        if os.path.exists(log):
            os.unlink(log)
        w = Writer(db, item, at, log)

        def patch(mod, w=w):
            # in the forked process only
            sqlite3.connect = w.connect(sqlite3.connect)

        r = tools.call(root, tool, argv, patch=patch, now=item["now"], environ={"COLUMNS": "1000"})
        did = []
        try:
            with open(log) as f:
                notes = [json.loads(x) for x in f]
        except OSError:
            notes = []
        for x in notes:
            if "error" in x:
                raise RuntimeError("the injected writer failed: %r" % x)
            did += x.get("did", [])
        what = "%s%s, %s" % (tool, argv[2:], "undisturbed" if at is None else "while from its statement %d on %s" % (
            at, ", ".join("run %s %ss" % (x[1], x[0]) for x in did) or "nothing happens"))
        if at is None or did:
            counts["injected"] += at is not None
            judge(item, r, did, root, var, counts, bad, what)
            fps.append("%d-%s" % (i, at))
        counts["handed-over"] += sum(x[0] == "end" for x in did)
        counts["started"] += sum(x[0] == "start" for x in did)
        if at is not None and not did or (at or 0) > 40:
            break
        at = (at or 0) + 1
    out = {"violations": v, "counts": counts, "fps": fps}
    if i < 10:
        out["sample"] = {"request": [tool] + argv[2:], "acts": item["acts"], "statements": at}
    return out


def judge(item, r, did, root, var, counts, bad, what):
    """Everything recorded all the time is shown once, as it was or as it became."""
    if r.code != 0 or b"Traceback" in r.out or "Traceback" in r.err:
        bad("failed-" + item["req"], "%s: %r" % (what, r))
        return
    done = {x["run_id"]: x for x in item["done"]}
    before = {x["run_id"]: x for x in item["live"]}
    started = {x[1] for x in did if x[0] == "start"}
    ends = {x[1] for x in did if x[0] == "end"}
    if item["req"] == "list":
        def sel(x):
            return ("job" not in item or x["job_name"] in item["job"]) and ("run" not in item or x["run_id"] in item["run"])

        new = {x["run_id"]: x for x in item["new"]}
        must = {k: x for k, x in {**done, **before}.items() if sel(x)}
        may = {k: x for k, x in new.items() if k in started and sel(x)}
        try:
            got = PARSE[item["fmt"]](r)
        except Exception as e:
            bad("unparsable", "%s: %r %r" % (what, e, r))
            return
        ids = [x["run_id"] for x in got]
        for k in must:
            if ids.count(k) != 1:
                bad("listed-%s-%s" % ("not" if k not in ids else "twice", item["fmt"]), "%s: run %s, %s, is listed %d times" % (
                    what, k, "completed before" if k in done else "running before" + (" and completed after" if k in ends else ""), ids.count(k)))
        for x in got:
            k = x["run_id"]
            if k not in must and (k not in may or ids.count(k) != 1):
                bad("listed-wrong", "%s: run %s is listed %d times" % (what, k, ids.count(k)))
                continue
            if k in done:
                ok = x["exit_code"] == done[k]["exit_code"]
            elif k in ends:
                ok = x["exit_code"] in (None, ended(before.get(k) or new[k], item["now"])["exit_code"])
            else:
                ok = x["exit_code"] is None
            if "stop_time" in x:
                ok = ok and (x["stop_time"] is None) == (x["exit_code"] is None)
            if not ok:
                bad("state", "%s: run %s is listed as %r" % (what, k, x))
        return
    if item["req"] == "output":
        counts["outputs"] += 1
        if r.out != b"some output\n":
            bad("output", "%s: %r" % (what, r))
        return
    if item["req"] == "dump":
        counts["dumps"] += 1
        vals = {}
        for l in r.text.splitlines():
            m = re.match(r'^(dsari_\w+)\{job_name="([^"]*)"\} (\S+)$', l)
            if m:
                vals[m.group(1), m.group(2)] = float(m.group(3))
        for n in gencfg.compiled_jobs(item["cfg"]):
            lo = sum(x["job_name"] == n for x in item["done"])
            hi = lo + sum(x["job_name"] == n for x in item["live"] + item["new"] if x["run_id"] in ends)
            c = vals.get(("dsari_run_count", n), -1)
            if not lo <= c <= hi:
                bad("count", "%s: job %r had %d to %d runs, dsari_run_count says %r" % (what, n, lo, hi, c))
            s, f = vals.get(("dsari_run_success_count", n)), vals.get(("dsari_run_failure_count", n))
            if s is None or f is None or s + f != c:
                bad("count-sum", "%s: job %r: %r runs, %r good, %r bad" % (what, n, c, s, f))
            if c > 0:
                for m in ("dsari_run_duration_seconds_count", "dsari_run_latency_seconds_count"):
                    if vals.get((m, n)) != c:
                        bad("count-" + m, "%s: job %r: %r runs, %s %r" % (what, n, c, m, vals.get((m, n))))
        return
    # reports: every page of a run is linked and every link has a page
    counts["renders"] += 1
    html = os.path.join(var, "html")
    pages = set()
    for d, _, fs in os.walk(html):
        for f in fs:
            if d.count("/") == html.count("/") + 2 and f.startswith("index.html"):
                pages.add(os.path.basename(d))
    reported = {n for n, j in gencfg.compiled_jobs(item["cfg"]).items() if j.get("render_reports", True)}
    want = {k for k, x in done.items() if x["job_name"] in reported}
    could = want | {k for k in ends if (before.get(k) or {x["run_id"]: x for x in item["new"]}[k])["job_name"] in reported}
    if not want <= pages <= could:
        bad("pages", "%s: %r have pages, expected %r" % (what, sorted(pages), sorted(want)))
    for d, _, fs in os.walk(html):
        if d.count("/") == html.count("/") + 1:
            for f in fs:
                if f == "index.html":
                    with open(os.path.join(d, f)) as fh:
                        t = fh.read()
                    linked = set(re.findall(r"[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}", t))
                    own = {x for x in pages if os.path.isdir(os.path.join(d, x))}
                    if linked != own:
                        bad("links", "%s: the page of job %r links %r, pages %r" % (what, os.path.basename(d), sorted(linked), sorted(own)))


CODE = {
    "info": "import sys\nfrom dsari.info import main\nsys.argv = ['dsari-info'] + sys.argv[1:]\nsys.exit(main())",
    "render": "import sys\nfrom dsari.render import main\nsys.argv = ['dsari-render'] + sys.argv[1:]\nsys.exit(main())",
    "prometheus_exporter": "import sys\nfrom dsari.prometheus_exporter import main\nsys.argv = ['dsari-prometheus-exporter'] + sys.argv[1:]\nsys.exit(main())",
    "daemon": "import sys\nfrom dsari.daemon import main\nsys.argv = ['dsari-daemon'] + sys.argv[1:]\nsys.exit(main())",
}


class Session:
    """A real daemon with jobs that note their runs."""

    def __init__(self, ctx, root, njobs, groups, history=0):
        self.ctx, self.root = ctx, root
        self.var = os.path.join(root, "var")
        self.conf = os.path.join(root, "etc")
        self.notes = os.path.join(root, "notes")
        self.db = os.path.join(self.var, "dsari.sqlite3")
        os.makedirs(self.notes)
        os.makedirs(self.conf)
        script = os.path.join(root, "job")
        with open(script, "w") as f:
            f.write("#!/bin/sh\ncd %s\ndate +%%s.%%N > $RUN_ID.tmp\nmv $RUN_ID.tmp $RUN_ID.started\nsleep 0.$1\ndate +%%s.%%N > $RUN_ID.ended\nexit $2\n" % self.notes)
        os.chmod(script, 0o755)
        doc = {"data_dir": self.var, "jobs": {}}
        for k in range(njobs):
            doc["jobs"]["job%d" % k] = {"command": [script, str(k * 2 % 9), str(k % 2)], "schedule": "* * * * * *", "concurrent_runs": bool(k % 2)}
            if groups:
                doc["jobs"]["job%d" % k]["concurrency_groups"] = ["g%d" % (k % 2)]
        with open(os.path.join(self.conf, "dsari.json"), "w") as f:
            json.dump(doc, f)
        self.env = {"PATH": "/usr/bin:/bin", "HOME": root, "LANG": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPATH": ctx.repo, "TZ": "UTC", "COLUMNS": "1000"}
        if history:
            c = rows.connect(self.db)
            q = "INSERT INTO runs (%s) VALUES (%s)" % (",".join(rows.COLS), ",".join("?" * len(rows.COLS)))
            c.executemany(q, (("job%d" % (k % njobs), "%08x-0000-4000-8000-%012x" % (k, k), 1.6e9 + k, 1.6e9 + k, 1.6e9 + k + 1, 0, "schedule", "{}", "{}")
                              for k in range(history)))
            c.commit()
            c.close()
        self.err = open(os.path.join(root, "err"), "wb")
        self.p = self.popen("daemon", stdout=self.err, stderr=self.err)

    def popen(self, tool, *argv, **k):
        return subprocess.Popen([sys.executable, "-B", "-c", CODE[tool], "-c", self.conf] + list(argv), env=self.env, cwd=self.root, stdin=subprocess.DEVNULL,
                                start_new_session=True, **k)

    def log(self):
        with open(os.path.join(self.root, "err"), "rb") as f:
            return f.read().decode("utf-8", "replace")

    def started(self):
        """Run IDs of the runs which have noted their start, with the time"""
        out = {}
        for x in os.listdir(self.notes):
            if x.endswith(".started"):
                with open(os.path.join(self.notes, x)) as f:
                    out[x[:-8]] = float(f.read())
        return out

    def wait(self, cond, limit):
        end = time.monotonic() + limit
        while time.monotonic() < end:
            if cond():
                return True
            if self.p.poll() is not None:
                return bool(cond())
            time.sleep(0.02)
        return False

    def close(self):
        kids = []
        try:
            with open("/proc/%d/task/%d/children" % (self.p.pid, self.p.pid)) as f:
                kids = [int(x) for x in f.read().split()]
        except OSError:
            pass
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
        for k in kids:
            try:
                simcore.REAL["os.kill"](k, signal.SIGKILL)
            except OSError:
                pass
        self.err.close()

    def end(self, bad, what, counts):
        """Ends the daemon and compares its records with what the runs noted."""
        if self.p.poll() is not None:
            bad("daemon-ended", "the daemon ended with status %r %s: %s" % (self.p.returncode, what, self.log()[-2500:]))
            return
        self.p.send_signal(signal.SIGTERM)
        try:
            st = self.p.wait(90)
        except subprocess.TimeoutExpired:
            bad("daemon-stuck", "the daemon did not shut down within 90 s %s: %s" % (what, self.log()[-2500:]))
            return
        if st != 0 or "Traceback" in self.log():
            bad("daemon-failed", "the daemon ended with status %r %s: %s" % (st, what, self.log()[-2500:]))
        c = simcore.REAL["sqlite3.connect"](self.db)
        got = c.execute("SELECT run_id, exit_code, job_name FROM runs WHERE start_time > 1650000000").fetchall()
        left = c.execute("SELECT run_id FROM runs_running").fetchall()
        c.close()
        ids = [x[0] for x in got]
        noted = self.started()
        for x in noted:
            if ids.count(x) != 1:
                bad("records", "%s: run %s is recorded %d times" % (what, x, ids.count(x)))
        if set(ids) - set(noted):
            bad("records-extra", "%s: recorded runs %r never ran" % (what, sorted(set(ids) - set(noted))))
        if left:
            bad("records-left", "%s: runs %r are still recorded as running" % (what, left))
        for rid, code, job in got:
            if code != int(job[3:]) % 2:
                bad("records-exit", "%s: run %s of %s is recorded with exit code %r" % (what, rid, job, code))
        counts["live-runs"] += len(noted)


def live(item, i, ctx, root, counts, bad, v):
    s = Session(ctx, root, item["jobs"], item["groups"])
    readers = []
    try:
        if not s.wait(lambda: len(s.started()) >= 1, 60):
            bad("daemon-start", "no run started within 60 s: %s" % s.log()[-2500:])
            return {"violations": v, "counts": counts}
        until = time.monotonic() + item["seconds"]
        first = True
        while time.monotonic() < until or first:
            first = False
            procs = []
            for k, fmt in enumerate(item["fmts"]):
                f = open(os.path.join(root, "out%d" % k), "w+b")
                e = open(os.path.join(root, "err%d" % k), "w+b")
                procs.append((fmt, f, e, time.time(), s.popen("info", "run", "list", "--format", fmt, stdout=f, stderr=e)))
            x = item["extra"]
            f, e = open(os.path.join(root, "outx"), "w+b"), open(os.path.join(root, "errx"), "w+b")
            if x == "output":
                some = sorted(s.started().items(), key=lambda x: x[1])[-1][0]
                procs.append((x, f, e, time.time(), s.popen("info", "run", "output", some, stdout=f, stderr=e)))
            else:
                procs.append((x, f, e, time.time(), s.popen(*{"dump": ("prometheus_exporter", "--dump"), "render": ("render",), "job": ("info", "job", "list")}[x],
                                                            stdout=f, stderr=e)))
            readers[:] = [p[-1] for p in procs]
            for fmt, f, e, t0, p in procs:
                try:
                    st = p.wait(120)
                except subprocess.TimeoutExpired:
                    bad("tool-stuck", "%s did not end within 120 s" % fmt)
                    continue
                f.seek(0)
                e.seek(0)
                o, err = f.read(), e.read().decode("utf-8", "replace")
                f.close()
                e.close()
                what = "%s while the daemon runs %d jobs a second" % (fmt, item["jobs"])
                if st != 0 or "Traceback" in err:
                    bad("tool-failed", "%s: exit %r: %s" % (what, st, err[-2000:]))
                    continue
                counts["live-listings"] += 1
                if fmt not in PARSE:
                    continue
                r = tools.Result(st, o, err, None)
                try:
                    ids = [y["run_id"] for y in PARSE[fmt](r)]
                except Exception as ex:
                    bad("tool-unparsable", "%s: %r: %r" % (what, ex, o[-500:]))
                    continue
                for rid, ts in s.started().items():
                    # a run notes its start after it has been recorded
                    if ts < t0 and ids.count(rid) != 1 or ids.count(rid) > 1:
                        bad("live-listed", "%s: run %s, which started %.3f s before, is listed %d times" % (what, rid, t0 - ts, ids.count(rid)))
        s.end(bad, "while tools are reading", counts)
        counts["live-sessions"] += 1
        return {"violations": v, "counts": counts, "fp": "live-%d" % i}
    finally:
        for p in readers:
            if p.poll() is None:
                p.kill()
            p.wait()
        s.close()


def large(item, i, ctx, root, counts, bad, v):
    """A long listing does not stop the daemon."""
    s = Session(ctx, root, 2, False, history=item["n"])
    p = None
    try:
        if not s.wait(lambda: len(s.started()) >= 2, 60):
            bad("daemon-start", "no run started within 60 s: %s" % s.log()[-2500:])
            return {"violations": v, "counts": counts}
        what = "while a history of %d runs is being read" % item["n"]
        with open(os.path.join(root, "outl"), "wb") as f, open(os.path.join(root, "errl"), "wb") as e:
            p = s.popen(*(("info", "run", "list", "--format", "tabular") if item["tool"] == "list" else ("prometheus_exporter", "--dump")), stdout=f, stderr=e)
            t0 = time.monotonic()
            while p.poll() is None and s.p.poll() is None and time.monotonic() - t0 < 200:
                time.sleep(0.05)
        if s.p.poll() is None:
            if p.poll() is None:
                bad("tool-stuck", "%s did not end within 200 s" % item["tool"])
            elif p.returncode != 0:
                with open(os.path.join(root, "errl"), errors="replace") as f:
                    bad("tool-failed", "%s of %d runs: exit %r: %s" % (item["tool"], item["n"], p.returncode, f.read()[-2000:]))
        n = len(s.started())
        s.wait(lambda: len(s.started()) > n + 1, 30)
        s.end(bad, what, counts)
        counts["large-histories"] += 1
        return {"violations": v, "counts": counts, "fp": "large-%d" % i}
    finally:
        if p is not None:
            if p.poll() is None:
                p.kill()
            p.wait()
        s.close()
