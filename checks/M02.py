"""Metrics are served fresh within the cache time, over HTTP and WSGI."""
import http.client
import json
import os
import signal
import socket
import subprocess
import sys
import time
import zlib

import gen
import gencfg
import prom
import rows
import simcore
import tools

RULE = ("one evaluation = one sequence of scrapes, database changes, elapsed time, configuration changes and SIGHUPs on the real WSGI application in virtual "
        "time, or on the real HTTP server; distinct = different sequence")
NEED = {"scrapes": 2500, "cached": 400, "refreshed": 400, "reloads": 300, "broken-reloads": 60, "not-found": 200, "signals-inside": 200, "http": 8, "http-reloads": 2,
        "zero-cache": 60}
ASSUMPTIONS = ["the clock does not step backwards", "the database itself stays the same on reload"]
CASE_S = 300


def nhttp(ctx):
    return 3 if ctx.quick else 12


def QUICK(ctx):
    return 3 + 1200


def THOROUGH(ctx):
    return 12 + 9000


setup = tools.prepare


def newcfg(rng):
    cfg = gencfg.doc(rng, rng.randrange(0, 4))
    for k in ("database", "environment"):
        cfg.pop(k, None)
    return cfg


def case(i, rng, ctx):
    cfgs = [newcfg(rng)]
    pool = list(gencfg.compiled_jobs(cfgs[0])) or ["x"]
    if rng.random() < 0.7:
        # some of the same jobs
        c = newcfg(rng)
        for j in rng.sample(pool, min(len(pool), rng.randrange(0, 3))):
            c.setdefault("jobs", {})[j] = {"command": "/bin/true"}
            for g in (c.get("job_groups") or {}).values():
                if j in g["job_names"]:
                    g["job_names"].remove(j)
        cfgs.append(c)
        pool += list(gencfg.compiled_jobs(c))
    cache = rng.choice([None, 0.0, 0.5, 10.0, 120.0, 1000.0, 1e8])
    c = 120.0 if cache is None else cache
    acts = []
    for _ in range(rng.randrange(6, 22)):
        k = rng.random()
        if k < 0.42:
            acts.append(["scrape", rng.choice(["", "", "x=1", "a=b&c=%20"])])
        elif k < 0.62:
            acts.append(["db", rng.choice([0, 1, 1, 2, 5]), rng.choice([0, 0, 1, 2]), rng.choice([0, 1, 2])])
        elif k < 0.82:
            acts.append(["wait", rng.choice([0.1, 1.0, c * 0.4, c * 0.6, c * 0.9, c + 0.5, c * 1.5 + 1, 5.0, 3600.0, 130.0])])
        elif k < 0.87:
            acts.append(["miss", rng.choice(["/", "", "/metrics/", "/metric", "/metricsx", "/Metrics", "//metrics", "/x/metrics", "/\u00e4"])])
        elif k < 0.93:
            acts.append(["cfg", rng.randrange(len(cfgs)), True])
        elif k < 0.95:
            acts.append(["cfg", rng.randrange(len(cfgs)), False])
        elif k < 0.97:
            acts.append(["break", rng.choice(["{", "[]", '{"jobs": {"a/b": {"command": "x"}}}', '{"jobs": {"a": {}}}', '{"jobs": {"a": {"command": "x", "schedule": "bad"}}}'])])
        else:
            acts.append(["inside", rng.randrange(10 ** 9), rng.randrange(len(cfgs))])
    if rng.random() < 0.4:
        acts += [["scrape", ""], ["inside", rng.randrange(10 ** 9), rng.randrange(len(cfgs))], ["scrape", ""]]
    acts.append(["scrape", ""])
    # the records added by each change, in order
    t = float(rng.randrange(1500000000, 1800000000))
    adds = []
    now = t
    for a in acts:
        if a[0] == "wait":
            now += a[1]
        if a[0] == "db":
            done = [rows.record(rng, rng.choice(pool + ["gone"]), now - 300000 + n * 0.01 + len(adds) * 0.000137) for n in range(a[1])]
            for r in done:
                r["stop_time"] = round(min(r["stop_time"], now - rng.random()), 6)
                r["stop_time"] = max(r["stop_time"], r["start_time"])
            adds.append([done, [rows.record(rng, rng.choice(pool + ["gone"]), now - rng.random(), running=True) for _ in range(a[2])], a[3]])
    return {"cfgs": cfgs, "acts": acts, "adds": adds, "cache": cache, "now": t, "off": rng.random() < 0.15, "path": rng.choice([None, None, None, "/m", "/a/b c"]),
            "tz": rng.choice(gen.TZS), "http": i < nhttp(ctx)}


def put(root, conf, cfg):
    if isinstance(cfg, str):
        with open(os.path.join(conf, "dsari.json"), "w") as f:
            f.write(cfg)
    else:
        tools.configure(root, {"dsari.json": json.dumps(cfg)})


class World:
    """The sequence as seen from outside: what was there when."""

    def __init__(self, root, item):
        self.root, self.item = root, item
        self.db = os.path.join(root, "var", "dsari.sqlite3")
        self.versions = [(item["now"] - 1e6, [])]
        self.live = []
        self.adds = iter(item["adds"])

    def change(self, now):
        done, live, drop = next(self.adds)
        gone = [r["run_id"] for r in self.live[:drop]]
        self.live = self.live[drop:] + live
        self.versions.append((now, self.versions[-1][1] + done))
        c = rows.connect(self.db)
        rows.add(c, done, live)
        for x in gone:
            c.execute("DELETE FROM runs_running WHERE run_id = ?", (x,))
        c.commit()
        c.close()


def play(item, root, conf):
    """In the forked process: performs the actions on the WSGI application; the log."""
    import dsari.prometheus_exporter as mod

    app = mod.wsgi_application
    clk = simcore.clock()
    w = World(root, item)
    path = item["path"] or "/metrics"
    log = []
    active = 0

    def request(p, q=""):
        status = []

        def start(s, h, exc_info=None):
            status.append([s, list(h)])

        env = {"REQUEST_METHOD": "GET", "PATH_INFO": p, "QUERY_STRING": q, "SERVER_NAME": "x", "SERVER_PORT": "1", "wsgi.url_scheme": "http"}
        it = app(env, start)
        body = b"".join(it)
        if hasattr(it, "close"):
            it.close()
        return status, body.decode("utf-8")

    prefix = os.path.realpath(os.path.dirname(mod.__file__))
    for a in item["acts"]:
        now = clk.now() if callable(getattr(clk, "now", None)) else time.time()
        e = {"act": a, "t": now}
        try:
            if a[0] == "scrape":
                e["out"] = request(path, a[1])
            elif a[0] == "miss":
                if a[1] != path:
                    e["out"] = request(a[1])
            elif a[0] == "wait":
                clk.start(now + a[1], 1000)
            elif a[0] == "db":
                w.change(now)
            elif a[0] == "cfg":
                active = a[1]
                put(root, conf, item["cfgs"][active])
                if a[2]:
                    signal.raise_signal(signal.SIGHUP)
            elif a[0] == "break":
                put(root, conf, a[1])
                signal.raise_signal(signal.SIGHUP)
                e["out"] = request(path)
                put(root, conf, item["cfgs"][active])
            elif a[0] == "inside":
                # count the points of one scrape, then signal at one of them
                n = [0, None]

                def prof(frame, event, arg):
                    if event != "c_call" and os.path.realpath(frame.f_code.co_filename).startswith(prefix):
                        n[0] += 1
                        if n[0] == n[1]:
                            e["where"] = "%s:%d %s" % (frame.f_code.co_name, frame.f_lineno, event)
                            signal.raise_signal(signal.SIGHUP)

                sys.setprofile(prof)
                e["before"] = request(path)
                sys.setprofile(None)
                if a[1] % 2:
                    clk.start(time.time() + (item["cache"] if item["cache"] is not None else 120) + 1, 1000)
                active = a[2]
                put(root, conf, item["cfgs"][active])
                n[0], n[1] = 0, 1 + (a[1] // 2) % max(1, n[0])
                sys.setprofile(prof)
                try:
                    e["t"] = time.time()
                    e["out"] = request(path)
                finally:
                    sys.setprofile(None)
                if "where" not in e:
                    signal.raise_signal(signal.SIGHUP)
        except BaseException as x:
            import traceback

            e["error"] = "%s: %s\n%s" % (type(x).__name__, x, traceback.format_exc()[-1200:])
        log.append(e)
    return log


def run(item, i, ctx):
    v, keys = [], set()
    counts = dict.fromkeys(NEED, 0)

    def bad(key, what):
        if key not in keys:
            keys.add(key)
            v.append({"key": key, "what": what})

    root = os.path.realpath(ctx.tmp("c%d-%d" % (os.getpid(), i)))
    try:
        conf = tools.configure(root, {"dsari.json": json.dumps(item["cfgs"][0])})
        rows.write(os.path.join(root, "var", "dsari.sqlite3"))
        if item["http"]:
            served(item, root, conf, ctx, counts, bad)
            return {"violations": v, "counts": counts, "fp": "http-%d" % i}
        argv = ["-c", conf] + (["--job-cache-time", str(item["cache"])] if item["cache"] is not None else []) + (["--no-running"] if item["off"] else [])
        if item["path"]:
            argv += ["--metrics-path", item["path"]]
        r = tools.forked(root, lambda: play(item, root, conf), now=item["now"], tz=item["tz"], environ={"WSGI_ARGS": json.dumps(argv)}, cpu=120)
        if r.code != 0 or r.extra is None:
            bad("failed", "WSGI application: %r" % r)
            return {"violations": v, "counts": counts, "fp": "failed"}
        judge(item, r.extra, root, counts, bad)
        out = {"violations": v, "counts": counts, "fp": zlib.crc32(repr((item["acts"], item["cfgs"], item["adds"])).encode())}
        if i == nhttp(ctx):
            out["sample"] = {"actions": item["acts"], "cache": item["cache"]}
        return out
    finally:
        ctx.rm(root)


def judge(item, log, root, counts, bad):
    cache = 120.0 if item["cache"] is None else item["cache"]
    versions, live = [(item["now"] - 1e6, [])], []
    adds = iter(item["adds"])
    cfg = disk = item["cfgs"][0]
    since = None  # time of the latest reload
    last_rows = None

    def text(k):
        return "after %s" % "; ".join(str(e["act"]) for e in log[max(0, k - 12):k])

    for k, e in enumerate(log):
        a = e["act"]
        if e.get("error"):
            bad("error-" + a[0], "%r (%s) raised %s, %s" % (a, e.get("where"), e["error"], text(k)))
            return
        if a[0] == "db":
            done, add, drop = next(adds)
            live = live[drop:] + add
            versions.append((e["t"], versions[-1][1] + done))
        elif a[0] == "cfg":
            disk = item["cfgs"][a[1]]
            if a[2]:
                cfg, since = disk, e["t"]
                counts["reloads"] += 1
        elif a[0] == "miss":
            if e.get("out"):
                counts["not-found"] += 1
                st, body = e["out"]
                if len(st) != 1 or not st[0][0].startswith("404") or clen(st[0][1]) != len(body.encode()):
                    bad("not-found", "path %r with metrics at %r: %r %r" % (a[1], item["path"], st, body[:200]))
        elif a[0] in ("scrape", "inside", "break"):
            counts["broken-reloads"] += a[0] == "break"
            if a[0] == "inside":
                counts["signals-inside"] += "where" in e
            st, body = e["out"]
            what = "%r %s%s" % (a, "(signal at %s) " % e["where"] if "where" in e else "", text(k))
            if len(st) != 1 or not st[0][0].startswith("200") or clen(st[0][1]) != len(body.encode()):
                bad("status", "%s: %r, %d bytes" % (what, st, len(body.encode())))
                continue
            ct = dict((x.lower(), y) for x, y in st[0][1]).get("content-type", "")
            if not ct.startswith("text/plain") or "version=0.0.4" not in ct:
                bad("content-type", "%s: %r" % (what, ct))
            try:
                types, out = prom.parse(body)
            except ValueError as x:
                bad("format", "%s: %s" % (what, x))
                continue
            counts["scrapes"] += 1
            if a[0] == "inside":
                # old, new or in between; the next one has to be new
                cfg = disk = item["cfgs"][a[2]]
                since = e["t"]
                continue
            counts["zero-cache"] += cache == 0
            jobs = gencfg.compiled_jobs(cfg)
            oldest = max(e["t"] - cache - 0.05, since if since is not None else 0)
            fit, why = False, None
            for n, (t0, done) in enumerate(versions):
                t1 = versions[n + 1][0] if n + 1 < len(versions) else 1e18
                if t1 < oldest:
                    continue
                w = prom.check_jobs(out, jobs, done, [0.01, 0.1, 0.5, 0.9, 0.99])
                if not w:
                    fit = True
                    counts["cached"] += n + 1 < len(versions)
                    counts["refreshed"] += n + 1 == len(versions) and n > 0
                    break
                why = w
            if not fit:
                stale = [n for n, (t0, done) in enumerate(versions) if not prom.check_jobs(out, jobs, done, [0.01, 0.1, 0.5, 0.9, 0.99])]
                bad("stale" if stale else "jobs", "%s with cache time %r at %r: %s; fits the state%s" % (
                    what, cache, e["t"], why[0][1], " of %r" % versions[stale[-1]][0] if stale else "s of no time"))
            for key, t in prom.check_running(out, jobs, live, not item["off"]):
                bad(key, "%s: %s" % (what, t))


def clen(headers):
    x = [b for a, b in headers if a.lower() == "content-length"]
    return int(x[0]) if len(x) == 1 and x[0].isdigit() else None


def served(item, root, conf, ctx, counts, bad):
    """The real server in a process of its own, on the loopback interface."""
    for attempt in range(5):
        s = socket.socket()
        s.bind(("127.0.0.1", 0))
        port = s.getsockname()[1]
        s.close()
        env = {"PATH": "/usr/bin:/bin", "HOME": root, "DSARI_HOME": os.path.join(root, "home"), "LANG": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1",
               "PYTHONPATH": ctx.repo, "WSGI_ARGS": json.dumps(["-c", conf])}
        with open(os.path.join(root, "err"), "wb") as ef:
            p = subprocess.Popen([sys.executable, "-B", "-c", "import sys\nfrom dsari.prometheus_exporter import main\nsys.argv = ['e'] + sys.argv[1:]\nsys.exit(main())",
                                  "-c", conf, "--listen-address", "127.0.0.1", "--listen-port", str(port), "--job-cache-time", "0"], env=env, cwd=root,
                                 stdin=subprocess.DEVNULL, stdout=ef, stderr=ef)
        t0 = time.monotonic()
        while time.monotonic() - t0 < 60 and p.poll() is None:
            try:
                socket.create_connection(("127.0.0.1", port), 5).close()
                break
            except OSError:
                time.sleep(0.05)
        if p.poll() is None:
            break
        if "Address already in use" not in open(os.path.join(root, "err")).read():
            bad("server", "the server ended: %s" % open(os.path.join(root, "err")).read()[-1500:])
            return
    try:
        w = World(root, item)
        cfg = item["cfgs"][0]

        def get(path, method="GET"):
            c = http.client.HTTPConnection("127.0.0.1", port, timeout=60)
            try:
                c.request(method, path)
                r = c.getresponse()
                return r.status, r.getheaders(), r.read()
            except (OSError, http.client.HTTPException) as e:
                return "no answer: %r, server status %r, %s" % (e, p.poll(), open(os.path.join(root, "err")).read()[-1500:]), [], b""
            finally:
                c.close()

        for k in range(6):
            if k in (1, 3) and k - 1 < len(item["adds"]):
                try:
                    w.change(time.time())
                except StopIteration:
                    pass
            if k == 4 and len(item["cfgs"]) > 1:
                cfg = item["cfgs"][1]
                put(root, conf, cfg)
                os.kill(p.pid, signal.SIGHUP)
                counts["http-reloads"] += 1
                time.sleep(0.3)
            if k == 5:
                put(root, conf, "{")
                os.kill(p.pid, signal.SIGHUP)
                counts["http-reloads"] += 1
                time.sleep(0.3)
            st, h, body = get("/metrics" + ("?x=1" if k % 2 else ""))
            counts["http"] += 1
            if st != 200 or clen(h) != len(body):
                bad("http", "request %d: status %r, headers %r, %d bytes" % (k, st, h, len(body)))
                return
            types, out = prom.parse(body.decode())
            jobs = gencfg.compiled_jobs(cfg)
            for key, t in prom.check_jobs(out, jobs, w.versions[-1][1], [0.01, 0.1, 0.5, 0.9, 0.99]) + prom.check_running(out, jobs, w.live, True):
                bad("http-" + key, "request %d: %s" % (k, t))
            st, h, body = get("/nothing")
            if st != 404 or clen(h) != len(body):
                bad("http-not-found", "status %r, headers %r, %d bytes" % (st, h, len(body)))
    finally:
        p.kill()
        p.wait()
