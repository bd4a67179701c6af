"""All programs find the same configuration and data, where documented."""
import ctypes
import json
import os
import signal
import sqlite3
import subprocess
import sys
import time

import yaml

import rows
import simcore

RULE = ("one evaluation = one layout of configuration directories (in the environment, at home, system-wide) with all four real programs run in it, as an "
        "unprivileged user; distinct = different layout, environment or options")
NEED = {"programs": 200, "dsari-home": 10, "home": 10, "usr-local": 5, "etc": 4, "nothing": 1, "explicit": 12, "data-dir": 15, "daemon-runs": 30, "forked": 10,
        "config.d-only": 6}
ASSUMPTIONS = ["system-wide directories are stood for by others (every access by name in Python is redirected)"]
QUICK = 160
THOROUGH = 1000
CASE_S = 200
LOCS = ["dsari-home", "home", "usr-local", "etc"]
NAMES = {"dsari-home": None, "home": None, "usr-local": ("/usr/local/etc/dsari", "/usr/local/lib/dsari"), "etc": ("/etc/dsari", "/var/lib/dsari")}
KINDS = ["json", "yaml", "config.d", "both"]


def case(i, rng, ctx):
    there = {x: rng.choice(KINDS) for x in LOCS if rng.random() < 0.65}
    if i % 2 == 1:
        there.pop("home", None)
    if i % 4 == 3:
        there.pop("usr-local", None)
    for x in LOCS:
        if x not in there and rng.random() < 0.4:
            there[x] = "empty"  # the directory only
    return {"there": there, "env": rng.random() < 0.25, "c": rng.choice([None] * 7 + ["json", "yaml", "config.d"]), "data": rng.random() < 0.4,
            "fork": rng.random() < 0.4, "opt": rng.choice(["-c", "--config-dir"]), "slash": rng.random() < 0.2,
            "ids": {x: rows.run_id(rng) for x in LOCS + ["c", "data"]}, "now": 1700000000 + rng.randrange(10 ** 6)}


def put(d, kind, doc):
    os.makedirs(d)
    if kind in ("json", "both"):
        with open(os.path.join(d, "dsari.json"), "w") as f:
            json.dump(doc, f)
    if kind in ("yaml", "both"):
        with open(os.path.join(d, "dsari.yaml"), "w") as f:
            yaml.safe_dump(doc, f)
    if kind == "config.d":
        os.makedirs(os.path.join(d, "config.d"))
        with open(os.path.join(d, "config.d", "a.json"), "w") as f:
            json.dump(doc, f)


def drop(uid):
    def f():
        os.setgroups([])
        os.setgid(uid)
        os.setuid(uid)
        ctypes.CDLL(None).prctl(1, 9, 0, 0, 0)
    return f


def snapshot(d):
    return sorted(os.path.relpath(os.path.join(a, x), d) for a, b, fs in os.walk(d) for x in b + fs)


def kill_all(uid):
    pid = simcore.REAL["os.fork"]()
    if pid == 0:
        try:
            os.setgroups([])
            os.setgid(uid)
            os.setuid(uid)
            simcore.REAL["os.kill"](-1, signal.SIGKILL)
        finally:
            os._exit(0)
    simcore.REAL["os.waitpid"](pid, 0)


def run(item, i, ctx):
    v = []
    counts = dict.fromkeys(NEED, 0)

    def bad(key, what, **k):
        if not any(x["key"] == key for x in v):
            v.append(dict(k, key=key, what=what))

    root = os.path.realpath(ctx.tmp("c%d-%d" % (os.getpid(), i)))
    uid = 20000 + os.getpid() % 40000
    try:
        layout(item, ctx, root, uid, counts, bad)
        out = {"violations": v, "counts": counts, "fp": repr([item[x] for x in ("there", "env", "c", "data", "fork")])}
        if i < 3:
            out["sample"] = {x: item[x] for x in ("there", "env", "c", "data", "fork")}
        return out
    finally:
        kill_all(uid)
        ctx.rm(root)


def layout(item, ctx, root, uid, counts, bad):
    there = item["there"]
    etc, var, maps = {}, {}, {}
    for x in LOCS:
        etc[x], var[x] = os.path.join(root, x, "etc"), os.path.join(root, x, "var")
        if x == "home":
            etc[x], var[x] = os.path.join(root, x, ".dsari", "etc"), os.path.join(root, x, ".dsari", "var")
        if NAMES[x]:
            maps[NAMES[x][0]], maps[NAMES[x][1]] = etc[x], var[x]
    etc["c"] = os.path.join(root, "c", "etc")
    var["c"] = os.path.join(root, "c", "var")
    var["data"] = os.path.join(root, "data")
    jobs = ["j-" + x for x in LOCS + ["c"]]

    def doc(x):
        d = {"jobs": {"j-" + x: {"command": ["/bin/sh", "-c", "echo ran; echo $PPID > ppid"]}}}
        if item["data"]:
            d["data_dir"] = var["data"]
        return d

    for x in LOCS:
        if x in there:
            put(etc[x], there[x], doc(x))
    put(etc["c"], item["c"] or "json", doc("c"))
    for x, d in var.items():
        # a run of every job, told apart by its run ID
        rows.write(os.path.join(d, "dsari.sqlite3"), [
            {"job_name": j, "run_id": "%s%02d" % (item["ids"][x][:-2], n), "schedule_time": item["now"] + 0.5, "start_time": item["now"] + 1.0,
             "stop_time": item["now"] + 2.0, "exit_code": 0, "trigger_type": "file", "trigger_data": {}, "run_data": {}} for n, j in enumerate(jobs)])
        for j in jobs:
            os.makedirs(os.path.join(d, "trigger", j))
            with open(os.path.join(d, "trigger", j, "trigger.json"), "w") as f:
                f.write("{}")
    for a, b, fs in os.walk(root):
        for n in [a] + [os.path.join(a, n) for n in fs]:
            os.chown(n, uid, uid)
    # what is to be found
    full = [x for x in LOCS[1:] if there.get(x, "empty") != "empty"]
    base = "dsari-home" if item["env"] else (full + ["home"])[0]
    conf = "c" if item["c"] else base
    configured = ["j-" + conf] if conf == "c" or there.get(conf, "empty") != "empty" else []
    data = "data" if item["data"] and configured else base
    counts["explicit" if conf == "c" else base if configured else "nothing"] += 1
    counts["data-dir"] += data == "data"
    counts["config.d-only"] += there.get(conf) == "config.d" or conf == "c" and item["c"] == "config.d"
    want_dir = NAMES[data][1] if NAMES.get(data) else var[data]
    env = {"PATH": "/usr/bin:/bin", "HOME": os.path.join(root, "home"), "LANG": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1", "TZ": "UTC"}
    if item["env"]:
        env["DSARI_HOME"] = os.path.join(root, "dsari-home") + ("/" if item["slash"] else "")
    os.makedirs(env["HOME"], exist_ok=True)
    at = "layout %s, DSARI_HOME %s, -c %s" % (there, item["env"], item["c"])

    def argv(tool, args):
        return [sys.executable, "-B", os.path.join(ctx.scratch, "vroot.py"), ctx.repo, json.dumps(maps), tool] + (
            [item["opt"], etc["c"]] if item["c"] else []) + args

    def tool(name, args):
        r = subprocess.run(argv(name, args), env=env, cwd=root, stdin=subprocess.DEVNULL, capture_output=True, preexec_fn=drop(uid), start_new_session=True,
                           timeout=60)
        if r.returncode == 117 or b"vroot.py\", line" in r.stderr and b"ImportError" in r.stderr:
            raise RuntimeError("not the code under test: %r" % r.stderr[-500:])
        counts["programs"] += 1
        if r.returncode:
            bad("failed " + name, "%s %s ended with %d: %s (%s)" % (name, args, r.returncode, r.stderr[-500:].decode("utf-8", "replace"), at))
            return None
        return r.stdout.decode()

    others = [x for x in var if x != data]
    before = {x: snapshot(var[x]) for x in others}
    o = tool("info", ["config", "dump"])
    if o is not None:
        d = json.loads(o)
        if sorted(d.get("jobs", {})) != configured:
            bad("config", "dsari-info has the jobs %s, expected %s (%s)" % (sorted(d["jobs"]), configured, at))
        if os.path.normpath(d["data_dir"]) != want_dir:
            bad("data_dir", "dsari-info has the data directory %s, expected %s (%s)" % (d["data_dir"], want_dir, at))
    mine = {"%s%02d" % (item["ids"][data][:-2], n) for n in range(len(jobs))}
    o = tool("info", ["run", "list", "--format", "json"])
    if o is not None:
        got = {x for x in mine | {"%s%02d" % (item["ids"][x][:-2], n) for x in item["ids"] for n in range(len(jobs))} if x in o}
        if not got <= mine or not got:
            bad("runs", "dsari-info lists runs of another data directory than %s (%s)" % (want_dir, at), got=sorted(got), want=sorted(mine))
    o = tool("prometheus_exporter", ["--dump"])
    if o is not None:
        got = [j for j in jobs if '"%s"' % j in o]
        if got != configured:
            bad("metrics", "dsari-prometheus-exporter has the jobs %s, expected %s (%s)" % (got, configured, at))
    tool("render", [])
    if configured and not os.path.exists(os.path.join(var[data], "html", configured[0], "index.html")):
        bad("reports", "dsari-render has not written to %s (%s)" % (want_dir, at))
    if configured:
        daemon(item, root, env, argv, uid, var[data], configured[0], counts, bad, at)
    for x in others:
        if snapshot(var[x]) != before[x]:
            bad("other", "something was changed in %s while the data directory is %s (%s)" % (var[x], want_dir, at),
                changes=sorted(set(snapshot(var[x])) ^ set(before[x]))[:10])


def daemon(item, root, env, argv, uid, d, job, counts, bad, at):
    fork = item["fork"]
    with open(os.path.join(root, "log"), "wb") as err:
        p = subprocess.Popen(argv("daemon", ["--fork"] if fork else []), env=env, cwd=root, stdin=subprocess.DEVNULL, stdout=err, stderr=err, preexec_fn=drop(uid),
                             start_new_session=True)

    def done():
        c = simcore.REAL["sqlite3.connect"]("file:%s?mode=ro" % os.path.join(d, "dsari.sqlite3"), uri=True, timeout=5)
        try:
            return [x for x, in c.execute("SELECT run_id FROM runs WHERE job_name = ? AND start_time > ?", (job, item["now"] + 10.0))]
        except sqlite3.OperationalError:
            return []
        finally:
            c.close()

    def log():
        with open(os.path.join(root, "log"), "rb") as f:
            return f.read()[-800:].decode("utf-8", "replace")

    end = time.monotonic() + 60
    try:
        got = []
        while not got and time.monotonic() < end:
            got = done()
            if p.poll() is not None and not (fork and p.returncode == 0):
                bad("daemon", "dsari-daemon ended with %s: %s (%s)" % (p.returncode, log(), at))
                return
            time.sleep(0.05)
        if not got:
            bad("daemon", "dsari-daemon has not run %s, triggered in %s (%s): %s" % (job, d, at, log()))
            return
        counts["daemon-runs"] += 1
        out = os.path.join(d, "runs", job, got[0], "output.txt")
        if not os.path.exists(out):
            bad("output", "dsari-daemon has not written %s (%s)" % (out, at))
            return
        with open(os.path.join(d, "runs", job, got[0], "ppid")) as f:
            pid = int(f.read())
        if not fork:
            if pid != p.pid:
                bad("foreground", "dsari-daemon went into the background without --fork (%s)" % at)
            return
        counts["forked"] += 1
        try:
            if p.wait(20) != 0:
                bad("fork", "dsari-daemon --fork ended with %d" % p.returncode)
        except subprocess.TimeoutExpired:
            bad("fork", "dsari-daemon --fork stays in the foreground")
            return
        if pid == p.pid or not os.path.exists("/proc/%d" % pid):
            bad("fork", "no dsari-daemon goes on in the background after --fork")
    finally:
        kill_all(uid)
        p.wait()


def setup(ctx):
    # where an unprivileged user can read it
    with open(os.path.join(os.path.dirname(simcore.__file__), "vroot.py")) as f, open(os.path.join(ctx.scratch, "vroot.py"), "w") as g:
        g.write(f.read())
