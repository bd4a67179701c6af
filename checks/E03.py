"""Commands are launched exactly as configured, with clean process state."""
import ctypes
import json
import os
import shlex
import signal
import struct
import subprocess
import sys
import time
import zlib

import gen
import gencfg
import rows
import simcore

RULE = ("one evaluation = one session of the real daemon, as an unprivileged user, with real processes that report their own state and write known bytes; "
        "distinct = different commands, options, outputs or circumstances")
NEED = {"runs": 250, "args": 700, "appended": 40, "string-commands": 40, "pwd": 20, "bytes": 1000000, "both-streams": 60, "killed": 15, "limits": 8, "extra-fds": 40,
        "ignored-signals": 30, "second-runs": 60, "grandchildren": 15, "shutdown-kills": 5, "missing-commands": 8, "forked-daemons": 3, "no-pwd": 20, "terminals": 4}
ASSUMPTIONS = ["open files of the daemon beyond number 1023 are not generated"]
CASE_S = 240
LEVEL = "exploration"
QUICK = 56
THOROUGH = 1500

# no directory: the run directory is used
FALLBACK = ("job-missing", "job-file", "job-empty")


def setup(ctx):
    out = os.path.join(ctx.scratch, "probe")
    for cc in ("gcc", "clang", "cc"):
        try:
            r = subprocess.run([cc, "-O2", "-w", "-o", out, os.path.join(os.path.dirname(simcore.__file__), "probe.c")], capture_output=True,
                               env={"PATH": os.environ["PATH"]})
        except OSError:
            continue
        if r.returncode == 0:
            os.chmod(out, 0o755)
            return
    raise RuntimeError("cannot compile the probe")


ARGS = gencfg.ARGS + ["a b  c", "\t", "\u00e9", "-c", "$(date)", "`id`", "~", ";", "|", "&&", "%s", "x" * 3000, "\"", "\x01\x7f", " ", "\\n", "<", ">/dev/null", "!"]
TEXTS = ["a", "two words", "'", "\\", "\u00fc", "x=y", "", "$X", "--opt=va lue"]


def script(rng, prof):
    """(bytes of the script, output, expected exit code)"""
    out, s = b"", b""

    def rec(c, n, data=b""):
        return c + struct.pack("<I", n) + data

    info = {"both": set(), "grand": 0}
    for _ in range(rng.randrange(0, 6)):
        k = rng.randrange(8)
        if k == 0:
            s += rec(b"s", rng.randrange(0, 30))
        elif k == 1:
            d = rng.randbytes(rng.choice([1, 100, 70000]))
            s += rec(b"c", len(d), d)
            out += d
            info["grand"] += 1
        else:
            d = rng.choice([lambda: rng.randbytes(rng.choice([1, 10, 4096, 65536, 200000])), lambda: b"line %d\n" % rng.randrange(100),
                            lambda: b"\0\xff\r\n", lambda: "\u2603 snow\n".encode() * rng.randrange(1, 50), lambda: b"no newline"])()
            w = rng.choice([b"1", b"2"])
            s += rec(w, len(d), d)
            out += d
            info["both"].add(w)
    if prof == "limit":
        if rng.random() < 0.5:
            s += rec(b"i", 15)
            code = 137
        else:
            code = 143
        s += rec(b"s", 60000)
    elif prof == "shutdown":
        s += rec(b"s", 60000)
        code = 143
    elif rng.random() < 0.3:
        n = rng.choice([1, 2, 3, 6, 9, 10, 11, 12, 13, 14, 15, 25, 31])
        s += rec(b"k", n) + rec(b"x", 7)
        code = 128 + n
    else:
        code = rng.choice([0, 0, 1, 2, 77, 127, 128, 255])
        s += rec(b"x", code)
    info["both"] = len(info["both"]) == 2
    return s, out, code, info


def case(i, rng, ctx):
    jobs = {}
    n = rng.randrange(3, 8)
    while len(jobs) < n:
        name = gencfg.name(rng)
        if name in jobs:
            continue
        prof = "limit" if i % 4 == 0 and not jobs else "shutdown" if i % 5 == 0 and len(jobs) == 1 else "missing" if i % 4 == 1 and not jobs else None
        s, out, code, info = script(rng, prof)
        args = [rng.choice(ARGS + [name]) for _ in range(rng.randrange(0, 7))]
        style = rng.randrange(4)
        opts = {"environment": {}}
        if rng.random() < 0.4:
            opts["command_append_run"] = True
        if rng.random() < 0.3:
            opts["jenkins_environment"] = True
        if prof == "limit":
            opts["max_execution"] = 0.7
            opts["max_execution_grace"] = 0.7
        if rng.random() < 0.2:
            opts["concurrent_runs"] = True
        jobs[name] = {"script": s, "out": out, "code": code, "args": args, "style": style, "opts": opts, "prof": prof, "pwd": rng.choice(
            [None, None, None, None, "job", "job", "job-missing", "job-file", "job-empty", "trigger", "trigger", "job-link", "job-ro", "job-ro"]), "info": info, "rounds": 1 if prof else rng.choice([1, 2, 2])}
    return {"jobs": jobs, "fds": sorted(rng.sample(range(3, 1024), rng.randrange(1, 9)) + [rng.choice([3, 1023, 4])]) if rng.random() < 0.7 else [],
            "ignore": rng.sample([1, 2, 3, 15, 13, 25], rng.randrange(1, 5)) if rng.random() < 0.5 else [], "fork": i % 8 == 3, "stdin": rng.randrange(4),
            "gpwd": rng.random() < 0.3, "umask": rng.choice([0o22, 0o77, 0]), "debug": rng.random() < 0.3}


def uid_of(i):
    # a worker process has one case at a time
    return 20000 + os.getpid() % 40000


def drop(uid, umask, ignore, fds):
    def f():
        os.setgroups([])
        os.setgid(uid)
        os.setuid(uid)
        ctypes.CDLL(None).prctl(1, 9, 0, 0, 0)
        os.umask(umask)
        for s in ignore:
            signal.signal(s, signal.SIG_IGN)
        if fds is not None:
            src = os.open("/dev/null", os.O_RDONLY)
            for fd in fds:
                if fd != src and not used(fd):
                    os.dup2(src, fd, inheritable=True)
    return f


def used(fd):
    try:
        os.fstat(fd)
        return True
    except OSError:
        return False


def kill_all(uid):
    """Kills what is left of the processes of this user (of this case only)."""
    pid = simcore.REAL["os.fork"]()
    if pid == 0:
        try:
            os.setgroups([])
            os.setgid(uid)
            os.setuid(uid)
            simcore.REAL["os.kill"](-1, signal.SIGKILL)
        finally:
            os._exit(0)
    simcore.REAL["os.waitpid"](pid, 0)


def run(item, i, ctx):
    v, keys = [], set()
    counts = dict.fromkeys(NEED, 0)

    def bad(key, what):
        if key not in keys:
            keys.add(key)
            v.append({"key": key, "what": what})

    root = os.path.realpath(ctx.tmp("c%d-%d" % (os.getpid(), i)))
    uid = uid_of(i)
    try:
        session(item, i, ctx, root, uid, counts, bad)
        out = {"violations": v, "counts": counts, "fp": zlib.crc32(repr(item).encode())}
        if i == 0:
            out["sample"] = {n: [j["args"], len(j["out"]), j["code"], j["prof"], j["pwd"]] for n, j in item["jobs"].items()}
        return out
    finally:
        kill_all(uid)
        if "terminal" in item:
            os.close(item.pop("terminal"))
        ctx.rm(root)


def session(item, i, ctx, root, uid, counts, bad):
    os.chmod(root, 0o755)
    var, conf, rep = (os.path.join(root, x) for x in ("var", "etc", "reports"))
    wd = os.path.join(root, "working dir")
    for d in (var, conf, rep, wd, os.path.join(root, "scripts"), os.path.join(root, "home")):
        os.makedirs(d)
    os.symlink(wd, wd + " link")
    ro = os.path.join(root, "read only dir")
    os.mkdir(ro, 0o555)
    probe = os.path.join(root, "a probe")
    os.symlink(os.path.join(ctx.scratch, "probe"), probe)
    doc = {"data_dir": var, "environment": {"VP_OUT": rep}, "jobs": {}, "shutdown_kill_runs": any(j["prof"] == "shutdown" for j in item["jobs"].values())}
    if item["gpwd"]:
        doc["environment"]["PWD"] = wd
    for k, (n, j) in enumerate(item["jobs"].items()):
        sp = os.path.join(root, "scripts", str(k))
        with open(sp, "wb") as f:
            f.write(j["script"])
        o = json.loads(json.dumps(j["opts"]))
        o["environment"]["VP_SCRIPT"] = sp
        if j["pwd"] == "job":
            o["environment"]["PWD"] = wd
        elif j["pwd"] == "job-missing":
            o["environment"]["PWD"] = os.path.join(root, "nowhere")
        elif j["pwd"] == "job-file":
            o["environment"]["PWD"] = os.path.join(root, "in")
        elif j["pwd"] == "job-empty":
            o["environment"]["PWD"] = ""
        elif j["pwd"] == "job-ro":
            o["environment"]["PWD"] = ro
        elif j["pwd"] == "job-link":
            o["environment"]["PWD"] = wd + " link"
        argv = [probe if j["prof"] != "missing" else os.path.join(root, "no such command")] + j["args"]
        if j["style"] == 0:
            o["command"] = shlex.join(argv)
        elif j["style"] == 1:
            argv[0] = "probe in path" if j["prof"] != "missing" else "no-such-command-at-all"
            o["environment"]["PATH"] = "/nonexistent:" + os.path.join(root, "bin")
            o["command"] = argv
        else:
            o["command"] = argv
        j["argv"] = argv
        doc["jobs"][n] = o
    os.makedirs(os.path.join(root, "bin"))
    os.symlink(os.path.join(ctx.scratch, "probe"), os.path.join(root, "bin", "probe in path"))
    with open(os.path.join(conf, "dsari.json"), "w") as f:
        json.dump(doc, f)
    for d in (var, rep, wd, os.path.join(root, "home")):
        os.chown(d, uid, uid)
    rin = os.path.join(root, "in")
    with open(rin, "w") as f:
        f.write("must not be read\n" * 100)
    env = {"PATH": "/usr/bin:/bin", "HOME": os.path.join(root, "home"), "DSARI_HOME": os.path.join(root, "home"), "LANG": "C.UTF-8",
           "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPATH": ctx.repo}
    err = open(os.path.join(root, "err"), "wb")
    if item["stdin"] == 3:
        # a terminal
        terminal, slave = os.openpty()
        item["terminal"] = terminal
        os.write(terminal, b"must not be read\n")
        stdin = os.fdopen(slave, "rb", buffering=0)
        counts["terminals"] += 1
    else:
        stdin = subprocess.DEVNULL if item["stdin"] == 0 else open(rin, "rb")
    argv = [sys.executable, "-B", "-c", "import sys\nimport dsari\nif not dsari.__file__.startswith(sys.argv.pop(1) + '/'):\n sys.exit(117)\nfrom dsari.daemon import main\nsys.argv = ['dsari-daemon'] + sys.argv[1:]\nsys.exit(main())", ctx.repo, "-c", conf]
    p = subprocess.Popen(argv + (["--fork"] if item["fork"] else []) + (["--debug"] if item["debug"] else []), env=env, cwd=root, stdin=stdin, stdout=err, stderr=err,
                         preexec_fn=drop(uid, item["umask"], item["ignore"], item["fds"]), close_fds=False, start_new_session=True)
    err.close()
    if hasattr(stdin, "close"):
        stdin.close()
    counts["forked-daemons"] += item["fork"]
    daemon = p.pid

    def problem():
        with open(os.path.join(root, "err"), "rb") as f:
            return f.read()[-3000:].decode("utf-8", "replace")

    def alive():
        if not item["fork"]:
            return p.poll() is None
        try:
            p.poll()
            simcore.REAL["os.kill"](daemon, 0)
            return True
        except OSError:
            return False

    def wait(cond, limit, dies=True):
        t0 = time.monotonic()
        while time.monotonic() - t0 < limit:
            if cond():
                return True
            if dies and not alive():
                return bool(cond())
            time.sleep(0.03)
        return False

    if item["fork"]:
        p.wait(60)
        if p.returncode != 0:
            bad("fork", "the daemon with --fork: exit status %r, %s" % (p.returncode, problem()))
            return
        kids = []

        def child():
            kids[:] = [int(x) for x in os.listdir("/proc") if x.isdigit() and owner(x) == uid]
            return len(kids) == 1

        if not wait(child, 60, dies=False):
            bad("fork", "the daemon with --fork did not stay in the background: %r %s" % (kids, problem()))
            return
        daemon = kids[0]
    db = os.path.join(var, "dsari.sqlite3")

    def query(sql):
        try:
            c = simcore.REAL["sqlite3.connect"]("file:%s?mode=ro" % db, uri=True, timeout=5)
            try:
                return c.execute(sql).fetchall()
            finally:
                c.close()
        except Exception:
            return []

    # up once it has handlers: it then takes triggers
    if not wait(lambda: handles(daemon, 10), 60):
        if p.poll() == 117:
            raise RuntimeError("the code is not readable for the unprivileged user")
        bad("start", "the daemon did not come up: %s" % problem())
        return
    total, late = 0, []
    for rnd in range(2):
        fire = [n for n, j in item["jobs"].items() if j["rounds"] > rnd and j["prof"] != "shutdown"]
        put(item, fire, var, wd, uid, rnd)
        simcore.REAL["os.kill"](daemon, signal.SIGUSR1)
        total += len(fire)
        if not wait(lambda: len(query("select 1 from runs")) >= total, 60):
            bad("lost", "%d runs should have ended by now: %r, running %r, daemon %s: %s" % (
                total, query("select job_name, exit_code from runs"), query("select job_name from runs_running"), "up" if alive() else "ended", problem()))
            return
        counts["second-runs"] += rnd and len(fire)
    late = [n for n, j in item["jobs"].items() if j["prof"] == "shutdown"]
    if late:
        put(item, late, var, wd, uid, 0)
        simcore.REAL["os.kill"](daemon, signal.SIGUSR1)
        wait(lambda: len(query("select 1 from runs_running")) >= len(late) and len(os.listdir(rep)) >= 1 and all(
            any(f.startswith(x[0] + ".") and not f.endswith(".tmp") for f in os.listdir(rep)) for x in query("select run_id from runs_running")), 60)
        time.sleep(0.05)
        total += len(late)
    simcore.REAL["os.kill"](daemon, signal.SIGTERM)
    if not wait(lambda: not alive(), 60, dies=False):
        bad("shutdown", "the daemon did not end on SIGTERM: %s" % problem())
        return
    if not item["fork"] and p.wait() != 0:
        bad("exit", "the daemon ended with status %r: %s" % (p.returncode, problem()))
    done = query("select job_name, run_id, exit_code from runs")
    if len(done) != total or query("select 1 from runs_running"):
        bad("lost", "%d runs took place, recorded: %r, running: %r" % (total, done, query("select job_name from runs_running")))
        return
    reports = {}
    for f in os.listdir(rep):
        reports.setdefault(f.split(".")[0], []).append(read_report(os.path.join(rep, f)))
    for name, rid, code in done:
        j = item["jobs"][name]
        rundir = os.path.join(var, "runs", name, rid)
        what = "run of %r with options %r, PWD %s, daemon started with files %r and ignored signals %r" % (
            j["argv"], j["opts"], j["pwd"], item["fds"], item["ignore"])
        what = what[:1500]
        counts["runs"] += 1
        if j["prof"] == "missing":
            counts["missing-commands"] += 1
            if code == 0 or reports.get(rid):
                bad("missing", "%s: exit code %r, although the command does not exist" % (what, code))
            continue
        if len(reports.get(rid, [])) != 1:
            bad("launch", "%s was started %d times (exit code %r, output %r, %s)" % (what, len(reports.get(rid, [])), code, head(os.path.join(rundir, "output.txt")), problem()))
            continue
        r = reports[rid][0]
        want = [a.encode() for a in j["argv"] + ([name, rid] if j["opts"].get("command_append_run") else [])]
        if r["arg"] != want:
            bad("argv", "%s: arguments %r instead of %r" % (what, r["arg"], want))
        counts["args"] += len(want)
        counts["appended"] += bool(j["opts"].get("command_append_run"))
        counts["string-commands"] += j["style"] == 0
        cwd = wd if j["pwd"] in ("job", "trigger") or (item["gpwd"] and j["pwd"] not in FALLBACK) else rundir
        shown = cwd
        if j["pwd"] == "job-ro":
            cwd = shown = ro
        if j["pwd"] == "job-link":
            cwd, shown = wd, wd + " link"
        counts["no-pwd"] += j["pwd"] in FALLBACK
        counts["pwd"] += cwd == wd
        if r["cwd"] != [cwd.encode()]:
            bad("cwd", "%s: started in %r instead of %r" % (what, r["cwd"], cwd))
        env = dict(x.split(b"=", 1) for x in r["env"])
        if env.get(b"PWD") != shown.encode():
            bad("cwd", "%s: PWD is %r instead of %r" % (what, env.get(b"PWD"), shown))
        if r["pid"] != r["pgrp"]:
            bad("pgrp", "%s: process group is not its own" % what)
        if r["stdin"] != [b"0"]:
            bad("stdin", "%s: standard input is not empty: %r" % (what, r["stdin"]))
        if sorted(r["fd"]) != [b"0", b"1", b"2"]:
            bad("fds", "%s: open files %r" % (what, r["fd"]))
        if r["signal"] or r["blocked"]:
            bad("signals", "%s: signals ignored %r, blocked %r" % (what, r["signal"], r["blocked"]))
        counts["extra-fds"] += bool(item["fds"])
        counts["ignored-signals"] += bool(item["ignore"])
        with open(os.path.join(rundir, "output.txt"), "rb") as f:
            out = f.read()
        if out != j["out"]:
            k = next((x for x in range(min(len(out), len(j["out"]))) if out[x] != j["out"][x]), min(len(out), len(j["out"])))
            bad("output", "%s wrote %d bytes, its output file has %d; at %d %r instead of %r" % (what, len(j["out"]), len(out), k, out[k:k + 80], j["out"][k:k + 80]))
        counts["bytes"] += len(j["out"])
        counts["both-streams"] += j["info"]["both"]
        counts["grandchildren"] += j["info"]["grand"] > 0
        if code != j["code"]:
            bad("code", "%s: exit code %r instead of %r" % (what, code, j["code"]))
        counts["killed"] += j["code"] > 128 and j["code"] < 255
        counts["limits"] += j["prof"] == "limit"
        counts["shutdown-kills"] += j["prof"] == "shutdown"
    for x in set(reports) - {d[1] for d in done}:
        bad("unknown", "a run %s without a record took place" % x)


def put(item, names, var, wd, uid, rnd):
    for n in names:
        d = os.path.join(var, "trigger", n)
        os.makedirs(d, exist_ok=True)
        for x in (os.path.dirname(d), d):
            os.chown(x, uid, uid)
        t = {"environment": {"ROUND": str(rnd)}}
        if item["jobs"][n]["pwd"] == "trigger":
            t["environment"]["PWD"] = wd
        with open(os.path.join(d, "t"), "w") as f:
            json.dump(t, f)
        os.rename(os.path.join(d, "t"), os.path.join(d, "trigger.json"))


def owner(pid):
    try:
        return os.stat("/proc/" + pid).st_uid
    except OSError:
        return None


def handles(pid, sig):
    try:
        with open("/proc/%d/status" % pid) as f:
            for l in f:
                if l.startswith("SigCgt:"):
                    return bool(int(l.split()[1], 16) >> (sig - 1) & 1)
    except (OSError, ValueError):
        pass
    return False


def head(path):
    try:
        with open(path, "rb") as f:
            return f.read(1500)
    except OSError as e:
        return repr(e)


def read_report(path):
    out = {"arg": [], "env": [], "fd": [], "signal": [], "blocked": [], "cwd": [], "stdin": [], "std": []}
    with open(path, "rb") as f:
        data = f.read()
    p = 0
    while p < len(data):
        e = data.index(b"\n", p)
        k, n = data[p:e].decode().split(" ")
        out.setdefault(k, []).append(data[e + 1:e + 1 + int(n)])
        p = e + 2 + int(n)
    return out
