"""dsari-info on a terminal: pager, width, colours; and its interactive shell."""
import fcntl
import json
import os
import re
import select
import signal
import struct
import subprocess
import sys
import termios
import time
import tty
import zlib

import gencfg
import rows
import simcore
import tools

RULE = ("one evaluation = one request to the real tool on a pseudo-terminal with a recording pager, compared with the output of the same request to a pipe "
        "(which other checks compare with the records), or one session of the interactive shell; distinct = different request, terminal and pager")
NEED = {"requests": 250, "paged": 120, "direct": 30, "narrowed": 40, "coloured": 20, "early": 20, "interrupted": 10, "default-pager": 30, "shells": 6, "variables": 30, "pipe-columns": 40}
ASSUMPTIONS = ["colours are SGR escape sequences", "padding at the end of lines of a table does not matter"]
CASE_S = 300
SHELLS = 8


def QUICK(ctx):
    return SHELLS + 110


def THOROUGH(ctx):
    return 80 + 3000


def nshells(ctx):
    return SHELLS if ctx.quick else 80


setup = tools.prepare


def case(i, rng, ctx):
    cfg = {"jobs": {}, "data_dir": "@ROOT@/var"}
    for n in rng.sample(["a", "job b", "x" * 40, "z-9", "@home", "Ab.c+d"], rng.randrange(1, 5)):
        cfg["jobs"][n] = {"command": rng.choice(["true", ["echo", "a b", "\u2603"], ["sh", "-c", "exit 3"] + ["long argument"] * rng.randrange(12)]),
                          "schedule": rng.choice([None, "0 0 1 1 *", "0 12 31 12 * 30"])}
        if rng.random() < 0.5:
            cfg["jobs"][n]["concurrency_groups"] = ["g%d" % rng.randrange(3)]
    jobs = list(cfg["jobs"])
    now = rng.randrange(1600000000, 1700000000) + rng.random()
    done = rows.history(rng, jobs + ["gone"], now - 10 ** 6, now, rng.choice([0, 1, 4, 25, 60]))
    if done and rng.random() < 0.5:
        # recent
        for r in done[-3:]:
            d = time.time() - 1000 - now
            for k in ("schedule_time", "start_time", "stop_time"):
                r[k] = round(r[k] + d, 6)
    item = {"cfg": cfg, "done": done, "live": []}
    if i < nshells(ctx):
        item["live"] = [rows.record(rng, rng.choice(jobs), now, running=True) for _ in range(rng.randrange(0, 3))]
        item["shell"] = True
        item["ipython"] = bool(i % 2)
        return item
    item["reqs"] = []
    for _ in range(3):
        k = rng.randrange(10)
        if k < 3:
            a = ["run", "list"] + rng.choice([[], [], ["--format", "pretty"]])
        elif k < 5:
            a = ["job", "list"]
        elif k == 5:
            a = ["run", "list", "--format", rng.choice(["json", "yaml", "tabular"])]
        elif k == 6:
            a = ["job", "list", "--format", rng.choice(["json", "yaml", "tabular"])]
        elif k == 7:
            a = ["config", "dump"] + rng.choice([[], ["--raw"], ["--format", "yaml"]])
        else:
            a = ["run", "output"]
        q = {"argv": a, "pager": rng.choice(["rec", "rec", "args", "default", "default-empty", "missing", "none", "early", "interrupt"]),
             "less": rng.choice([None, None, "", "-R"]), "width": rng.choice([20, 40, 60, 80, 100, 132, 200, 300, rng.randrange(1, 250)]),
             "columns": rng.choice([None, None, None, "", "x", str(rng.randrange(1, 250))]), "term": rng.choice(["xterm", "xterm-256color", "dumb", None]),
             "stdin": rng.random() < 0.8}
        if a == ["run", "output"]:
            q["size"] = rng.choice([0, 1, 10, 5000, 300000])
        item["reqs"].append(q)
    return item


CODE = "import sys\nfrom dsari.info import main\nsys.argv = ['dsari-info'] + sys.argv[1:]\nsys.exit(main())"
REC = """#!/bin/sh
for a in "$@"; do printf '%%s\\0' "$a"; done > '%(d)s/args'
printf '%%s' "${LESS-unset}" > '%(d)s/less'
cat > '%(d)s/in.tmp'
mv '%(d)s/in.tmp' '%(d)s/in'
%(x)s
printf 'shown'
: > '%(d)s/end'
"""


def script(path, d, x=""):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(REC % {"d": d, "x": x})
    os.chmod(path, 0o755)


def plain(b):
    return re.sub(rb"\x1b\[[0-9;]*m", b"", b)


def narrowed(full, width):
    """The table as it should be on a terminal of this width"""
    ls = full.decode().split("\n")
    w = [len(x) for x in ls[1].split(" ") if x]
    n = len(w)
    while n and sum(w[:n]) + 3 * (n - 1) > width:
        n -= 1
    if n == len(w):
        return [x.rstrip() for x in ls]
    cut = sum(w[:n]) + 3 * max(n - 1, 0)
    return [x[:cut].rstrip() for x in ls]


def run(item, i, ctx):
    v, keys = [], set()
    counts = dict.fromkeys(NEED, 0)

    def bad(key, what):
        if key not in keys:
            keys.add(key)
            v.append({"key": key, "what": what})

    root = os.path.realpath(ctx.tmp("c%d-%d" % (os.getpid(), i)))
    try:
        conf = tools.configure(root, {"dsari.json": json.dumps(item["cfg"])})
        rows.write(os.path.join(root, "var", "dsari.sqlite3"), item["done"], item["live"])
        os.makedirs(os.path.join(root, "home"))
        env = {"PATH": "/usr/bin:/bin", "HOME": os.path.join(root, "home"), "LANG": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPATH": ctx.repo, "TZ": "UTC"}
        if item.get("shell"):
            shell(item, root, conf, env, counts, bad)
            return {"violations": v, "counts": counts, "fp": "shell-%d" % i}
        fps = []
        for k, q in enumerate(item["reqs"]):
            request(q, k, item, root, conf, env, counts, bad)
            fps.append(str(zlib.crc32(json.dumps([q, len(item["done"])], sort_keys=True).encode())))
        out = {"violations": v, "counts": counts, "fps": fps}
        if i == nshells(ctx):
            out["sample"] = {"requests": item["reqs"]}
        return out
    finally:
        ctx.rm(root)


def idle(pid):
    """Whether the process does nothing but wait"""
    seen = set()
    for _ in range(4):
        try:
            with open("/proc/%d/stat" % pid) as f:
                x = f.read().rsplit(")", 1)[1].split()
        except OSError:
            return False
        seen.add((x[0], x[11], x[12]))
        time.sleep(0.05)
    return len(seen) == 1 and x[0] == "S"


def request(q, k, item, root, conf, env, counts, bad):
    argv = list(q["argv"])
    if argv == ["run", "output"]:
        if not item["done"]:
            return
        r = item["done"][-1]
        d = os.path.join(root, "var", "runs", r["job_name"], r["run_id"])
        os.makedirs(d, exist_ok=True)
        text = ("line \u2603 \x1b[31mred\x1b[0m of the output\r\n\t" * (q["size"] // 30 + 1))[:q["size"]]
        with open(os.path.join(d, "output.txt"), "wb") as f:
            f.write(text.encode())
        argv.append(r["run_id"])
    cmd = [sys.executable, "-B", "-c", CODE, "-c", conf] + argv
    what = "dsari-info %s on a terminal, %r" % (" ".join(argv), {x: y for x, y in q.items() if x != "argv"})
    base = subprocess.run(cmd, env=env, cwd=root, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
    if base.returncode != 0:
        bad("pipe-failed", "dsari-info %s: %r" % (argv, base))
        return
    if b"\x1b[" in base.stdout and argv[:2] != ["run", "output"]:
        bad("pipe-colour", "dsari-info %s colours its output to a pipe: %r" % (argv, base.stdout[:300]))
    if q["columns"] and q["columns"].isdigit() and argv[:2] != ["run", "output"]:
        # fitting COLUMNS has nothing to do with terminals
        r = subprocess.run(cmd, env=dict(env, COLUMNS=q["columns"]), cwd=root, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
        table = argv[2:] in ([], ["--format", "pretty"]) and argv[0] in ("run", "job")
        w, g = base.stdout.decode().split("\n"), [x for x in r.stdout.decode().split("\n")]
        if table:
            w, g = narrowed(base.stdout, int(q["columns"])), [x.rstrip() for x in g]
        counts["pipe-columns"] += 1
        if r.returncode != 0 or w != g:
            n = next((n for n in range(min(len(w), len(g))) if w[n] != g[n]), min(len(w), len(g)))
            bad("pipe-columns", "dsari-info %s to a pipe with COLUMNS=%s: status %d, line %d is %r, expected %r" % (argv, q["columns"], r.returncode, n, g[n:n + 1], w[n:n + 1]))
    d = os.path.join(root, "rec%d" % k)
    os.makedirs(d)
    e = dict(env)
    bindir = os.path.join(d, "bin")
    want_args = []
    if q["pager"] in ("rec", "args", "interrupt"):
        p = os.path.join(d, "my pager")
        script(p, d, "while [ ! -e '%s/go' ]; do sleep 0.05; done" % d if q["pager"] == "interrupt" else "")
        want_args = ["-x", "a b", "--"] if q["pager"] == "args" else []
        e["PAGER"] = "'%s'%s" % (p, " -x 'a b' --" if want_args else "")
    elif q["pager"] in ("default", "default-empty"):
        script(os.path.join(bindir, "pager"), d)
        e["PATH"] = bindir + ":" + e["PATH"]
        if q["pager"] == "default-empty":
            e["PAGER"] = ""
    elif q["pager"] == "missing":
        e["PAGER"] = os.path.join(d, "no such")
        e["PAGER"] = "'%s'" % e["PAGER"]
    elif q["pager"] == "none":
        # no pager anywhere in the path, but what the tool itself needs
        os.makedirs(bindir)
        os.symlink("/usr/bin/stty" if os.path.exists("/usr/bin/stty") else "/bin/stty", os.path.join(bindir, "stty"))
        e["PATH"] = bindir
    elif q["pager"] == "early":
        e["PAGER"] = "head -c 3"
    for n, x in (("LESS", q["less"]), ("COLUMNS", q["columns"]), ("TERM", q["term"])):
        if x is not None:
            e[n] = x
    m, s = os.openpty()
    tty.setraw(s)
    fcntl.ioctl(s, termios.TIOCSWINSZ, struct.pack("HHHH", 24, q["width"], 0, 0))
    with open(os.path.join(d, "err"), "wb") as ef:
        p = subprocess.Popen(cmd, env=e, cwd=root, stdin=s if q["stdin"] else subprocess.DEVNULL, stdout=s, stderr=ef, start_new_session=True)
    os.close(s)
    shown = b""
    try:
        end = time.monotonic() + 100
        stage = 0
        while True:
            rd, _, _ = select.select([m], [], [], 0.05)
            if rd:
                try:
                    b = os.read(m, 65536)
                except OSError:
                    b = b""
                if not b:
                    break
                shown += b
            if q["pager"] == "interrupt" and stage < 3 and os.path.exists(os.path.join(d, "in")):
                # the pager has got everything and waits for the user
                if stage == 0 and idle(p.pid):
                    p.send_signal(signal.SIGINT)
                    t = time.monotonic()
                    stage = 1
                elif stage == 1 and time.monotonic() > t + 0.4:
                    if p.poll() is not None:
                        bad("interrupt", "%s ended with %r on SIGINT although the pager is still open" % (what, p.returncode))
                    p.send_signal(signal.SIGINT)
                    open(os.path.join(d, "go"), "w").close()
                    stage = 3
            if time.monotonic() > end:
                bad("stuck", "%s did not end within 100 s" % what)
                return
        try:
            code = p.wait(60)
        except subprocess.TimeoutExpired:
            bad("stuck", "%s did not end" % what)
            return
    finally:
        os.close(m)
        if p.poll() is None:
            try:
                simcore.REAL["os.kill"](p.pid, signal.SIGKILL)
            except OSError:
                pass
        p.wait()
    counts["requests"] += 1
    with open(os.path.join(d, "err"), "rb") as f:
        err = f.read().decode("utf-8", "replace")
    if code != 0 or "Traceback" in err:
        bad("failed-" + q["pager"], "%s: exit %r, %s" % (what, code, err[-1500:]))
        return
    if q["pager"] == "early":
        counts["early"] += 1
        if len(shown) > 3 or argv[:2] == ["run", "output"] and not base.stdout.startswith(shown):
            bad("early", "%s: %r shown" % (what, shown))
        return
    if q["pager"] in ("missing", "none"):
        counts["direct"] += 1
        got = shown
    else:
        try:
            with open(os.path.join(d, "in"), "rb") as f:
                got = f.read()
            with open(os.path.join(d, "args"), "rb") as f:
                args = f.read().decode().split("\0")[:-1]
            with open(os.path.join(d, "less")) as f:
                less = f.read()
        except OSError:
            bad("not-paged", "%s: the pager did not get the output; %r shown, %s" % (what, shown[:300], err[-500:]))
            return
        counts["paged"] += 1
        counts["default-pager"] += q["pager"].startswith("default")
        counts["interrupted"] += q["pager"] == "interrupt"
        if not os.path.exists(os.path.join(d, "end")) or shown != b"shown":
            bad("pager-screen", "%s: the pager %s, the terminal shows %r" % (what, "ended" if os.path.exists(os.path.join(d, "end")) else "did not end before", shown[:300]))
        if args != want_args:
            bad("pager-arguments", "%s: the pager was called with %r, not %r" % (what, args, want_args))
        if less != (q["less"] or "-FRSXMQ"):
            bad("pager-less", "%s: LESS is %r" % (what, less))
    if argv[:2] == ["run", "output"]:
        if got != base.stdout:
            bad("output", "%s: %d bytes, %d to a pipe; %r" % (what, len(got), len(base.stdout), got[:200]))
        return
    counts["coloured"] += b"\x1b[" in got
    flat = plain(got)
    if argv[2:] in ([], ["--format", "pretty"]) and argv[0] in ("run", "job"):
        width = q["width"]
        if q["columns"] and q["columns"].isdigit():
            width = int(q["columns"])
        w = narrowed(base.stdout, width)
        counts["narrowed"] += w != narrowed(base.stdout, 1000)
        g = [x.rstrip() for x in flat.decode().split("\n")]
        if w != g:
            n = next((n for n in range(min(len(w), len(g))) if w[n] != g[n]), min(len(w), len(g)))
            bad("table", "%s: line %d of the table for %d columns is %r, expected %r" % (what, n, width, g[n:n + 1], w[n:n + 1]))
    elif flat != base.stdout:
        bad("text", "%s: %r, to a pipe %r" % (what, flat[:300], base.stdout[:300]))


SHELL = """
import json
json.dump({"jobs": {n: jobs[n].command for n in jobs}, "groups": sorted(concurrency_groups), "data_dir": config.data_dir, "runs": sorted(r.id for r in db.get_runs()), "running": sorted(r.id for r in db.get_runs(runs_running=True)), "version": dsari.__version__}, open("%s", "w"))
exit()
"""


def shell(item, root, conf, env, counts, bad):
    out = os.path.join(root, "shell-result")
    pre = "" if item["ipython"] else "import sys\nfor m in ('IPython', 'IPython.terminal', 'IPython.terminal.embed'):\n sys.modules[m] = None\n"
    e = dict(env, IPYTHONDIR=os.path.join(root, "home", "ipython"))
    r = subprocess.run([sys.executable, "-B", "-c", pre + CODE, "-c", conf, "shell"], env=e, cwd=root, input=(SHELL % out).encode(), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=200)
    what = "dsari-info shell %s IPython" % ("with" if item["ipython"] else "without")
    counts["shells"] += 1
    try:
        with open(out) as f:
            got = json.load(f)
    except (OSError, ValueError):
        bad("shell", "%s: the announced variables are not there: %r %r" % (what, r.stdout[-1200:], r.stderr[-1200:]))
        return
    text = r.stdout.decode("utf-8", "replace")
    jobs = gencfg.compiled_jobs(json.loads(json.dumps(item["cfg"]).replace("@ROOT@", root)))
    want = {"jobs": {n: jobs[n]["command"] for n in jobs}, "groups": sorted({g for j in jobs.values() for g in j["concurrency_groups"]}),
            "data_dir": os.path.join(root, "var"), "runs": sorted(x["run_id"] for x in item["done"]), "running": sorted(x["run_id"] for x in item["live"]),
            "version": got["version"]}
    for k in want:
        counts["variables"] += 1
        if want[k] != got[k]:
            bad("shell-" + k, "%s: %s is %r, expected %r" % (what, k, got[k], want[k]))
    for x in ("jobs", "concurrency_groups", "config", "db", "dsari"):
        if not re.search(r"^\s*%s: " % x, text, re.M):
            bad("shell-banner", "%s does not announce %s: %r" % (what, x, text[:600]))
