"""Scratch installation for demonstrations (copied next to each demo.sh)."""
import json
import os
import shutil
import signal
import sqlite3
import subprocess
import sys
import tempfile
import time

REPO = os.getcwd()
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


class Box:
    def __init__(self, **config):
        self.dir = tempfile.mkdtemp(prefix="dsari-demo-")
        self.etc = os.path.join(self.dir, "etc")
        self.var = os.path.join(self.dir, "var")
        os.mkdir(self.etc)
        os.mkdir(self.var)
        self.daemon = None
        self.config(**config)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self.daemon is not None and self.daemon.poll() is None:
            for pid in self.pids():
                self.kill(pid, signal.SIGKILL)
            self.daemon.kill()
            self.daemon.wait()
        shutil.rmtree(self.dir, ignore_errors=True)

    def kill(self, pid, signum):
        try:
            os.kill(pid, signum)
        except OSError:
            pass

    def pids(self):
        """The daemon's own children"""
        try:
            with open("/proc/{0}/task/{0}/children".format(self.daemon.pid)) as f:
                return [int(x) for x in f.read().split()]
        except OSError:
            return []

    def write(self, name, content):
        path = os.path.join(self.dir, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path + ".new", "w") as f:
            f.write(content)
        os.rename(path + ".new", path)
        return path

    def config(self, **config):
        config.setdefault("data_dir", self.var)
        self.write("etc/dsari.json", json.dumps(config))

    def environ(self, **env):
        out = {k: v for k, v in os.environ.items() if not k.startswith(("DSARI", "PYTHON"))}
        out.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", HOME=self.dir)
        out.update(env)
        return out

    def start(self, *args, **env):
        log = open(os.path.join(self.dir, "log"), "a")
        self.daemon = subprocess.Popen(
            [PY, "-m", "dsari.daemon", "-c", self.etc, "--debug", *args],
            stdin=subprocess.DEVNULL, stdout=log, stderr=log, env=self.environ(**env), cwd=self.dir)
        self.wait(lambda: "Scheduler running" in self.log(), 30)

    def log(self):
        with open(os.path.join(self.dir, "log")) as f:
            return f.read()

    def signal(self, signum):
        self.daemon.send_signal(signum)

    def stop(self, timeout=60):
        self.signal(signal.SIGTERM)
        return self.daemon.wait(timeout)

    def tool(self, name, *args, **env):
        return subprocess.run([PY, "-m", "dsari." + name, "-c", self.etc, *args], stdin=subprocess.DEVNULL,
                              stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=self.environ(**env), cwd=self.dir)

    def trigger(self, job, data="{}", ext="json", now=True):
        if not isinstance(data, str):
            data = json.dumps(data)
        self.write("var/trigger/{}/trigger.{}".format(job, ext), data)
        if now:
            self.signal(signal.SIGUSR1)

    def rows(self, table="runs"):
        path = os.path.join(self.var, "dsari.sqlite3")
        if not os.path.exists(path):
            return []
        conn = sqlite3.connect(path, timeout=20)
        conn.row_factory = sqlite3.Row
        try:
            return [dict(x) for x in conn.execute("SELECT * FROM " + table + " ORDER BY start_time")]
        except sqlite3.OperationalError:
            return []
        finally:
            conn.close()

    def running(self):
        return self.rows("runs_running")

    def insert(self, job, run_id, start, stop, exit_code=0, schedule=None):
        """A completed run in the history"""
        import dsari.config
        import dsari.database
        dsari.database.get_database(dsari.config.get_config(self.etc)).db_conn.close()
        conn = sqlite3.connect(os.path.join(self.var, "dsari.sqlite3"))
        conn.execute("INSERT INTO runs VALUES (?,?,?,?,?,?,?,?,?)",
                     (job, run_id, start if schedule is None else schedule, start, stop, exit_code, "schedule", "{}", "{}"))
        conn.commit()
        conn.close()

    def output(self, row):
        # the run may be recorded as started before its process opens the file
        path = os.path.join(self.var, "runs", row["job_name"], row["run_id"], "output.txt")
        self.wait(lambda: os.path.exists(path), 20)
        with open(path, errors="replace") as f:
            return f.read()

    def wait(self, cond, timeout=60, step=0.1):
        end = time.time() + timeout
        while True:
            v = cond()
            if v:
                return v
            if time.time() > end:
                return v
            time.sleep(step)


def check(ok, what):
    if not ok:
        print("FAILED: " + what)
        sys.exit(1)
    print("ok: " + what)
