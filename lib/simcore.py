"""A simulated OS world around the real dsari daemon.

install() replaces the os/time/signal/sqlite3 entry points by dispatchers *before* dsari is imported;
they pass through to the real ones unless a World is active (global W).  With a World active:

* time is virtual (lib/vclock.c, LD_PRELOADed; every clock read ticks a few microseconds);
* os.fork really forks; the child runs the real launch code up to execve, where its complete state is
  captured (payload) and the child ends; the parent gets a made-up pid whose process is simulated;
* os.wait4/waitpid/kill/killpg, time.sleep and signal.signal act on the simulated world;
* every such call is a "boundary" point: observers look at the committed database state there and
  faults (kill of the daemon, signals) can be injected there;
* everything that happens is recorded in the history, with virtual times.
"""
import errno
import heapq
import io
import json
import os
import pickle
import resource
import select
import signal
import sqlite3
import stat
import sys
import time
import traceback
import ctypes

W = None  # the active World

REAL = {}
NS = 1000000000


class SimAbort(BaseException):
    """The simulator gave up on this history (limits); not a statement about the code."""


class SimKilled(BaseException):
    """The daemon was ended by a signal with default disposition."""


class Clock:
    def __init__(self):
        path = os.environ["VCLOCK_SO"]
        lib = ctypes.CDLL(path)
        self._on = ctypes.c_int.in_dll(lib, "vclock_on")
        self._ns = ctypes.c_longlong.in_dll(lib, "vclock_ns")
        self._tick = ctypes.c_longlong.in_dll(lib, "vclock_tick")
        self._reads = ctypes.c_longlong.in_dll(lib, "vclock_reads")

    def start(self, epoch, tick_ns=3000):
        self._ns.value = int(epoch * NS)
        self._tick.value = tick_ns
        self._on.value = 1

    def stop(self):
        self._on.value = 0

    @property
    def ns(self):
        return self._ns.value

    def set_ns(self, v):
        self._ns.value = v

    @property
    def now(self):
        return self._ns.value / NS

    @property
    def reads(self):
        return self._reads.value


CLOCK = None


def clock():
    global CLOCK
    if CLOCK is None:
        CLOCK = Clock()
    return CLOCK


# ---------------------------------------------------------------------------------------------
# Containment: with a World active nothing outside the scratch directory may be written.
_AUDITED = {
    "os.remove": 0, "os.rename": 1, "os.rmdir": 0, "os.mkdir": 0, "os.link": 1, "os.symlink": 1,
    "os.truncate": 0, "os.chmod": 0, "os.chown": 0, "shutil.rmtree": 0, "os.utime": 0,
}
_FORBIDDEN = {"subprocess.Popen", "os.posix_spawn", "os.system", "os.exec", "os.killpg", "os.kill",
              "pty.spawn"}


GUARD = None  # a tool runs in this process: the directory it may write to


class _Guard:
    def __init__(self, root):
        self.root = os.path.realpath(root)

    def inside(self, path):
        return World.inside(self, path)

    def breach(self, event, path):
        sys.__stderr__.write("BREACH %s %s\n" % (event, path))
        raise PermissionError(errno.EPERM, "outside the sandbox: %s %s" % (event, path))


def _audit(event, args):
    w = W or GUARD
    if w is None or W is not None and w.trusted:
        return
    if event == "open":
        path, mode, flags = args
        if isinstance(path, int):
            return
        wr = False
        if isinstance(flags, int):
            wr = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
        if wr and not w.inside(path):
            w.breach(event, path)
    elif event in _AUDITED:
        for i in range(_AUDITED[event] + 1):
            if isinstance(args[i], (str, bytes)) and not w.inside(args[i]):
                w.breach(event, args[i])
    elif event in _FORBIDDEN:
        w.breach(event, repr(args)[:200])


_installed = False


class Proc:
    __slots__ = ("pid", "payload", "job", "run_id", "beh", "t0", "exited", "t_exit", "status",
                 "reaped", "n")

    def __init__(self, pid, payload):
        self.pid = pid
        self.payload = payload
        self.exited = False
        self.reaped = False
        self.t_exit = None
        self.status = None


class _Tap(io.StringIO):
    """Standard output and error of the daemon, with the times of what is written."""

    def write(self, s):
        if W is not None and not W.in_child and W.log is not None:
            W.log.append((W.clk.ns / NS, s))
        return super().write(s)


class _Conn(sqlite3.Connection):
    def cursor(self, factory=None):
        return super().cursor(factory or _Cur)

    def execute(self, *a):
        return self.cursor().execute(*a)

    def commit(self):
        if not self.in_transaction:
            return super().commit()
        if W is not None and not W.in_child:
            W.boundary("db.commit<")
        r = super().commit()
        if W is not None and not W.in_child:
            W.db_dirty = True
            W.boundary("db.commit>")
        return r

    def __exit__(self, *a):
        if W is not None and not W.in_child:
            W.boundary("db.commit<")
        r = super().__exit__(*a)
        if W is not None and not W.in_child:
            W.db_dirty = True
            W.boundary("db.commit>")
        return r


class _Cur(sqlite3.Cursor):
    def execute(self, sql, *a):
        if W is not None and not W.in_child:
            W.boundary("db.execute<")
        r = super().execute(sql, *a)
        if W is not None and not W.in_child:
            W.db_dirty = True
            W.boundary("db.execute>")
        return r


def install():
    global _installed
    if _installed:
        return
    _installed = True
    clock()
    for mod, names in (
        (os, ("fork", "wait4", "waitpid", "wait", "wait3", "kill", "killpg", "execve", "execv",
              "remove", "unlink", "rename", "replace", "mkdir", "getppid")),
        (time, ("sleep",)),
        (signal, ("signal", "getsignal", "raise_signal", "pause")),
        (sqlite3, ("connect",)),
    ):
        for n in names:
            REAL[mod.__name__ + "." + n] = getattr(mod, n)

    def dispatch(mod, name, simf):
        real = REAL[mod.__name__ + "." + name]

        def f(*a, **k):
            if W is None or W.trusted:
                return real(*a, **k)
            return simf(*a, **k)

        f.__name__ = name
        setattr(mod, name, f)

    dispatch(os, "fork", lambda: W.fork())
    dispatch(os, "wait4", lambda pid, options: W.wait4(pid, options))
    dispatch(os, "waitpid", lambda pid, options: W.wait4(pid, options)[:2])
    dispatch(os, "wait", lambda: W.wait4(-1, 0)[:2])
    dispatch(os, "wait3", lambda options: W.wait4(-1, options))
    dispatch(os, "kill", lambda pid, sig: W.kill(pid, sig))
    dispatch(os, "killpg", lambda pid, sig: W.kill(pid, sig))
    dispatch(os, "execve", lambda path, args, env: W.execve(path, args, env))
    dispatch(os, "execv", lambda path, args: W.execve(path, args, dict(os.environ)))
    for n in ("remove", "unlink"):
        dispatch(os, n, lambda path, *a, _r=REAL["os." + n], **k: W.fs("remove", _r, path, *a, **k))
    for n in ("rename", "replace"):
        dispatch(os, n, lambda path, *a, _r=REAL["os." + n], **k: W.fs("rename", _r, path, *a, **k))
    dispatch(os, "mkdir", lambda path, *a, **k: W.fs("mkdir", REAL["os.mkdir"], path, *a, **k))
    dispatch(time, "sleep", lambda d: W.sleep(d))
    dispatch(signal, "signal", lambda n, h: W.signal_(n, h))
    dispatch(signal, "getsignal", lambda n: W.table.get(int(n), signal.SIG_DFL))
    dispatch(signal, "raise_signal", lambda n: W.deliver(n))
    dispatch(signal, "pause", lambda: W.pause())

    def connect(*a, **k):
        if W is None or W.trusted or "factory" in k:
            return REAL["sqlite3.connect"](*a, **k)
        k["factory"] = _Conn
        return REAL["sqlite3.connect"](*a, **k)

    sqlite3.connect = connect
    # sets of functions that support dir_fd etc. are consulted by shutil/os helpers
    for s in (os.supports_dir_fd, os.supports_follow_symlinks):
        for n in ("remove", "unlink", "rename", "mkdir"):
            if REAL["os." + n] in s:
                s.add(getattr(os, n))
    sys.addaudithook(_audit)


class World:
    """One history of the daemon."""

    MAX_EVENTS = 200000

    def __init__(self, scn, root):
        self.scn = scn
        self.root = os.path.realpath(root)
        self.conf = os.path.join(root, "etc")
        self.data = (scn.get("data_dir") or "@ROOT@/var").replace("@ROOT@", root)
        self.hist = []
        self.heap = []
        self.seq = 0
        self.procs = {}
        self.order = []  # exited, unreaped pids in exit order
        self.live = 0
        self.unreaped = 0
        self.next_pid = scn.get("first_pid", 100001)
        self.table = {
            int(signal.SIGINT): signal.default_int_handler,
            int(signal.SIGPIPE): signal.SIG_IGN,
        }
        self.in_child = False
        self.trusted = False  # harness code is running: pass everything through
        self.breaches = []
        self.counts = {}
        self.nb = 0
        self.db_dirty = False
        self.obs = None
        self.last_db = None
        self.runs_list = []  # shared by the db events; each means a prefix of it
        self.runs_top = -1
        self.pending_trig = {}
        self.jobruns = {}
        self.t_limit = int((scn["start"] + scn["end"] + scn.get("slack", 7200)) * NS)
        self.crash_at = scn.get("crash_at")
        self.observe_every = scn.get("observe_every", False)
        self.profile = None
        self.daemon_gone = False
        self.last_sleep_ns = 0
        self.idle_boundaries = 0
        self.probe_n = 0
        self.clk = clock()
        self.payload_dir = os.path.join(root, "probe")
        self.no_db = scn.get("no_db", False)
        self.attempt = None
        self.log = [] if scn.get("record_log") else None
        self.bnames = [] if scn.get("record_boundaries") else None

    # -- bookkeeping -----------------------------------------------------------------------
    def rec(self, e, **k):
        k["e"] = e
        k["t"] = self.clk.ns / NS
        self.hist.append(k)
        if len(self.hist) > self.MAX_EVENTS:
            raise SimAbort("too many events")
        return k

    def inside(self, path):
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if path in ("/dev/null", "/dev/tty"):
            return True
        p = os.path.realpath(os.path.join(os.getcwd(), path))
        return p == self.root or p.startswith(self.root + "/")

    def breach(self, event, path):
        self.breaches.append((event, str(path)))
        raise PermissionError(errno.EPERM, "outside the sandbox: %s %s" % (event, path))

    def push(self, t, fn, *a):
        self.seq += 1
        heapq.heappush(self.heap, (int(t * NS) if isinstance(t, float) else t, self.seq, fn, a))

    def boundary(self, name):
        """Called at every simulated operation of the daemon."""
        self.nb += 1
        self.counts[name] = self.counts.get(name, 0) + 1
        if self.bnames is not None and (name not in ("sleep", "wait") or self.nb % 97 == 0):
            self.bnames.append((self.nb, name))
        if self.crash_at is not None and self.nb >= self.crash_at:
            self.rec("crash", at=name, n=self.nb)
            raise_crash(self)
        if self.observe_every or self.db_dirty:
            self.observe(name)
        self.idle_boundaries += 1
        if self.idle_boundaries > 4000:
            # looping without waiting: let it be slow, so that time goes on
            self.clk.set_ns(self.clk.ns + 300000)
            self.counts["spin-operations"] = self.counts.get("spin-operations", 0) + 1
        if self.idle_boundaries > 400000:
            if self.clk.ns - self.last_sleep_ns < 200 * NS:
                self.rec("spin")
                raise SimAbort("spin: no virtual progress in 400000 operations")
            self.idle_boundaries = 0
            self.last_sleep_ns = self.clk.ns
        if self.clk.ns > self.t_limit:
            self.rec("limit")
            raise SimAbort("virtual time limit")

    def observe(self, at):
        """Look at the committed database state through a second connection."""
        self.db_dirty = False
        if self.no_db:
            return
        path = self.scn.get("db_file") or os.path.join(self.data, "dsari.sqlite3")
        if self.obs is None:
            if not os.path.exists(path):
                return
            self.trusted = True
            try:
                self.obs = REAL["sqlite3.connect"](
                    "file:%s?mode=ro" % path.replace("%", "%25").replace("?", "%3f"), uri=True,
                    isolation_level=None, timeout=0.2)
            finally:
                self.trusted = False
        try:
            running = self.obs.execute("SELECT job_name, run_id FROM runs_running").fetchall()
            if self.runs_top is None:
                # rows without a number
                new = [(None,) + x for x in self.obs.execute("SELECT job_name, run_id FROM runs")]
                if [x[1:] for x in new] == self.runs_list:
                    new = []
                else:
                    self.runs_list = []
            else:
                new = self.obs.execute("SELECT rowid, job_name, run_id FROM runs WHERE rowid > ? ORDER BY rowid",
                                       (self.runs_top,)).fetchall()
                n = self.obs.execute("SELECT count(*) FROM runs").fetchone()[0]
                if n != len(self.runs_list) + len(new):
                    # not just added to
                    self.runs_list = []
                    new = self.obs.execute("SELECT rowid, job_name, run_id FROM runs ORDER BY rowid").fetchall()
        except sqlite3.OperationalError as e:
            if "no such table" in str(e):
                return
            if "no such column: rowid" in str(e) and self.runs_top is not None:
                self.runs_top = None
                return self.observe(at)
            self.rec("db-error", err=str(e), at=at)
            return
        self.counts["observations"] = self.counts.get("observations", 0) + 1
        if new:
            self.runs_top = new[-1][0]
            self.runs_list += [x[1:] for x in new]
        st = (sorted(running), id(self.runs_list), len(self.runs_list))
        if st != self.last_db:
            self.last_db = st
            self.rec("db", running=[list(x) for x in st[0]], runs_list=self.runs_list, runs_n=st[2], at=at)

    # -- time ------------------------------------------------------------------------------
    def run_due(self, target):
        """Run world events due up to target (ns), in order."""
        h = self.heap
        while h and h[0][0] <= target:
            t, _, fn, a = heapq.heappop(h)
            if t > self.clk.ns:
                self.clk.set_ns(t)
            self.idle_boundaries = 0
            fn(*a)

    def sleep(self, d):
        if self.in_child:
            child_escape("sleep")
        if d < 0:
            raise ValueError("sleep length must be non-negative")
        self.boundary("sleep")
        self.quiescent()
        target = self.clk.ns + int(d * NS)
        self.run_due(target)
        if target > self.clk.ns:
            self.clk.set_ns(target)
        if d > 0:
            self.last_sleep_ns = self.clk.ns
            self.idle_boundaries = 0

    def pause(self):
        n = len(self.hist)
        while not any(e["e"] == "sig" for e in self.hist[n:]):
            if not self.heap:
                raise SimAbort("pause forever")
            self.run_due(self.heap[0][0])

    def quiescent(self):
        if self.pending_trig:
            for p in list(self.pending_trig):
                if not os.path.exists(p):
                    self.trig_gone(p)

    # -- files -----------------------------------------------------------------------------
    def fs(self, op, real, path, *a, **k):
        if self.in_child:
            return real(path, *a, **k)
        self.boundary(op + "<")
        r = real(path, *a, **k)
        if op in ("remove", "rename") and self.pending_trig:
            self.quiescent()
        self.boundary(op + ">")
        return r

    def trig_gone(self, p):
        tr = self.pending_trig.pop(p)
        if self.profile is not None and not tr.get("by"):
            self.profile.marks.append((self.profile.n, tr["job"], tr["ext"], self.clk.ns))
        self.rec("consumed", tid=tr["tid"], job=tr["job"], ext=tr["ext"])

    def write_trigger(self, tr):
        self.trusted = True
        try:
            d = os.path.join(self.data, "trigger", tr["job"])
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "trigger." + tr["ext"])
            if p in self.pending_trig and os.path.exists(p):
                if tr.get("wait", True) and not self.daemon_gone and tr.get("tries", 0) < 400:
                    tr["tries"] = tr.get("tries", 0) + 1
                    self.push(self.clk.ns + NS, self.write_trigger, tr)
                    return
                old = self.pending_trig[p]
                self.rec("overwritten", tid=old["tid"], job=old["job"], ext=old["ext"])
            elif p in self.pending_trig:
                self.trig_gone(p)
            c = tr["content"]
            if isinstance(c, str):
                c = c.replace("@ROOT@", self.root)
            if isinstance(c, str):
                c = c.encode("utf-8", "surrogatepass")
            with open(p + ".new", "wb") as f:
                f.write(c)
            mt = tr["mtime_abs"] * NS if "mtime_abs" in tr else self.clk.ns + int(tr.get("mtime_off", 0) * NS)
            os.utime(p + ".new", ns=(mt, mt))
            os.rename(p + ".new", p)
            self.pending_trig[p] = tr
            self.rec("trigger", tid=tr["tid"], job=tr["job"], ext=tr["ext"], mtime=mt / NS,
                     meta=tr.get("meta"), by=tr.get("by"))
        finally:
            self.trusted = False

    def write_config(self, files, cid):
        """files: {relative path: text or None}"""
        self.trusted = True
        try:
            write_files(self.conf, files)
        finally:
            self.trusted = False
        self.rec("config", cid=cid)

    # -- processes -------------------------------------------------------------------------
    def fork(self):
        if self.in_child:
            child_escape("fork")
        self.db_dirty = True
        self.boundary("fork<")
        if self.scn.get("fork_fail") and self.counts["fork<"] in self.scn["fork_fail"]:
            self.rec("fork-fail")
            raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
        self.probe_n += 1
        path = os.path.join(self.payload_dir, "p%d" % self.probe_n)
        self.probe_path = path
        prof = sys.getprofile()
        if prof is not None:
            sys.setprofile(None)
        sys.stdout.flush()
        pid = REAL["os.fork"]()
        if pid == 0:
            self.in_child = True
            # a child that hangs must not hang the history
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            REAL["signal.signal"](signal.SIGVTALRM, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_VIRTUAL, 20)
            return 0
        _, st = REAL["os.waitpid"](pid, 0)
        if prof is not None:
            sys.setprofile(prof)
        payload = None
        self.trusted = True
        try:
            with open(path, "rb") as f:
                payload = pickle.load(f)
            os.unlink(path)
        except Exception as e:
            why = ""
            if os.path.exists(path + ".why"):
                with open(path + ".why") as f:
                    why = f.read()
            if why or isinstance(e, EOFError):
                with open(self.result_path, "wb") as f:
                    pickle.dump({"harness_error": "probe of a launch failed (%r, %r) %s" % (st, e, why)}, f)
                os._exit(1)
            payload = {"exc": "child left no payload (status %r, %r)" % (st, e), "status": 0x100}
        finally:
            self.trusted = False
        payload["real_status"] = st
        pid = self.next_pid
        self.next_pid += self.scn.get("pid_step", 1)
        self.spawn(pid, payload)
        self.boundary("fork>")
        return pid

    def spawn(self, pid, payload):
        p = Proc(pid, payload)
        p.t0 = self.clk.ns
        self.procs[pid] = p
        self.live += 1
        self.unreaped += 1
        env = payload.get("env") or {}
        p.job, p.run_id = env.get("JOB_NAME"), env.get("RUN_ID")
        # where its output goes identifies a run, even if its environment was made to lie
        parts = (payload.get("fds") or {}).get(1, "").split("/")
        if len(parts) > 4 and parts[-1] == "output.txt" and parts[-4] == "runs":
            p.job, p.run_id = parts[-3], parts[-2]
        p.n = self.jobruns.get(p.job, 0)
        self.jobruns[p.job] = p.n + 1
        behs = self.scn.get("behaviour", {}).get(p.job) or [{}]
        p.beh = behs[p.n % len(behs)]
        payload["bi"] = p.n % len(behs)
        self.db_dirty = True
        ev = self.rec("start", pid=pid, job=p.job, run=p.run_id, payload=payload)
        if "exc" in payload:
            self.push(self.clk.ns + 30 * 1000000, self.proc_exit, p, payload.get("status", 0x100))
        else:
            d = p.beh.get("dur", 1.0)
            if d is not None:
                self.push(self.clk.ns + int(d * NS), self.proc_exit, p, p.beh.get("status", 0))
            for tr in p.beh.get("triggers", ()):
                self.push(self.clk.ns + int(tr["at"] * NS), self.write_trigger,
                          dict(tr, tid="%s-%d" % (tr["tid"], p.n), by=p.run_id))
        return ev

    def proc_exit(self, p, status):
        if p.exited:
            return
        if "exc" not in p.payload:
            self.exit_actions(p)
        p.exited = True
        p.t_exit = self.clk.ns
        p.status = status
        self.live -= 1
        self.order.append(p.pid)
        self.rec("exit", pid=p.pid, job=p.job, run=p.run_id, status=status)

    def exit_actions(self, p):
        rd = p.beh.get("return_data")
        if not rd:
            return
        self.trusted = True
        try:
            d = p.payload["cwd0"] if p.payload.get("cwd0") else os.path.join(
                self.data, "runs", p.job, p.run_id)
            for fn, c in rd.items():
                if isinstance(c, list):
                    # a symbolic link to a file with these contents
                    os.symlink(fn + " target", os.path.join(d, fn))
                    if c[0] is None:
                        continue  # which is gone already
                    fn, c = fn + " target", c[0]
                if isinstance(c, str):
                    c = c.encode("utf-8", "surrogatepass")
                with open(os.path.join(d, fn), "wb") as f:
                    f.write(c)
        except OSError as e:
            self.rec("exit-action-error", err=str(e))
        finally:
            self.trusted = False

    def wait4(self, pid, options):
        if self.in_child:
            child_escape("wait")
        self.boundary("wait")
        self.quiescent()
        self.run_due(self.clk.ns)
        ru = _RU
        while True:
            for i, z in enumerate(self.order):
                if pid in (-1, 0) or pid == z or pid == -z:
                    del self.order[i]
                    p = self.procs[z]
                    p.reaped = True
                    self.unreaped -= 1
                    self.db_dirty = True
                    self.rec("reap", pid=z, job=p.job, run=p.run_id)
                    self.boundary("wait>")
                    return (z, p.status, ru)
            if pid > 0:
                alive = pid in self.procs and not self.procs[pid].reaped
            else:
                alive = self.unreaped > 0
            if not alive:
                raise ChildProcessError(errno.ECHILD, "No child processes")
            if options & os.WNOHANG:
                return (0, 0, ru)
            if not self.heap:
                self.rec("stuck-wait")
                raise SimAbort("blocking wait with no event left")
            self.run_due(self.heap[0][0])
            self.last_sleep_ns = self.clk.ns

    def kill(self, pid, sig):
        if self.in_child:
            child_escape("kill %r" % (pid,))
        sig = int(sig)
        self.boundary("kill")
        p = self.procs.get(abs(pid))
        if pid in (0, -1) or p is None:
            self.rec("kill", pid=pid, sig=sig, state="unknown", job=None, run=None)
            raise ProcessLookupError(errno.ESRCH, "No such process")
        state = "reaped" if p.reaped else "zombie" if p.exited else "live"
        if sig == 0:
            if state == "reaped":
                raise ProcessLookupError(errno.ESRCH, "No such process")
            return
        self.rec("kill", pid=pid, sig=sig, state=state, job=p.job, run=p.run_id)
        if state == "reaped":
            raise ProcessLookupError(errno.ESRCH, "No such process")
        if state == "zombie":
            return
        now = self.clk.ns
        if sig == signal.SIGKILL:
            self.push(now + int(p.beh.get("kill_delay", 0.005) * NS), self.proc_exit, p, 9)
        elif sig == signal.SIGTERM:
            t = p.beh.get("term", {"mode": "die"})
            if t["mode"] == "ignore":
                return
            st = 15 if t["mode"] == "die" else t["status"]
            self.push(now + int(t.get("delay", 0.005) * NS), self.proc_exit, p, st)
        else:
            self.push(now + 5000000, self.proc_exit, p, sig)

    # -- signals to the daemon -----------------------------------------------------------------
    def signal_(self, n, h):
        n = int(n)
        if n in (signal.SIGKILL, signal.SIGSTOP):
            raise OSError(errno.EINVAL, "Invalid argument")
        old = self.table.get(n, signal.SIG_DFL)
        self.table[n] = h
        return old

    def deliver(self, sig):
        sig = int(sig)
        if self.daemon_gone:
            return
        self.rec("sig", sig=sig)
        h = self.table.get(sig, signal.SIG_DFL)
        if h is None or h == signal.SIG_IGN:
            return
        if h == signal.SIG_DFL:
            if sig in (signal.SIGCHLD, signal.SIGCONT, signal.SIGURG, signal.SIGWINCH):
                return
            self.rec("daemon-killed", sig=sig)
            raise SimKilled(sig)
        h(sig, sys._getframe())

    # -- exec in the child ----------------------------------------------------------------------
    def execve(self, path, args, env):
        if not self.in_child:
            self.breach("exec in the daemon itself", path)
        path_ = os.fsdecode(path)
        try:
            self.attempt = {"argv": [os.fsdecode(a) for a in args], "path": path_,
                            "env": {os.fsdecode(k): os.fsdecode(v) for k, v in env.items()}}
        except Exception:
            pass
        # what the kernel and CPython would do
        try:
            st = os.stat(path_)
        except OSError as e:
            raise type(e)(e.errno, e.strerror, path_)
        if stat.S_ISDIR(st.st_mode) or not (st.st_mode & 0o111):
            raise PermissionError(errno.EACCES, "Permission denied", path_)
        args = [os.fsdecode(a) for a in args]
        if not args:
            raise ValueError("execve: argv must not be empty")
        for a in [path_] + args:
            if "\0" in a:
                raise ValueError("embedded null byte")
            os.fsencode(a)
        envd = {}
        for k, v in env.items():
            k, v = os.fsdecode(k), os.fsdecode(v)
            os.fsencode(k), os.fsencode(v)
            if "=" in k[1:] or not k or k.startswith("="):
                raise ValueError("illegal environment variable name")
            if "\0" in k or "\0" in v:
                raise ValueError("embedded null byte")
            envd[k] = v
        self.trusted = True
        fds = {}
        for fd in os.listdir("/proc/self/fd"):
            try:
                fds[int(fd)] = (os.readlink("/proc/self/fd/" + fd), os.get_inheritable(int(fd)))
            except OSError:
                pass
        payload = {
            "path": path_, "argv": args, "env": envd, "cwd": os.getcwd(),
            "sigs": {n: ("dfl" if h == signal.SIG_DFL else "ign" if h == signal.SIG_IGN else "fn")
                     for n, h in self.table.items()},
            "fds": {k: v[0] for k, v in fds.items()},
            # descriptors that survive exec
            "open": {k: v[0] for k, v in fds.items() if v[1] and k > 2},
            "pgrp_own": os.getpgrp() == os.getpid(),
            "t_exec": self.clk.ns / NS,
        }
        job = envd.get("JOB_NAME")
        parts = payload["fds"].get(1, "").split("/")
        if len(parts) > 4 and parts[-1] == "output.txt" and parts[-4] == "runs":
            job = parts[-3]
        behs = self.scn.get("behaviour", {}).get(job) or [{}]
        beh = behs[self.jobruns.get(job, 0) % len(behs)]
        try:
            for fd, txt in beh.get("output", ()):
                b = txt.encode("utf-8", "surrogateescape")
                while b:
                    b = b[os.write(fd, b):]
            payload["stdin_empty"] = os.read(0, 10) == b""
        except OSError as e:
            payload["io_error"] = str(e)
        child_end(payload)


_RU = resource.getrusage(resource.RUSAGE_CHILDREN)


def child_end(payload):
    w = W
    w.trusted = True
    if "exc" in payload and w.attempt:
        payload.update(w.attempt)
    if w.breaches:
        payload["breaches"] = w.breaches
    try:
        with open(w.probe_path, "wb") as f:
            pickle.dump(payload, f)
    except BaseException:
        with open(w.probe_path + ".why", "w") as f:
            traceback.print_exc(file=f)
    finally:
        os._exit(0)


def child_escape(what):
    child_end({"exc": "the child ran on into the daemon's loop: %s" % what, "status": 0x100,
               "escape": True})


class _Crash(BaseException):
    pass


def raise_crash(w):
    """The daemon is killed here and now: no cleanup of any kind happens in this process."""
    finish(w, {"kind": "crash"})


def write_files(base, files):
    """base is <root>/etc; @ROOT@ in the texts stands for the root."""
    os.makedirs(base, exist_ok=True)
    for rel, text in files.items():
        p = os.path.join(base, rel)
        if text is None:
            if os.path.exists(p):
                os.unlink(p)
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(text, str):
            text = text.encode("utf-8", "surrogatepass")
        text = text.replace(b"@ROOT@", os.fsencode(os.path.dirname(base)))
        with open(p + ".tmp~", "wb") as f:
            f.write(text)
        os.rename(p + ".tmp~", p)


def read_db(path):
    out = {"runs": None, "running": None, "error": None}
    if not os.path.exists(path):
        return out
    try:
        c = REAL["sqlite3.connect"](path, timeout=1)
        c.row_factory = sqlite3.Row
        out["integrity"] = c.execute("PRAGMA integrity_check").fetchone()[0]
        out["runs"] = [dict(r) for r in c.execute("SELECT rowid, * FROM runs ORDER BY rowid")]
        out["running"] = [dict(r) for r in c.execute("SELECT rowid, * FROM runs_running ORDER BY rowid")]
        c.close()
    except sqlite3.Error as e:
        out["error"] = repr(e)
    return out


def finish(w, how):
    """Ends the history: writes the result and leaves the process without any cleanup."""
    signal.setitimer(signal.ITIMER_PROF, 0)
    sys.setprofile(None)
    w.trusted = True
    w.daemon_gone = True
    how["t"] = w.clk.ns / NS
    clock().stop()
    res = {"hist": w.hist, "exit": how, "counts": w.counts, "breaches": w.breaches,
           "nb": w.nb, "log": w.log, "bnames": w.bnames, "reads": w.clk.reads, "live_at_exit": [p.run_id for p in w.procs.values()
                                                            if not p.exited],
           "unreaped_at_exit": [p.run_id for p in w.procs.values() if not p.reaped],
           "pending_triggers": [t["tid"] for t in w.pending_trig.values()]}
    try:
        res["stderr"] = w.stderr.getvalue()[-20000:]
    except Exception:
        res["stderr"] = ""
    if how["kind"] != "crash":
        db = w.scn.get("db_file") or os.path.join(w.data, "dsari.sqlite3")
        res["db"] = read_db(db)
        outs = {}
        for e in w.hist:
            if e["e"] == "start":
                p = os.path.join(w.data, "runs", str(e["job"]), str(e["run"]), "output.txt")
                try:
                    with open(p, "rb") as f:
                        outs[e["run"]] = f.read(65536)
                except OSError:
                    outs[e["run"]] = None
        res["outputs"] = outs
        res["trigger_files"] = []
        for d, _, fs in os.walk(os.path.join(w.data, "trigger")):
            for f in fs:
                res["trigger_files"].append(os.path.relpath(os.path.join(d, f), w.data))
    with open(w.result_path, "wb") as f:
        pickle.dump(res, f)
    os._exit(0)


def run_history(scn, root, result_path, entry):
    """Runs one history in the current (forked, throw-away) process; never returns."""
    global W
    os.makedirs(os.path.join(root, "probe"), exist_ok=True)
    for x in scn.get("mkdirs", ()):
        os.makedirs(x.replace("@ROOT@", root), exist_ok=True)
    if scn.get("uid"):
        become(scn["uid"], root)
    write_files(os.path.join(root, "etc"), scn["config_files"])
    import random

    random.seed(scn.get("seed", 0))
    os.environ["TZ"] = scn.get("tz", "UTC")
    time.tzset()
    for k in ("LD_PRELOAD", "VCLOCK_SO"):
        os.environ.pop(k, None)
    for k, v in scn.get("environ", {}).items():
        if v is None:
            os.environ.pop(k, None)
        else:
            os.environ[k] = v
    w = World(scn, root)
    w.result_path = result_path
    w.stderr = _Tap()
    sys.stderr = w.stderr
    sys.stdout = _Tap()
    sys.argv = ["dsari-daemon", "-c", w.conf] + scn.get("args", [])
    w.clk.start(scn["start"], scn.get("tick_ns", 3000))
    t0 = scn["start"]
    for ev in scn.get("events", ()):
        t = int((t0 + ev["t"]) * NS)
        op = ev["op"]
        if op == "signal":
            w.push(t, w.deliver, ev["sig"])
        elif op == "trigger":
            w.push(t, w.write_trigger, dict(ev))
        elif op == "config":
            w.push(t, w.write_config, ev["files"], ev["cid"])
        else:
            raise ValueError(op)
    if scn.get("precreate_triggers"):
        W = w
        for ev in scn["precreate_triggers"]:
            w.write_trigger(dict(ev))

    def on_cpu(signum, frame):
        if W is not None and W.in_child:
            os._exit(98)
        cpu[0] += 8
        st = (w.last_sleep_ns, len(w.hist))
        if st == cpu[1]:
            # many times what a whole history takes, without waiting for anything in between
            w.rec("spin")
            raise SimAbort("spin: 8 seconds of processor time without any wait or event")
        cpu[1] = st
        if cpu[0] >= scn.get("cpu_limit", 60):
            w.rec("cpu-limit")
            raise SimAbort("cpu limit")

    cpu = [0, None]
    REAL["signal.signal"](signal.SIGPROF, on_cpu)
    signal.setitimer(signal.ITIMER_PROF, 8, 8)
    W = w
    how = None
    if scn.get("inject"):
        import inject

        w.profile = inject.Injector(w, scn["inject"])
        w.profile.start()
    w.rec("daemon-start")
    try:
        try:
            r = entry()
            how = {"kind": "return", "value": repr(r)}
        except SystemExit as e:
            how = {"kind": "exit", "value": repr(e.code)}
        except SimAbort as e:
            how = {"kind": "abort", "why": str(e)}
        except SimKilled as e:
            how = {"kind": "killed", "sig": e.args[0]}
        except BaseException as e:
            sys.setprofile(None)
            how = {"kind": "exc", "exc": type(e).__name__, "why": str(e)[:500],
                   "tb": traceback.format_exc()[-4000:]}
    finally:
        sys.setprofile(None)
        if w.profile is not None:
            w.profile.stop()
        if w.in_child:
            # the child unwound: Python would have printed the traceback and exited with 1
            code = 1 if how and how["kind"] in ("exc", "abort", "killed") else 0
            if how and how["kind"] == "return" and how["value"] not in ("None", "0"):
                code = 1
            child_end({"exc": (how or {}).get("tb") or repr(how), "status": code << 8,
                       "launch_failed": True})
    w.profile_sites = None
    if w.profile is not None:
        how["sites"] = w.profile.report()
    # the daemon is gone; let the world finish what it had scheduled for its processes? no: record only
    w.rec("daemon-exit", kind=how["kind"])
    finish(w, how)


def become(uid, root):
    """Drop to an unprivileged user who owns root."""
    for d, _, fs in os.walk(root):
        for x in [d] + [os.path.join(d, f) for f in fs]:
            os.chown(x, uid, uid)
    os.setgroups([])
    os.setresgid(uid, uid, uid)
    os.setresuid(uid, uid, uid)
    ctypes.CDLL(None).prctl(4, 1, 0, 0, 0)  # PR_SET_DUMPABLE: /proc/self stays readable


def fork_history(scn, root, entry, result_path=None, timeout=None):
    """Runs a history in a fresh forked process and returns its result."""
    result_path = result_path or os.path.join(root, "result.pickle")
    os.makedirs(root, exist_ok=True)
    pid = REAL["os.fork"]()
    if pid == 0:
        try:
            run_history(scn, root, result_path, entry)
        except BaseException:
            try:
                with open(result_path, "wb") as f:
                    pickle.dump({"harness_error": traceback.format_exc()}, f)
            finally:
                os._exit(1)
        os._exit(1)
    _, st = REAL["os.waitpid"](pid, 0)
    try:
        with open(result_path, "rb") as f:
            res = pickle.load(f)
        os.unlink(result_path)
    except Exception as e:
        res = {"harness_error": "no result: status %r %r" % (st, e)}
    return res
