"""Offline trace checker: judges a recorded history of the daemon against its specification.

For every job a nondeterministic reference automaton follows the history: a set of "worlds", each the
configuration in effect plus the multiset of runs that ought to be pending.  An observed start must be
explained by at least one world; a world dies if something it expects does not happen in time.  What
the automaton knows comes from the configuration files written, the signals sent, the triggers placed
and the process events - nothing from the code under test.
"""
import math
import signal

import cronref

HUP_W = 3.0       # a reload takes effect within this time
LATE = 5.0        # an unobstructed due run starts within this time
RETRY = 306.0     # an obstructed one within this time without obstacles
TRIG = 65.0       # a trigger is consumed within this time
EPS = 2e-3
USEC = 3e-6

ALL = ("S01", "S02", "S03", "S04", "S05", "S06", "S07", "S08", "T01", "T02", "T03", "T04", "T05",
       "R01", "R02", "R03", "E01", "E02", "E03")


class Sched:
    __slots__ = ("r0", "r1", "avail")
    kind = "sched"
    tid = None

    def __init__(self, r0, r1, avail=None):
        self.r0, self.r1 = r0, r1
        self.avail = r1 if avail is None else avail

    def key(self):
        return ("s", self.r0, self.r1)


class Trig:
    __slots__ = ("tid", "due", "avail", "respawn", "bare", "wild")
    kind = "file"

    def __init__(self, tid, due, avail, respawn, bare=False, wild=False):
        self.tid, self.due, self.avail, self.respawn, self.bare = tid, due, avail, respawn, bare
        self.wild = wild  # nothing is known about what it asks for, if anything

    def key(self):
        return ("t", self.tid, self.respawn)


class World:
    __slots__ = ("cid", "pend", "hup")

    def __init__(self, cid, pend, hup=None):
        self.cid, self.pend, self.hup = cid, tuple(pend), hup

    def key(self):
        return (self.cid, self.hup, tuple(sorted(p.key() for p in self.pend)))


class Run:
    __slots__ = ("pid", "job", "id", "t", "exit", "reap", "status", "payload", "cids", "group",
                 "kills", "env", "n", "tid", "ttype", "st", "start", "failed")


class Checker:
    def __init__(self, scn, res):
        self.scn, self.res = scn, res
        self.cfgs = scn["model"]
        self.hist = res["hist"]
        self.issues = []
        self.counts = {}
        self.t0 = scn["start"]
        self.now = self.t0
        self.shutdown = None
        self.injected = bool((scn.get("inject") or {}).get("sigs"))
        self._cron = {}
        self._busy = {}
        self._due = {}
        self.untracked = set()
        self.secs, self.frac = {}, {}
        self.prepare()

    def issue(self, labels, key, what, **k):
        if isinstance(labels, str):
            labels = labels.split()
        self.issues.append(dict(k, labels=tuple(labels), key=key, what=what, at=self.now - self.t0))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    # -- preparation -----------------------------------------------------------------------
    def prepare(self):
        """Collect runs and configuration periods."""
        self.runs = []
        self.by_pid = {}
        self.hups = []
        cid = self.scn["cid0"]
        disk = cid
        self.disk_at_hup = []
        for e in self.hist:
            k = e["e"]
            if k == "config":
                disk = e["cid"]
            elif k == "sig" and e["sig"] == signal.SIGHUP:
                self.hups.append((e["t"], disk))
            elif k == "start":
                r = Run()
                p = e["payload"]
                r.pid, r.job, r.id, r.t, r.payload = e["pid"], e["job"], e["run"], e["t"], p
                r.exit = r.reap = r.status = None
                r.kills = []
                r.env = p.get("env") or {}
                r.group = r.env.get("CONCURRENCY_GROUP")
                r.failed = "exc" in p
                r.ttype = r.env.get("TRIGGER_TYPE")
                r.tid = r.env.get("VP_TID") if r.ttype == "file" else None
                try:
                    r.st = float(r.env["SCHEDULE_TIME"])
                    r.start = float(r.env["START_TIME"])
                except (KeyError, ValueError):
                    r.st = r.start = None
                r.n = len(self.runs)
                self.runs.append(r)
                self.by_pid[r.pid] = r
                if r.ttype == "schedule" and r.st is not None:
                    s = math.floor(r.st + USEC)
                    self.secs.setdefault(r.job, set()).add(s % 60)
                    self.frac.setdefault(r.job, []).append(r.st - s)
            elif k == "exit":
                r = self.by_pid.get(e["pid"])
                if r:
                    r.exit, r.status = e["t"], e["status"]
            elif k == "reap":
                r = self.by_pid.get(e["pid"])
                if r:
                    r.reap = e["t"]
            elif k == "kill":
                r = self.by_pid.get(e["pid"])
                if r:
                    r.kills.append(e)
        self.t_end = self.hist[-1]["t"] if self.hist else self.t0

    def cfg(self, cid):
        return self.cfgs[cid]

    def effective(self, t):
        """Ids of the configurations possibly in effect at t."""
        out = [self.scn["cid0"]]
        for th, disk in self.hups:
            if th > t:
                break
            if self.cfgs[disk].get("broken"):
                continue
            if t > th + HUP_W:
                out = [disk]
            else:
                out = out + [disk]
        return list(dict.fromkeys(out))

    def cron(self, cid, name):
        k = (cid, name)
        if k not in self._cron:
            j = self.cfgs[cid]["jobs"][name]
            c = None
            if j.get("sched"):
                expr = j["cron"]
                hashed = len(expr.split(" ")) == 5
                if hashed:
                    # the hashed second: whatever it is, it must be the same always
                    s = self.secs.get(name)
                    expr += " %d" % (min(s) if s else 59)
                c = cronref.Cron(expr, j.get("tz") or self.scn.get("tz", "UTC"))
                c.hashed = hashed
            self._cron[k] = c
        return self._cron[k]

    def off(self, name):
        f = self.frac.get(name)
        return min(f) if f else 1.0

    # -- obstruction -----------------------------------------------------------------------
    def busy(self, cid, name, skip=None):
        """Merged intervals in which a run of this job would be obstructed."""
        k = (cid, name)
        if k in self._busy:
            return self._busy[k]
        cfg = self.cfgs[cid]
        j = cfg["jobs"][name]
        iv = []
        why = []
        if not j.get("concurrent"):
            own = [(r.t - 1.0, (r.exit if r.exit is not None else 1e18) + 2.0)
                   for r in self.runs if r.job == name]
            iv += own
        if j.get("groups"):
            full = None
            for g in sorted(set(j["groups"])):
                f = self.full(cid, g)
                full = f if full is None else intersect(full, f)
            iv += full
        self._busy[k] = merge(iv)
        return self._busy[k]

    def full(self, cid, g):
        mx = self.cfgs[cid].get("groups", {}).get(g, 1)
        if mx <= 0:
            return [(-1e18, 1e18)]
        pts = []
        for r in self.runs:
            if r.group == g:
                pts.append((r.t - 1.0, 0, 1))
                pts.append(((r.exit if r.exit is not None else 1e18) + 2.0, 1, -1))
        pts.sort()
        out, n, since = [], 0, None
        for t, _, d in pts:
            n += d
            if n >= mx and since is None:
                since = t
            elif n < mx and since is not None:
                out.append((since, t))
                since = None
        if since is not None:
            out.append((since, 1e18))
        return out

    # -- main pass ---------------------------------------------------------------------------
    def check(self):
        ex = self.res.get("exit", {})
        cid = self.scn["cid0"]
        self.worlds = {}
        names = set()
        for c in self.cfgs.values():
            names.update(c.get("jobs", {}))
        self.names = names
        for n in names:
            self.worlds[n] = [self.reset_world(cid, n, self.t0, self.t0 + HUP_W)]
        self.created = {}
        self.metas = {e["tid"]: e.get("meta") for e in self.hist if e["e"] == "trigger"}
        self.consumed_t = {}
        self.started_tids = {}
        self.last_usr1 = None
        self.usr1s = [e["t"] for e in self.hist if e["e"] == "sig" and e["sig"] == signal.SIGUSR1]
        self.trig_start = {}
        self.all_tids = {e["tid"] for e in self.hist if e["e"] == "trigger"}
        for e in self.hist:
            self.now = e["t"]
            self.advance(e["t"])
            f = getattr(self, "on_" + e["e"].replace("-", "_"), None)
            if f:
                f(e)
        kind = ex.get("kind")
        if kind == "exc":
            self.issue(ALL, "daemon-crash", "the daemon ended with an exception: %s" % ex.get("tb", "")[-1500:])
        elif kind == "exit":
            self.issue(ALL, "daemon-exit", "the daemon ended by itself: %s" % ex.get("value"))
        elif kind == "killed":
            self.issue(ALL, "daemon-killed", "a signal (%s) ended the daemon" % ex.get("sig"))
        elif kind == "return" and self.shutdown is None:
            self.issue(ALL, "daemon-exit", "the daemon ended without a shutdown request")
        elif kind == "abort":
            if "spin" in ex["why"]:
                self.issue(ALL, "daemon-spin", "the daemon loops without waiting: %s" % ex["why"])
            elif self.shutdown is not None and "limit" in ex["why"] and "virtual" in ex["why"]:
                last = max([r.reap or r.exit or 1e18 for r in self.runs if r.t] or [self.shutdown])
                if last < self.t_end - 100:
                    self.issue("S06 S08", "no-exit", "all runs have ended, but the daemon does not exit")
            elif "too many" in ex["why"] or "blocking" in ex["why"]:
                self.issue(ALL, "daemon-runaway", ex["why"])
        if self.res.get("breaches"):
            self.issue(ALL, "outside", "the daemon acted outside its directories: %r" % self.res["breaches"][:3])
        self.check_fraction()
        self.check_kills()
        self.check_shutdown()
        self.check_triggers_end()
        self.check_db()
        return self.issues

    def on_daemon_start(self, e):
        pass

    def reset_world(self, cid, name, r0, r1):
        j = self.cfgs[cid].get("jobs", {}).get(name)
        if j is None or not j.get("sched"):
            return World(cid, ())
        return World(cid, (Sched(r0, r1),))

    def closure(self, name, t):
        """Add what the worlds may have silently become by now; drop what is overdue to change."""
        out, seen = [], set()

        def add(w):
            k = w.key()
            if k not in seen:
                seen.add(k)
                out.append(w)

        for w in self.worlds[name]:
            if w.hup:
                h0, h1, ncid = w.hup
                if t <= h1:
                    add(w)
                if ncid is not None:
                    add(self.reset_world(ncid, name, h0, h1))
                else:
                    # what cannot be loaded changes nothing
                    add(World(w.cid, w.pend))
            else:
                add(w)
        self.worlds[name] = out
        if len(out) > 400:
            self.worlds[name] = None
            self.count("untracked-explosion")

    def advance(self, t):
        for n in self.names:
            ws = self.worlds[n]
            if not ws:
                continue
            if any(w.hup and t > w.hup[1] for w in ws):
                self.closure(n, t)
                ws = self.worlds[n]
                if not ws:
                    continue
            alive, reasons = [], []
            for w in ws:
                r = self.overdue(w, n, t)
                if r:
                    reasons.append(r)
                else:
                    alive.append(w)
            if not alive:
                labels = sorted(set(x for r in reasons for x in r[0]))
                self.fail(n, labels, reasons[0][1], reasons[0][2])
            elif len(alive) < len(ws):
                self.worlds[n] = alive

    def fail(self, name, labels, key, what):
        self.issue(labels, key, "job %r: %s" % (name, what))
        self.worlds[name] = None

    def due(self, w, name, p):
        """(earliest, latest) time at which this pending run is due; None if it never is."""
        if p.kind == "file":
            return None if p.wild else (p.due, p.due)
        c = self.cron(w.cid, name)
        if c.hashed and name not in self.secs:
            # which second is not known: be content with the latest
            expr = self.cfgs[w.cid]["jobs"][name]["cron"]
            k = (expr, c.tz.key, p.r0, p.r1)
            if k not in self._due:
                cs = [cronref.Cron("%s %d" % (expr, x), c.tz) for x in range(60)]
                a = [x.next(p.r0) for x in cs]
                b = [x.next(p.r1) for x in cs]
                self._due[k] = None if None in a + b else (min(a), max(b) + 1.0)
            return self._due[k]
        a = c.next(p.r0)
        b = c.next(p.r1)
        if b is None:
            return None
        return a, b + self.off(name)

    def overdue(self, w, name, t):
        if w.hup or not w.pend or self.shutdown is not None:
            return None
        cfg = self.cfgs[w.cid]
        if name not in cfg.get("jobs", {}):
            return None
        j = cfg["jobs"][name]
        for p in w.pend:
            d = self.due(w, name, p)
            if d is None:
                continue
            lo, hi = d
            avail = max(hi, p.avail)
            if t <= avail + LATE:
                continue
            b = self.busy(w.cid, name)
            first = min(lo, avail) if p.kind == "sched" else avail
            free = not any(s < avail + 3 and e > first - 1 for s, e in b)
            if not free and t <= avail + RETRY:
                continue
            label = ["S03"] if p.kind == "sched" else ["T03", "T01"]
            if p.kind == "file" and w.cid is not None and j.get("sched"):
                label.append("T02")
            if p.kind == "sched" and any(x.ttype == "file" and x.job == name and x.t <= t for x in self.runs):
                # the schedule is to go on after triggered runs
                label.append("T02")
            extra = []
            if cfg.get("groups") or any(x.get("groups") for x in cfg["jobs"].values()):
                extra.append("S02")
            if j.get("concurrent"):
                extra.append("S01")
            if any(r.t < avail + 3 and (r.exit or 1e18) > first - 60 for r in self.runs):
                extra.append("S04")
            if self.hups:
                extra.append("S07")
            if free:
                return (label + extra, "late-start", "%s due at +%.3f (available at +%.3f) was not "
                        "started by +%.3f although nothing was in its way" % (
                            self.desc(p), hi - self.t0, avail - self.t0, t - self.t0))
            if t > avail + RETRY:
                # (intervals begin 1 s before the runs; the run that starts now is not an obstacle)
                last = max([avail] + [min(e, t) for s, e in b if s < t - 1.0 - EPS])
                if t - last > RETRY:
                    return (["S04"] + extra, "lost-run", "%s due at +%.3f is still not started at +%.3f, "
                            "with no obstacle since +%.3f" % (
                                self.desc(p), hi - self.t0, t - self.t0, last - self.t0))
        return None

    def desc(self, p):
        if p.kind == "file":
            return "triggered run %s" % p.tid
        return "scheduled run (first occurrence after +%.6f%s)" % (
            p.r0 - self.t0, "" if p.r1 == p.r0 else "..+%.3f" % (p.r1 - self.t0))

    # -- events ------------------------------------------------------------------------------
    def on_sig(self, e):
        s, t = e["sig"], e["t"]
        if s == signal.SIGHUP:
            if self.shutdown is not None:
                return
            disk = [d for th, d in self.hups if th == t][0]
            ncid = None if self.cfgs[disk].get("broken") else disk
            self.count("reloads")
            if ncid is None:
                self.count("broken-reloads")
            for n in self.names:
                if self.worlds[n] is None:
                    continue
                self.closure(n, t)
                if self.worlds[n] is None:
                    continue
                out = []
                for w in self.worlds[n]:
                    if w.hup:
                        # another reload while one is under way
                        out.append(World(w.cid, w.pend, (w.hup[0], t + HUP_W, ncid or w.hup[2])))
                    else:
                        out.append(World(w.cid, w.pend, (t, t + HUP_W, ncid)))
                self.worlds[n] = out
        elif s in (signal.SIGTERM, signal.SIGINT):
            if self.shutdown is None:
                self.shutdown = t
                self.shutdown_cids = self.effective(t)
                self.count("shutdown-with-%s-running" % ("none" if not self.live(t) else "some"))
        elif s == signal.SIGUSR1:
            self.count("usr1")

    def live(self, t):
        return [r for r in self.runs if r.t <= t and (r.exit is None or r.exit > t)]

    def on_trigger(self, e):
        self.created[e["tid"]] = e

    def on_overwritten(self, e):
        self.created.pop(e["tid"], None)

    def on_consumed(self, e):
        tid, name, t = e["tid"], e["job"], e["t"]
        self.count("triggers-consumed")
        c = self.created.pop(tid, None)
        self.consumed_t[tid] = t
        meta = (c or {}).get("meta") or {"ok": None}
        if c is not None:
            self.latency(c, t)
            # JSON first
            if e["ext"] == "yaml":
                for o in self.created.values():
                    if o["job"] == name and o["ext"] == "json" and o["t"] < t - 2.0:
                        if self.configured(name, o["t"], t):
                            self.issue("T01", "yaml-first", "job %r: trigger.yaml was taken while trigger.json, "
                                       "there since +%.3f, was not" % (name, o["t"] - self.t0))
        if self.shutdown is not None and not self.injected and t > self.shutdown + EPS:
            self.issue("S06", "consumed-after-shutdown", "job %r: a trigger was taken %.3f s after the shutdown "
                       "request" % (name, t - self.shutdown))
        if self.worlds.get(name) is None:
            return
        self.closure(name, t)
        out = []
        for w in self.worlds[name] or ():
            j = self.cfgs[w.cid].get("jobs", {}).get(name)
            if j is None:
                out.append(w)
                continue
            ok = meta.get("ok")
            if ok is None or ok is False:
                out.append(w)
            if ok is None or ok:
                due = meta.get("due")
                if due is None:
                    due = c["mtime"] if c else t
                if j.get("concurrent"):
                    p = Trig(tid, due, t, False, meta.get("bare"), meta.get("wild"))
                    out.append(World(w.cid, w.pend + (p,), w.hup))
                else:
                    rs = any(p.kind == "sched" or p.respawn for p in w.pend)
                    p = Trig(tid, due, t, rs, meta.get("bare"), meta.get("wild"))
                    out.append(World(w.cid, (p,), w.hup))
                    if w.pend:
                        self.count("replacements")
        # a reload right after may have discarded it
        for w in list(out):
            if w.hup:
                if w.hup[2] is not None:
                    out.append(self.reset_world(w.hup[2], name, w.hup[0], w.hup[1]))
        self.worlds[name] = out
        self.closure(name, t)

    def configured(self, name, a, b):
        """The job is configured throughout [a, b] in any reading."""
        cids = set(self.effective(a - HUP_W - 0.1)) | set(self.effective(a)) | set(self.effective(b))
        for th, d in self.hups:
            if a <= th <= b and not self.cfgs[d].get("broken"):
                cids.add(d)
        return all(name in self.cfgs[c].get("jobs", {}) for c in cids)

    def latency(self, c, t):
        """A trigger created as c went at t (or is still there at t)."""
        name, t0 = c["job"], c["t"]
        if self.shutdown is not None:
            t = min(t, self.shutdown)
        t0 = max(t0, self.trig_start.get((name, c["ext"]), 0))
        if t <= t0 or not self.configured(name, t0, t):
            return
        # the other file goes first
        if c["ext"] == "yaml":
            for o in self.hist:
                if o["e"] == "consumed" and o["job"] == name and o["ext"] == "json" and t0 <= o["t"] <= t:
                    t0 = o["t"]
            for o in self.created.values():
                if o["job"] == name and o["ext"] == "json":
                    return
        self.counts["max-trigger-latency-ms"] = max(self.counts.get("max-trigger-latency-ms", 0),
                                                    int((t - t0) * 1000))
        lab = "T04 T01"
        if t - t0 > TRIG:
            self.issue(lab, "trigger-latency", "job %r: a trigger there since +%.3f was not taken within %.1f s "
                       "(until +%.3f)" % (name, t0 - self.t0, TRIG, t - self.t0))
            return
        for u in self.usr1s:
            if u >= t0 and t - u > LATE:
                self.issue("T04 S08", "usr1-latency", "job %r: a trigger there at +%.3f was not taken within %.1f s of "
                           "SIGUSR1 at +%.3f (until +%.3f)" % (name, t0 - self.t0, LATE, u - self.t0, t - self.t0))
                return

    def check_triggers_end(self):
        if self.res["exit"].get("kind") not in ("return", "abort"):
            return
        for c in list(self.created.values()):
            self.latency(c, self.t_end)

    def on_start(self, e):
        t = e["t"]
        r = self.by_pid[e["pid"]]
        name = r.job
        env = r.env
        self.count("starts")
        self.count("starts-" + str(r.ttype))
        cids = self.effective(t)
        if r.failed:
            self.count("launch-failures")
            if r.payload.get("escape"):
                self.issue(ALL, "child-escape", "a launched child ran on into the daemon's code: %s" % r.payload["exc"][-500:])
        if name is None:
            # launch failed before anything identifies the run; the scenario allows it or not
            if not self.scn.get("launch_may_fail"):
                self.issue(ALL, "launch-failed", "launch failed: %s" % r.payload.get("exc", "")[-800:])
            r.cids = cids
            return
        if r.failed and not self.scn.get("launch_may_fail"):
            self.issue(ALL, "launch-failed", "launch of %r failed: %s" % (name, r.payload.get("exc", "")[-800:]))
        if self.shutdown is not None:
            if not self.injected:
                self.issue("S06", "start-after-shutdown", "job %r was started %.3f s after the shutdown request"
                           % (name, t - self.shutdown))
            else:
                n = len([x for x in self.runs if self.shutdown < x.t <= t])
                if n > 1:
                    self.issue("S06 S08", "starts-after-shutdown", "%d runs were started after the shutdown "
                               "request" % n)
        jobs = [(c, self.cfgs[c]["jobs"][name]) for c in cids if name in self.cfgs[c].get("jobs", {})]
        r.cids = [c for c, _ in jobs]
        if not jobs:
            if name in self.names and self.hups:
                self.issue("S07", "removed-job-started", "job %r was started although it is not in the "
                           "configuration any more" % name)
            else:
                self.issue("S07 S03", "unknown-job", "job %r was started, which is not configured" % name)
            return
        # command (settings)
        good = [c for c, j in jobs if self.argv_ok(j, r)]
        wild = r.ttype == "file" and (r.tid is None or (self.metas.get(r.tid) or {}).get("wild"))
        if good and not wild and not any(self.env_ok(c, name, r) for c in good):
            self.issue("S07 E01" if self.hups else "E01", "wrong-environment", "job %r was started with VP_G=%r VP_J=%r; "
                       "configured is %r" % (name, env.get("VP_G"), env.get("VP_J"), [
                           (self.cfgs[c].get("env"), self.cfgs[c]["jobs"][name].get("env")) for c in good][:2]))
        if r.tid is not None and not r.failed:
            m = self.metas.get(r.tid) or {}
            for k, v in (m.get("env") or {}).items():
                if env.get(k) != v:
                    self.issue("T01 E01", "trigger-environment", "job %r: trigger %s asks for %s=%r, the run has %r" % (
                        name, r.tid, k, v, env.get(k)))
                    break
        if not good:
            self.issue("S07 E03" if self.hups else "E03 S03", "wrong-command", "job %r started with %r; configured is %r" % (
                name, r.payload.get("argv"), [j["argv"] for _, j in jobs][:2]))
        # own overlap
        if not any(j.get("concurrent") for _, j in jobs):
            o = [x for x in self.live(t) if x.job == name and x is not r]
            if o:
                self.issue("S01" + (" S07" if self.hups else ""), "overlap", "job %r without concurrent_runs was started while its run %s "
                           "(pid %d, since +%.3f) was still in progress" % (name, o[0].id, o[0].pid, o[0].t - self.t0))
                self.worlds[name] = None
        elif any(x.job == name and x is not r for x in self.live(t)):
            self.count("concurrent-overlaps")
        # group
        if not any((r.group in j["groups"]) if j.get("groups") else (r.group is None or "CONCURRENCY_GROUP" in j.get("setenv", ()))
                   for _, j in jobs):
            self.issue("S02 E01", "wrong-group", "job %r was started in group %r; it lists %r" % (
                name, r.group, [j.get("groups") for _, j in jobs]))
        elif r.group is not None and any(j.get("groups") for _, j in jobs):
            mx = max(self.cfgs[c].get("groups", {}).get(r.group, 1) for c, _ in jobs)
            n = len([x for x in self.live(t) if x.group == r.group])
            self.count("group-starts")
            if n == mx:
                self.count("group-filled")
            if n > mx:
                self.issue("S02" + (" S07" if self.hups else ""), "group-exceeded", "job %r was started into group %r as run number %d, max is %d" % (
                    name, r.group, n, mx))
        # the DB: listed as running
        if self.worlds.get(name) is None:
            return
        if r.st is None:
            self.fail(name, ["E01", "S03"], "no-times", "SCHEDULE_TIME/START_TIME missing or malformed in %r" % (env,))
            return
        if not (t - 1.0 <= r.start <= t + 1e-5):
            self.fail(name, ["R01", "E01", "S03"], "wrong-start-time", "START_TIME %r, but it was started at %r" % (
                r.start, t))
            return
        self.closure(name, t)
        out, reasons = [], []
        for w in self.worlds[name] or ():
            self.explain(w, name, r, out, reasons)
        if self.worlds[name] is None:
            return
        if not out:
            if r.failed and self.scn.get("launch_may_fail"):
                pass
            labels = sorted(set(x for q in reasons for x in q[0])) or ["S03"]
            key = reasons[0][1] if reasons else "unexplained-start"
            self.fail(name, labels, key, "run %s (%s, schedule time +%.6f) started at +%.6f: %s" % (
                r.id, r.tid or r.ttype, r.st - self.t0, r.start - self.t0,
                "; ".join(sorted(set(q[2] for q in reasons)))[:600] or "no configuration has it pending"))
            return
        seen, uniq = set(), []
        for w in out:
            if w.key() not in seen:
                seen.add(w.key())
                uniq.append(w)
        self.worlds[name] = uniq
        self.closure(name, t)
        if r.start - r.st > 5:
            self.count("delayed-starts")

    def env_ok(self, cid, name, r):
        if r.failed:
            return True
        want = {}
        for src in (self.cfgs[cid].get("env"), self.cfgs[cid]["jobs"][name].get("env"),
                    (self.metas.get(r.tid) or {}).get("env") if r.tid is not None else None):
            want.update({k: str(v) for k, v in (src or {}).items() if k in ("VP_G", "VP_J")})
        return all(r.env.get(k) == want.get(k) for k in ("VP_G", "VP_J"))

    def argv_ok(self, j, r):
        a = r.payload.get("argv")
        if a is None:
            return True
        want = list(j["argv"])
        if j.get("append_run"):
            want = want + [r.job, r.id]
        return a == want

    def explain(self, w, name, r, out, reasons):
        """Worlds after the start of r in world w."""
        j = self.cfgs[w.cid].get("jobs", {}).get(name)
        if j is None:
            reasons.append((["S07"], "removed-job-started", "not in configuration %s" % w.cid))
            return
        n0 = len(out)
        for i, p in enumerate(w.pend):
            if p.kind != r.ttype.replace("schedule", "sched") if r.ttype else True:
                continue
            if p.kind == "sched":
                c = self.cron(w.cid, name)
                s = math.floor(r.st + USEC)
                why = None
                lo, hi = c.next(p.r0), c.next(p.r1)
                if r.start < r.st - USEC:
                    why = (["S03"], "early-start", "started %.6f s before its schedule time" % (r.st - r.start))
                elif not c.matches(s):
                    why = (["S03"], "no-occurrence", "%d is not an occurrence of %r in %s" % (s, c.expr, c.tz))
                elif hi is None or s > hi:
                    why = (["S03"], "skipped-occurrence", "the next occurrence was %r" % hi)
                    if hi is not None and any(a < hi + 3 and b > lo - 1 for a, b in self.busy(w.cid, name)):
                        # it was not forgotten, but blocked
                        why[0].append("S04")
                elif r.st <= p.r0:
                    why = (["S03", "S04", "T02"], "repeated-occurrence", "that occurrence was used already")
                if why:
                    if any(x.ttype == "file" and x.job == name and x.n < r.n for x in self.runs):
                        why = (why[0] + ["T02"],) + why[1:]
                    if self.hups:
                        why = (why[0] + ["S07"],) + why[1:]
                    reasons.append(why)
                    continue
                respawn = True
            else:
                if p.wild:
                    if r.tid is not None and r.tid != p.tid and r.tid in self.all_tids:
                        continue
                    out.append(self.after(w, i, p.respawn, j, r))
                    continue
                if p.bare:
                    if r.tid is not None or abs(r.st - p.due) > USEC:
                        continue
                elif p.tid != r.tid:
                    continue
                if abs(r.st - p.due) > USEC:
                    reasons.append((["T03"], "trigger-time", "trigger %s asked for %r" % (p.tid, p.due)))
                    continue
                if r.start < p.due - USEC:
                    reasons.append((["T03"], "early-start", "trigger %s asked for %r" % (p.tid, p.due)))
                    continue
                respawn = p.respawn
            out.append(self.after(w, i, respawn, j, r))
        if len(out) > n0:
            return
        kinds = [p.kind for p in w.pend]
        if r.ttype == "file":
            if r.tid in self.started_of(name, r):
                reasons.append((["T01", "S04"], "trigger-twice", "trigger %s was started before" % r.tid))
            elif r.tid in self.consumed_t:
                reasons.append((["T01", "T02"], "superseded-started",
                                "trigger %s was superseded or is not due" % r.tid))
            else:
                reasons.append((["T01"], "unknown-trigger", "no such trigger was taken (pending: %s)" % [p.key() for p in w.pend]))
        elif r.ttype == "schedule":
            if "sched" not in kinds:
                reasons.append((["T02", "S03"], "replaced-started", "its place was taken by a trigger"
                                if kinds else "nothing was scheduled"))
        else:
            reasons.append((["R01", "E01", "T01"], "trigger-type", "TRIGGER_TYPE is %r" % r.ttype))

    def after(self, w, i, respawn, j, r):
        pend = w.pend[:i] + w.pend[i + 1:]
        if respawn and j.get("sched"):
            pend = pend + (Sched(r.start, r.start, r.t),)
        return World(w.cid, pend, w.hup)

    def started_of(self, name, r):
        return {x.tid for x in self.runs if x.job == name and x.n < r.n and x.tid}

    # -- whole-history checks ------------------------------------------------------------------
    def check_fraction(self):
        for name, f in self.frac.items():
            if max(f) - min(f) > 1e-5 and name in self.names:
                self.issue("S03 H02", "offset-varies", "job %r: sub-second offsets %r..%r" % (name, min(f), max(f)))
            hashed = [c for c in self.cfgs.values() if name in c.get("jobs", {})
                      and c["jobs"][name].get("sched") and len(c["jobs"][name]["cron"].split(" ")) == 6]
            if not hashed and len(self.secs[name]) > 1:
                self.issue("S03 H01", "second-varies", "job %r runs at different seconds: %r" % (
                    name, sorted(self.secs[name])[:5]))

    def check_kills(self):
        kr = False
        kg = None
        sd = self.shutdown
        if sd is not None:
            c = self.cfgs[self.shutdown_cids[-1]]
            kr, kg = bool(c.get("kill_runs")), c.get("kill_grace")
            if len(self.shutdown_cids) > 1:
                alts = {(bool(self.cfgs[x].get("kill_runs")), self.cfgs[x].get("kill_grace"))
                        for x in self.shutdown_cids}
                if len(alts) > 1:
                    return
        for e in self.hist:
            if e["e"] == "kill" and e["state"] in ("unknown", "reaped"):
                self.now = e["t"]
                self.issue("S05 S06 S08", "kill-gone", "signal %d was sent to pid %r, which is not a run in progress (%s)"
                           % (e["sig"], e["pid"], e["state"]))
        for r in self.runs:
            lim = {(self.cfgs[c]["jobs"][r.job].get("max_exec"), self.cfgs[c]["jobs"][r.job].get("grace", 60))
                   for c in getattr(r, "cids", ()) or () if r.job in self.cfgs[c].get("jobs", {})}
            if len(lim) != 1:
                continue
            m, g = lim.pop()
            start = r.start if r.start is not None else r.t
            end = r.exit if r.exit is not None else self.t_end
            kills = [k for k in r.kills if k["state"] in ("live", "zombie")]
            if r.failed:
                continue
            seen = {}
            for k in kills:
                self.now = k["t"]
                s, t = k["sig"], k["t"]
                self.count("kills-%d" % s)
                seen[s] = seen.get(s, 0) + 1
                dsc = "job %r run %s (started +%.3f, max_execution %r, grace %r%s)" % (
                    r.job, r.id, start - self.t0, m, g,
                    ", shutdown +%.3f kill_runs %r grace %r" % (sd - self.t0, kr, kg) if sd is not None else "")
                if k["state"] == "zombie" and t > r.exit + 2.0:
                    self.issue("S05 S06", "kill-ended", "%s was sent signal %d %.3f s after it had ended" % (
                        dsc, s, t - r.exit))
                    continue
                if s not in (15, 9):
                    self.issue("S05 S06", "odd-signal", "%s was sent signal %d" % (dsc, s))
                    continue
                if seen[s] > 1:
                    self.issue("S05" + (" S06" if sd is not None else ""), "signal-twice", "%s was sent signal %d more than once" % (dsc, s))
                    continue
                by_lim = m is not None and t >= start + m + (g if s == 9 else 0) - EPS
                by_sd = sd is not None and kr and t >= sd + ((kg if kg else 1e18) if s == 9 else 0) - EPS
                if not by_lim and not by_sd:
                    lab = ["S05"]
                    if sd is not None and t > sd:
                        lab.append("S06")
                    if self.hups:
                        lab.append("S07")
                    self.issue(lab, "early-signal", "%s was sent signal %d at +%.3f, which nothing calls for" % (
                        dsc, s, t - self.t0))
            self.now = end
            first = {s: min([k["t"] for k in kills if k["sig"] == s], default=None) for s in (15, 9)}
            # due signals
            for s in (15, 9):
                dues = []
                if m is not None:
                    d = start + m + (g if s == 9 else 0)
                    if s == 9 and first[15] is not None:
                        d = max(d, min(first[15], start + m + 3) + g)
                    dues.append((d, "S05"))
                if sd is not None and kr and r.t <= sd:
                    if s == 15:
                        dues.append((sd, "S06"))
                    elif kg:
                        dues.append((sd + kg, "S06"))
                for d, lab in dues:
                    if end > d + 3.0 and self.t_end > d + 3.0:
                        self.count("due-signals-%d" % s)
                        if first[s] is None or first[s] > d + 3.0:
                            l2 = [lab] + (["S07"] if self.hups else [])
                            if self.injected:
                                l2.append("S08")
                            self.issue(l2, "missing-signal", "job %r run %s (started +%.3f, max_execution %r, "
                                       "grace %r): signal %d was due at +%.3f, %s" % (
                                           r.job, r.id, start - self.t0, m, g, s, d - self.t0,
                                           "never sent" if first[s] is None else "sent at +%.3f" % (
                                               first[s] - self.t0)))

    def check_shutdown(self):
        if self.shutdown is None:
            return
        if self.res["exit"].get("kind") != "return":
            return
        t = self.res["exit"]["t"]
        self.now = t
        if self.res.get("live_at_exit"):
            self.issue("S06 R01", "exit-too-early", "the daemon exited with runs still in progress: %r" % (
                self.res["live_at_exit"][:3]))
        if self.res.get("unreaped_at_exit") and not self.res.get("live_at_exit"):
            self.issue("S06 R01", "exit-too-early", "the daemon exited without having collected %r" % (
                self.res["unreaped_at_exit"][:3]))
        last = max([self.shutdown] + [r.exit for r in self.runs if r.exit is not None])
        if t > last + LATE:
            self.issue("S06 S08", "slow-exit", "the daemon exited %.3f s after the last run had ended" % (t - last))

    # -- database ----------------------------------------------------------------------------
    def check_db(self):
        """R01/R02: every run in exactly one place, always; the final record."""
        if self.scn.get("no_db"):
            return
        running, runs = [], set()
        lst, done = None, 0
        open_, ended, gone = {}, {}, {}  # started runs: not in the history, in it, not in it any more
        bad = set()
        for e in self.hist:
            k = e["e"]
            self.now = e["t"]
            if k == "db":
                running = [tuple(x) for x in e["running"]]
                if e["runs_list"] is not lst or e["runs_n"] < done:
                    # not just added to
                    lst, done, runs = e["runs_list"], 0, set()
                    gone.update(ended)
                    ended.clear()
                self.count("db-states")
                twice = len(set(running)) != len(running) and "running runs"
                for key in lst[done:e["runs_n"]]:
                    if key in runs:
                        twice = "history"
                    runs.add(key)
                    r = gone.pop(key, None) or open_.pop(key, None)
                    if r is not None:
                        ended[key] = r
                        if (r.reap is None or r.reap > e["t"] + EPS) and "early" not in bad:
                            bad.add("early")
                            self.issue("R01 R02", "recorded-early", "run %r is in the history before it ended" % (key,))
                done = e["runs_n"]
                both = runs.intersection(running)
                if both and "both" not in bad:
                    bad.add("both")
                    self.issue("R02 R01", "both-places", "run %r is among the running runs and in the history at "
                               "the same time (at %s)" % (sorted(both)[0], e["at"]))
                if twice and twice not in bad:
                    bad.add(twice)
                    self.issue("R01 R02", "listed-twice", "a run is listed twice in the %s" % twice)
                for key in list(open_) + list(gone):
                    if key not in running and "neither" not in bad:
                        bad.add("neither")
                        self.issue("R02 R01", "neither-place", "run %r is neither among the running runs nor in the "
                                   "history (at %s)" % (key, e["at"]))
            elif k == "start":
                r = self.by_pid[e["pid"]]
                key = (r.job, r.id)
                if r.job is None:
                    continue
                (ended if key in runs else open_)[key] = r
                if key not in running and key not in runs and "neither" not in bad:
                    bad.add("neither")
                    self.issue("R02 R01", "neither-place", "run %r was started, but is not listed anywhere" % (key,))
        db = self.res.get("db") or {}
        if self.res["exit"]["kind"] != "return":
            return
        if db.get("runs") is None:
            if self.runs or self.res["exit"]["kind"] == "return":
                self.issue("R01 R02", "no-database", "no readable database at the end: %r" % db.get("error"))
            return
        if db.get("integrity") != "ok":
            self.issue("R02", "integrity", "database integrity: %r" % db.get("integrity"))
        if db["running"]:
            self.issue("R01 S06", "leftover-running", "runs are still listed as running at the end: %r" % (
                [x["run_id"] for x in db["running"]][:3]))
        recs = {}
        for x in db["runs"]:
            recs.setdefault(x["run_id"], []).append(x)
        pre = self.scn.get("precreated_runs", ())
        for r in self.runs:
            if r.job is None:
                continue
            rec = recs.pop(r.id, [])
            if len(rec) != 1:
                self.issue("R01 S06 S07 S08" if r.exit else "R01", "records", "run %r of job %r is in the history %d times" % (
                    r.id, r.job, len(rec)))
                continue
            self.check_record(r, rec[0])
        left = [x for x in recs if x not in pre]
        if left and not any(r.job is None for r in self.runs):
            self.issue("R01", "phantom-record", "the history has a run that never was: %r" % recs[left[0]])

    def check_record(self, r, x):
        self.count("records")
        st = r.status
        sig = st & 0x7f
        code = 128 + sig if sig else (st >> 8) & 0xff
        if sig:
            self.count("records-signalled")
            if st & 0x80:
                self.count("records-core")
        if x["exit_code"] != code:
            self.issue("R01", "exit-code", "run of %r ended with wait status %#x, recorded exit code %r" % (
                r.job, st, x["exit_code"]))
        if x["job_name"] != r.job:
            self.issue("R01", "job-name", "run of %r recorded for job %r" % (r.job, x["job_name"]))
        if r.start is not None:
            tol = self.scn.get("db_tol", 1e-5)
            if abs(x["start_time"] - r.start) > tol or abs(x["schedule_time"] - r.st) > tol:
                self.issue("R01", "times", "run of %r: schedule/start %r/%r, recorded %r/%r" % (
                    r.job, r.st, r.start, x["schedule_time"], x["start_time"]))
        if not (r.exit - 1e-3 <= x["stop_time"] <= (r.reap or r.exit) + 1.0) or x["stop_time"] > r.exit + 3.0:
            self.issue("R01", "stop-time", "run of %r ended at %r, recorded stop time %r" % (
                r.job, r.exit, x["stop_time"]))
        if r.ttype is not None and x["trigger_type"] != r.ttype:
            self.issue("R01", "trigger-type", "run of %r of type %r recorded as %r" % (r.job, r.ttype, x["trigger_type"]))
        import json

        try:
            td = json.loads(x["trigger_data"])
        except ValueError:
            self.issue("R01", "trigger-data", "trigger data not readable: %r" % x["trigger_data"])
            return
        want = None
        if r.ttype == "schedule":
            want = {}
        elif r.tid is not None:
            want = (self.scn.get("trigger_data") or {}).get(r.tid)
        elif r.ttype == "file":
            # of a trigger that leaves no mark
            bare = [d for t, d in (self.scn.get("trigger_data") or {}).items() if (self.metas.get(t) or {}).get("bare")]
            if bare and not any(self.metas[t].get("wild") for t in self.metas if self.metas[t]):
                self.count("bare-records")
                if not any(same(td, d) for d in bare):
                    self.issue("R01 T01", "trigger-data", "run of %r: recorded trigger data %r is that of no trigger" % (r.job, td))
        if want is not None and not same(td, want):
            self.issue("R01 T01", "trigger-data", "run of %r: trigger data %r, recorded %r" % (r.job, want, td))


def same(a, b):
    """JSON equality (1 == 1.0 but True != 1)."""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    return type(a) in (int, float) and type(b) in (int, float) and a == b or (type(a) is type(b) and a == b)


def merge(iv):
    out = []
    for s, e in sorted(iv):
        if out and s <= out[-1][1]:
            out[-1][1] = max(out[-1][1], e)
        else:
            out.append([s, e])
    return [tuple(x) for x in out]


def intersect(a, b):
    out = []
    for s, e in a:
        for s2, e2 in b:
            x, y = max(s, s2), min(e, e2)
            if x < y:
                out.append((x, y))
    return sorted(out)
