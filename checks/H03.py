"""RRULE schedules: next occurrence, bounded rules and hashed positions."""
import bisect
import calendar
import datetime
import json
import os
import subprocess
import sys
import zoneinfo

import cronref
import gen
import gencfg
import sched
import tools

RULE = ("one evaluation = one job name, RRULE schedule, timezone and reference time, its next scheduled run taken from the real job listing under a "
        "virtual clock and compared with an independent evaluator of the rule; positions that are not given are read off the first answer "
        "and have to stay; distinct = (name, rule, timezone, reference time)")
NEED = {"checked": 3000, "hashed": 1000, "until-over": 150, "until-open": 150, "setpos": 150, "interval": 300, "tz": 1000, "spread-names": 1500}
ASSUMPTIONS = ["timezone database of the system", "reference time and occurrence have the same UTC offset and are at least two days away from a change of it",
               "INTERVAL only where it divides the day; weekly, monthly and yearly rules name their days"]
CASE_S = 300
FIXED = 2
DAYS = ["SU", "MO", "TU", "WE", "TH", "FR", "SA"]
setup = tools.prepare


def QUICK(ctx):
    return FIXED + 56


def THOROUGH(ctx):
    return FIXED + 3000


def ints(rng, lo, hi, n=3):
    return sorted(rng.sample(range(lo, hi + 1), rng.randrange(1, n + 1)))


class Rule:
    """What a rule says; hashed positions are filled in from an observation."""

    def __init__(self, rng):
        self.freq = rng.choice(["YEARLY", "MONTHLY", "MONTHLY", "WEEKLY", "DAILY", "DAILY", "DAILY", "HOURLY", "HOURLY", "MINUTELY", "MINUTELY", "SECONDLY"])
        self.by = {}
        self.interval = 1
        self.setpos = None
        self.until = None
        f = self.freq
        if f in ("HOURLY", "MINUTELY", "SECONDLY") and rng.random() < 0.35:
            self.interval = rng.choice({"HOURLY": [2, 3, 4, 6, 8, 12], "MINUTELY": [2, 5, 10, 15, 30, 45, 90], "SECONDLY": [5, 10, 30, 45, 90, 3600]}[f])
            if f == "HOURLY" and rng.random() < 0.5:
                self.by["MINUTE"] = [rng.randrange(60)]
            if f in ("HOURLY", "MINUTELY") and rng.random() < 0.5:
                self.by["SECOND"] = [rng.randrange(60)]
            return
        if f == "YEARLY":
            self.by["MONTH"] = ints(rng, 1, 12)
            if rng.random() < 0.6:
                self.by["MONTHDAY"] = ints(rng, 1, 28)
            else:
                self.by["DAY"] = [(0, d) for d in ints(rng, 0, 6)]
        elif f == "MONTHLY":
            k = rng.randrange(4)
            if k == 0:
                self.by["MONTHDAY"] = ints(rng, 1, 31)
            elif k == 1:
                self.by["MONTHDAY"] = [-rng.randrange(1, 29)]
            elif k == 2:
                self.by["DAY"] = [(rng.choice([1, 2, 3, 4, -1, -2]), rng.randrange(7))]
            else:
                self.by["DAY"] = [(0, d) for d in (range(1, 6) if rng.random() < 0.5 else ints(rng, 0, 6))]
                if rng.random() < 0.7:
                    self.setpos = [rng.choice([1, -1, 2, -2, 3])]
        elif f == "WEEKLY":
            self.by["DAY"] = [(0, d) for d in ints(rng, 0, 6, 4)]
        else:
            if rng.random() < 0.3:
                self.by["DAY"] = [(0, d) for d in ints(rng, 0, 6, 5)]
            if f in ("MINUTELY", "SECONDLY"):
                # (dateutil would go through the days one by one)
                self.by.pop("DAY", None)
            elif rng.random() < 0.15:
                self.by["MONTHDAY"] = ints(rng, 1, 28, 8)
            if f not in ("MINUTELY", "SECONDLY") and rng.random() < 0.15:
                self.by["MONTH"] = ints(rng, 1, 12, 6)
        if rng.random() < 0.5 or f == "SECONDLY":
            self.by["HOUR"] = ints(rng, 0, 23)
        if rng.random() < 0.5 or f == "SECONDLY":
            self.by["MINUTE"] = ints(rng, 0, 59)
        if rng.random() < 0.4 or f == "SECONDLY":
            self.by["SECOND"] = ints(rng, 0, 59)

    def text(self, rng):
        ps = []
        for k, v in self.by.items():
            if k == "DAY":
                v = [("%d" % n if n else "") + DAYS[d] for n, d in v]
            ps.append("BY%s=%s" % (k, ",".join(map(str, v))))
        if self.setpos:
            ps.append("BYSETPOS=%s" % ",".join(map(str, self.setpos)))
        if self.interval > 1 or rng.random() < 0.1:
            ps.append("INTERVAL=%d" % self.interval)
        if self.until:
            ps.append("UNTIL=" + self.until[0])
        rng.shuffle(ps)
        t = "RRULE:" + ";".join(["FREQ=" + self.freq] + ps)
        return t.lower() if rng.random() < 0.1 and not self.until else t

    def hashed(self):
        out = []
        for k, fs in (("HOUR", ("YEARLY", "MONTHLY", "WEEKLY", "DAILY")), ("MINUTE", ("YEARLY", "MONTHLY", "WEEKLY", "DAILY", "HOURLY")),
                      ("SECOND", ("YEARLY", "MONTHLY", "WEEKLY", "DAILY", "HOURLY", "MINUTELY"))):
            if k not in self.by and self.freq in fs:
                out.append(k)
        return out

    def day_ok(self, d):
        if "MONTH" in self.by and d.month not in self.by["MONTH"]:
            return False
        last = calendar.monthrange(d.year, d.month)[1]
        if "MONTHDAY" in self.by and d.day not in self.by["MONTHDAY"] and d.day - last - 1 not in self.by["MONTHDAY"]:
            return False
        if "DAY" in self.by:
            w = d.isoweekday() % 7
            for n, x in self.by["DAY"]:
                if w == x and (n == 0 or n > 0 and (d.day - 1) // 7 + 1 == n or n < 0 and (last - d.day) // 7 + 1 == -n):
                    break
            else:
                return False
        return True

    def times(self, filled):
        g = lambda k, n: filled.get(k) or self.by.get(k) or range(n)
        return sorted((h, m, s) for h in g("HOUR", 24) for m in g("MINUTE", 60) for s in g("SECOND", 60))

    def month(self, y, m, times):
        out = [(datetime.date(y, m, d), x) for d in range(1, calendar.monthrange(y, m)[1] + 1) if self.day_ok(datetime.date(y, m, d)) for x in times]
        keep = []
        for p in self.setpos:
            if p > 0 and p <= len(out):
                keep.append(out[p - 1])
            elif p < 0 and -p <= len(out):
                keep.append(out[p])
        return sorted(set(keep))

    def next(self, t, tz, filled):
        """Epoch of the first occurrence strictly after t, None if over."""
        z = zoneinfo.ZoneInfo(tz)
        times = self.times(filled)
        d0 = datetime.datetime.fromtimestamp(t, z)
        day = d0.date()
        first = True
        e = None

        def ep(d, x):
            return datetime.datetime(d.year, d.month, d.day, *x, tzinfo=z).timestamp()

        for _ in range(366 * 9):
            if self.setpos:
                c = [x for d, x in self.month(day.year, day.month, times) if d == day]
            else:
                c = times if self.day_ok(day) else []
            if c and first:
                k = bisect.bisect_left(c, (d0.hour, d0.minute, d0.second))
                c = c[max(0, k - 1):]
                c = [x for x in c[:3] if ep(day, x) > t]
            if c:
                e = int(ep(day, c[0]))
                break
            first = False
            day += datetime.timedelta(days=1)
        return e

    def over(self, e, tz):
        if not self.until or e is None:
            return False
        text, z = self.until
        u = datetime.datetime.strptime(text.rstrip("Z"), "%Y%m%dT%H%M%S").replace(tzinfo=zoneinfo.ZoneInfo(z or tz)).timestamp()
        return e > u


def quiet(tz, *ts):
    return len({cronref.utcoffset(tz, t) for t in ts}) == 1 and all(cronref.dst_free(tz, t, before=2 * 86400, after=2 * 86400) for t in ts)


def case(i, rng, ctx):
    if i == 0:
        return {"mode": "spread", "names": ["%s-%d" % (rng.choice(["a", "job", "x y"]), n) for n in range(2000)]}
    if i == 1:
        jobs = {}
        for _ in range(120):
            jobs[gencfg.name(rng)] = {"schedule": Rule(rng).text(rng)}
        return {"mode": "process", "jobs": jobs, "times": [1700000000.5, 1710000000.0]}
    base = rng.randrange(1262304000, 2000000000)
    times = [base + 0.5] + [base + rng.randrange(0, 500 * 86400) + rng.choice([0, 0.5, rng.random()]) for _ in range(4)]
    tz0 = rng.choice(gen.TZS)
    jobs, rules = {}, {}
    while len(jobs) < 24:
        n = gencfg.name(rng)
        r = Rule(rng)
        tz = rng.choice(gen.TZS) if rng.random() < 0.6 else None
        if rng.random() < 0.35 and r.interval == 1:
            z = rng.random() < 0.5
            at = rng.choice([times[rng.randrange(5)] + rng.randrange(-5 * 86400, 40 * 86400), times[0] - 86400, times[0] + 900 * 86400])
            w = r.next(at, tz or tz0, {}) if not r.hashed() and rng.random() < 0.6 else None
            if w:
                at = w + rng.choice([0, 0, -1, 1])
            d = datetime.datetime.fromtimestamp(at, datetime.timezone.utc if z else zoneinfo.ZoneInfo(tz or tz0))
            r.until = (d.strftime("%Y%m%dT%H%M%S") + ("Z" if z else ""), "UTC" if z else None)
        jobs[n] = {"schedule": r.text(rng), "schedule_timezone": tz}
        rules[n] = r
    return {"mode": "rules", "jobs": jobs, "rules": rules, "times": times, "tz": tz0}


def run(item, i, ctx):
    v, keys = [], set()

    def bad(key, what):
        if key not in keys:
            keys.add(key)
            v.append({"key": key, "what": what})

    root = os.path.realpath(ctx.tmp("c%d-%d" % (os.getpid(), i)))
    try:
        return globals()["run_" + item["mode"]](item, i, ctx, root, v, bad)
    finally:
        ctx.rm(root)


def run_spread(item, i, ctx, root, v, bad):
    got = sched.observe(root, {n: {"schedule": "RRULE:FREQ=DAILY"} for n in item["names"]}, [1735689599.25])
    if isinstance(got, str):
        bad("failed", got)
        return {"violations": v}
    for name, div, m in (("hour", 3600, 24), ("minute", 60, 60), ("second", 1, 60)):
        seen = [0] * m
        for n in item["names"]:
            seen[got[0][n][0] // div % m] += 1
        e = len(item["names"]) / m
        if min(seen) == 0 or max(seen) > 2.2 * e + 5:
            bad("spread", "RRULE:FREQ=DAILY over %d names: %s distribution %r" % (len(item["names"]), name, seen))
    return {"violations": v, "counts": {"spread-names": len(item["names"])}}


def run_process(item, i, ctx, root, v, bad):
    here = sched.observe(root, item["jobs"], item["times"])
    env = dict(os.environ, PYTHONHASHSEED="random", VERIF_REPO=ctx.repo)
    p = subprocess.run([sys.executable, "-B", os.path.join(os.path.dirname(sched.__file__), "hashprobe.py")], env=env, capture_output=True,
                       input=json.dumps({"root": root, "jobs": item["jobs"], "times": item["times"], "tz": "UTC"}).encode(), timeout=200)
    if p.returncode != 0:
        return {"error": "probe: %r" % p.stderr[-2000:]}
    there = json.loads(p.stdout)
    if isinstance(here, str) or isinstance(there, str):
        bad("failed", "%r %r" % (here, there))
        return {"violations": v}
    for t, a, b in zip(item["times"], here, there):
        for n in item["jobs"]:
            if list(a[n] or ()) != (b[n] or []):
                bad("process", "job %r, schedule %r at %.6f: next run %r in this process, %r in another" % (n, item["jobs"][n], t, a[n], b[n]))
    return {"violations": v, "counts": {"processes": 1}}


def run_rules(item, i, ctx, root, v, bad):
    counts = dict.fromkeys(NEED, 0)
    fps, sample, offs, fill, tod = [], [], {}, {}, {}
    obs = sched.observe(root, item["jobs"], item["times"], item["tz"])
    if isinstance(obs, str):
        bad("failed", "%s: %r" % (obs, item["jobs"]))
        return {"violations": v}
    # just around the first occurrences
    more = []
    for n in sorted(item["jobs"])[:8]:
        if obs[0][n]:
            e = obs[0][n][0]
            more += [e - 1.0, e - 0.001, float(e), e + 0.999]
    more.append(item["times"][0])
    obs2 = sched.observe(root, item["jobs"], more, item["tz"])
    if isinstance(obs2, str):
        bad("failed", "%s: %r" % (obs2, item["jobs"]))
        return {"violations": v}
    if obs2[-1] != obs[0]:
        bad("impure", "the same listing differs when repeated: %r, %r" % (obs[0], obs2[-1]))
    for n, j in item["jobs"].items():
        r = item["rules"][n]
        tz = j["schedule_timezone"] or item["tz"]
        what = "job %r, schedule %r, timezone %r" % (n, j["schedule"], tz)
        for t, o in zip(item["times"] + more, obs + obs2):
            g = o[n]
            at = "%s, at %.6f" % (what, t)
            if g is not None:
                if sched.plus(g) <= t:
                    bad("past", "%s: next run %.6f is not after it" % (at, sched.plus(g)))
                    continue
                if offs.setdefault(n, g[1]) != g[1]:
                    bad("offset", "%s: sub-second part %d us, before %d us" % (at, g[1], offs[n]))
                if not quiet(tz, t, g[0]):
                    continue
                if r.over(g[0], tz):
                    bad("until", "%s: next run %.6f is after the end of the rule" % (at, sched.plus(g)))
                    continue
                off = cronref.utcoffset(tz, t)
                d = datetime.datetime.fromtimestamp(g[0], zoneinfo.ZoneInfo(tz))
                if r.interval > 1:
                    step = r.interval * {"HOURLY": 3600, "MINUTELY": 60, "SECONDLY": 1}[r.freq]
                    ph = fill.setdefault((n, "phase", off), g[0] % step)
                    if g[0] % step != ph or not g[0] - step <= t < g[0] + 1:
                        bad("interval", "%s: next run %.6f, not the next of every %d s from %d s (mod)" % (at, sched.plus(g), step, ph))
                    for k in r.by:
                        if {"HOUR": d.hour, "MINUTE": d.minute, "SECOND": d.second}[k] not in r.by[k]:
                            bad("interval", "%s: next run %.6f does not have the given %s" % (at, sched.plus(g), k))
                    counts["interval"] += 1
                    counts["checked"] += 1
                    fps.append("%s/%s/%.6f" % (what, "", t))
                    continue
                filled = {}
                for k in r.hashed():
                    x = {"HOUR": d.hour, "MINUTE": d.minute, "SECOND": d.second}[k]
                    y = fill.setdefault((n, k, off), x)
                    if x != y:
                        bad("position", "%s: next run %.6f at %s %d, before %d" % (at, sched.plus(g), k, x, y))
                    filled[k] = [y]
            else:
                off = cronref.utcoffset(tz, t)
                filled = {k: [fill[n, k, off]] for k in r.hashed() if (n, k, off) in fill}
                if not r.until or r.interval > 1:
                    bad("none", "%s: no next run" % at)
                    continue
                if len(filled) < len(r.hashed()):
                    # the position is not known: only decidable well before or after the end
                    w = r.next(t, tz, {k: [x] for k, x in (("HOUR", 12), ("MINUTE", 30), ("SECOND", 30)) if k in r.hashed()})
                    if w and not r.over(w + 90000, tz) and quiet(tz, t, w):
                        bad("none", "%s: no next run" % at)
                    continue
            w = r.next(t, tz, filled)
            if w is None or not quiet(tz, t, w):
                continue
            if r.over(w, tz):
                w = None
            if (w is None) != (g is None) or w is not None and not (w <= g[0] <= w + (1 if g[1] == 0 else 0)):
                bad("wrong", "%s: next run %r, expected %r (hashed positions %r)" % (at, g, w, filled))
                continue
            counts["checked"] += 1
            counts["hashed"] += bool(r.hashed())
            counts["setpos"] += bool(r.setpos)
            counts["tz"] += tz != item["tz"]
            if r.until:
                counts["until-over" if w is None else "until-open"] += 1
            fps.append("%s/%.6f" % (what, t))
            if len(sample) < 4:
                sample.append({"job": n, "schedule": j["schedule"], "timezone": tz, "at": t, "next run": g, "expected": w})
    return {"violations": v, "counts": counts, "fps": fps, "sample": sample if i == FIXED else None}
