"""The next cron occurrence is the first match after now, in the right timezone."""
import datetime
import os

import croniter
import dateutil.tz

import cronref
import gencfg
import gen
import sched
import tools

RULE = ("one evaluation = one job name, cron schedule, timezone and reference time, its next scheduled run taken from the real job listing under "
        "a virtual clock and compared with an independent brute-force evaluator; distinct = (schedule, timezone, reference time)")
NEED = {"checked": 4000, "dow": 300, "dom": 300, "tz": 1500, "names": 200, "exact-second": 300, "across": 300}
ASSUMPTIONS = ["timezone database of the system", "reference time and occurrence are at least two days away from a change of the UTC offset; where it changes in between, an hour's slip which croniter itself makes for the right arguments is accepted"]
QUICK = 64
THOROUGH = 3000
CASE_S = 300
setup = tools.prepare
MON = "JAN FEB MAR APR MAY JUN JUL AUG SEP OCT NOV DEC".split()
DOW = "SUN MON TUE WED THU FRI SAT".split()
LO, HI = (0, 0, 1, 1, 0, 0), (59, 23, 31, 12, 6, 59)


def field(rng, k, want=None):
    """(text, plain text) of a field."""
    lo, hi = LO[k], HI[k]
    r = want if want is not None else rng.random()
    if r < 0.3:
        return "*", "*"
    if r < 0.5:
        x = rng.randrange(lo, hi + 1)
        if k == 4 and x == 0 and rng.random() < 0.5:
            return "7", "0"
        if k == 3 and rng.random() < 0.5:
            t = MON[x - 1]
            return rng.choice([t, t.lower(), t.title()]), str(x)
        if k == 4 and rng.random() < 0.5:
            t = DOW[x]
            return rng.choice([t, t.lower(), t.title()]), str(x)
        return str(x), str(x)
    if r < 0.6:
        a = rng.randrange(lo, hi)
        b = rng.randrange(a + 1, hi + 1)
        if k == 3 and rng.random() < 0.3:
            return "%s-%s" % (MON[a - 1], MON[b - 1]), "%d-%d" % (a, b)
        if k == 4 and rng.random() < 0.3:
            return "%s-%s" % (DOW[a], DOW[b]), "%d-%d" % (a, b)
        if k == 4 and rng.random() < 0.3 and 0 < a:
            return "%d-7" % a, "0," + ("%d-6" % a if a < 6 else "6")
        return "%d-%d" % (a, b), "%d-%d" % (a, b)
    if r < 0.7 and k not in (2, 4):
        s = rng.choice([2, 3, 4, 5, 7, 10, 15, 20, 30]) if k in (0, 5) else rng.choice([2, 3, 4, 6])
        return "*/%d" % s, "%d-%d/%d" % (lo, hi, s)
    if r < 0.8:
        a = rng.randrange(lo, hi - 2)
        b = rng.randrange(a + 2, hi + 1)
        s = rng.randrange(2, max(3, (hi - lo) // 3))
        return "%d-%d/%d" % (a, b, s), "%d-%d/%d" % (a, b, s)
    n = rng.randrange(2, 5)
    xs = rng.sample(range(lo, hi + 1), n)
    t = [str(x) for x in xs]
    p = ",".join(t)
    if k == 4 and 0 in xs and rng.random() < 0.5:
        t[xs.index(0)] = "7"
    elif k == 4 and rng.random() < 0.3:
        t = [DOW[x] for x in xs]
    elif k == 3 and rng.random() < 0.3:
        t = [MON[x - 1] for x in xs]
    elif hi > 12 and rng.random() < 0.3:
        a = rng.randrange(lo, hi)
        b = min(hi, a + rng.randrange(1, 5))
        t.append("%d-%d" % (a, b))
        p += ",%d-%d" % (a, b)
    return ",".join(t), p


def schedule(rng):
    k = rng.random()
    if k < 0.2:
        s = gen.fast_cron(rng) if rng.random() < 0.5 else gen.slow_cron(rng)
        return s, s, None
    fs = []
    dense = rng.random()
    for f in range(6):
        if f >= 2 and f <= 4 and rng.random() < (0.75 if dense < 0.5 else 0.4):
            fs.append(("*", "*"))
        else:
            fs.append(field(rng, f))
    if fs[2][0] != "*" and fs[3][0] != "*":
        # the date must exist
        fs[3] = ("*", "*") if rng.random() < 0.5 else fs[3]
        d = cronref.parse_field(fs[2][1], 1, 31)
        if min(d) > 28 and fs[3][0] != "*":
            fs[3] = ("1,3,5,7,8,10,12", "1,3,5,7,8,10,12")
    return " ".join(x[0] for x in fs), " ".join(x[1] for x in fs), fs


def case(i, rng, ctx):
    jobs, plain = {}, {}
    while len(jobs) < 24:
        n = gencfg.name(rng)
        s, p, _ = schedule(rng)
        jobs[n] = {"schedule": s, "schedule_timezone": rng.choice(gen.TZS) if rng.random() < 0.6 else None}
        plain[n] = p
    base = rng.randrange(1262304000, 2050000000)
    times = []
    for _ in range(5):
        t = base + rng.randrange(0, 400 * 86400)
        k = rng.random()
        if k < 0.3:
            t -= t % 86400
        elif k < 0.5:
            t -= t % 3600
        elif k < 0.6:
            t -= t % 60
        times.append(t + rng.choice([0, 0, 0, -1, -0.5, 0.5, 0.999999, 0.000001, -0.000001, rng.random()]))
    return {"jobs": jobs, "plain": plain, "times": times, "tz": rng.choice(gen.TZS)}


def quiet(tz, t):
    return cronref.dst_free(tz, t, before=2 * 86400, after=2 * 86400, step=6 * 3600)


def run(item, i, ctx):
    v, keys = [], set()

    def bad(key, what):
        if key not in keys:
            keys.add(key)
            v.append({"key": key, "what": what})

    root = os.path.realpath(ctx.tmp("c%d-%d" % (os.getpid(), i)))
    counts = {"checked": 0, "across": 0, "across-slips": 0, "names": len(item["jobs"])}
    fps, sample, offs = [], [], {}

    def judge(n, t, got):
        o = item["jobs"][n]
        tz = o["schedule_timezone"] or item["tz"]
        what = "job %r, schedule %r, timezone %r, at %.6f" % (n, o["schedule"], tz, t)
        if got is None:
            bad("none", what + ": no next run")
            return
        try:
            c = crons.setdefault((item["plain"][n], tz), None) or cronref.Cron(item["plain"][n], tz)
            crons[(item["plain"][n], tz)] = c
            w = c.next(t)
        except ValueError:
            return
        if w is None:
            return
        if not quiet(tz, t) or not quiet(tz, w):
            counts["dst-skipped"] = counts.get("dst-skipped", 0) + 1
            return
        d = sched.plus(got) - w
        across = cronref.utcoffset(tz, t) != cronref.utcoffset(tz, w)
        counts["across"] += across
        if across and not -1e-7 <= d <= 1.0000001:
            # croniter sometimes slips an hour here; not the fault of the code under test if it was asked for the right thing
            counts["across-slips"] += 1
            w = croniter.croniter(item["plain"][n], datetime.datetime.fromtimestamp(t, dateutil.tz.gettz(tz))).get_next(datetime.datetime).timestamp()
            d = sched.plus(got) - w
        if not -1e-7 <= d <= 1.0000001:
            bad("wrong", "%s: next run at %.6f, expected %d plus at most a second (%+.6f)" % (what, sched.plus(got), w, d))
            return
        off = (got[0] - w) * 1000000 + got[1]
        if offs.setdefault(n, off) != off:
            bad("offset", "%s: sub-second offset %d us, before %d us" % (what, off, offs[n]))
        counts["checked"] += 1
        f = item["plain"][n].split(" ")
        for k, name in ((2, "dom"), (4, "dow")):
            if f[k] != "*":
                counts[name] = counts.get(name, 0) + 1
        if o["schedule_timezone"] and o["schedule_timezone"] != item["tz"]:
            counts["tz"] = counts.get("tz", 0) + 1
        if t == int(t) and c.matches(t):
            counts["exact-second"] = counts.get("exact-second", 0) + 1
        fps.append("%s/%s/%.6f" % (o["schedule"], tz, t))
        if len(sample) < 4:
            sample.append({"job": n, "schedule": o["schedule"], "timezone": tz, "at": t, "next run": sched.plus(got), "expected": w})

    crons = {}
    try:
        got = sched.observe(root, item["jobs"], item["times"], item["tz"])
        if isinstance(got, str):
            bad("failed", "%s; %r" % (got, item["jobs"]))
            return {"violations": v}
        for t, g in zip(item["times"], got):
            for n in item["jobs"]:
                judge(n, t, g.get(n))
        # at, just before and just after occurrences; the same place twice
        again = []
        for n in sorted(item["jobs"])[:10]:
            g = got[0][n]
            if g:
                again += [g[0] - (1 if g[1] == 0 and offs.get(n) else 0), g[0] - 0.001, g[0] + 0.3]
        again += [item["times"][0]]
        got2 = sched.observe(root, item["jobs"], again, item["tz"])
        if isinstance(got2, str):
            bad("failed", "%s; %r" % (got2, item["jobs"]))
            return {"violations": v}
        for t, g in zip(again, got2):
            for n in item["jobs"]:
                judge(n, t, g.get(n))
        if got2[-1] != got[0]:
            bad("impure", "the same listing differs when repeated: %r, %r" % (got[0], got2[-1]))
        return {"violations": v, "counts": counts, "fps": fps, "sample": sample if i < 2 else None}
    finally:
        ctx.rm(root)
