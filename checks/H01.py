"""Hashed and random schedule fields are stable, in range and evenly stepped."""
import json
import os
import re
import subprocess
import sys

import cronref
import gencfg
import sched
import tools

RULE = ("one evaluation = one job name and schedule with H, R or @word items whose next runs at several virtual times, taken from the real job "
        "listing (partly in other interpreters with other hash seeds), are decoded into the resolved fields and compared with an independent "
        "evaluator, with each other and over many names; distinct = (name, schedule)")
NEED = {"decoded": 2500, "steps": 600, "ranges": 600, "words": 400, "random": 2000, "spread-names": 20000, "processes": 3, "varying": 90, "stable": 3000}
ASSUMPTIONS = ["resolved values are read off the next runs (UTC)", "the day of an H H-like date is bounded by the length of a hashed month"]
CASE_S = 300
RANGES = cronref.RANGES[:4] + ((0, 6),) + cronref.RANGES[5:]
TEMPLATE = ["%s * * * * 0", "0 %s * * * 0", "0 0 %s * * 0", "0 0 1 %s * 0", "0 0 * * %s 0", "* * * * * %s"]
WORDS = {"@midnight": "H H(0-2) * * * H", "@hourly": "H * * * * H", "@daily": "H H * * * H", "@weekly": "H H * * H H", "@monthly": "H H H * * H",
         "@yearly": "H H H H * H", "@annually": "H H H H * H"}
ITEM = re.compile(r"^([HR])(?:\((\d+)-(\d+)\))?(?:/(\d+))?$")
SPREAD = [(k, "H") for k in range(6)] + [(k, "R") for k in range(6)] + [
    (0, "H(0-29)"), (0, "H(30-59)"), (0, "H(0-1)"), (1, "H(0-2)"), (1, "H(0-7)"), (1, "H(20-23)"), (2, "H(1-28)"), (2, "H(10-12)"), (3, "H(3-5)"),
    (4, "H(1-5)"), (4, "H(0-1)"), (5, "H(0-9)"), (5, "H(50-59)"), (0, "H/15"), (0, "H/7"), (0, "H(30-59)/10"), (0, "H(5-20)/4"), (1, "H/6"), (1, "H(0-11)/5"),
    (2, "H/5"), (2, "H(8-21)/3"), (3, "H/3"), (4, "H/2"), (5, "H/20"), (5, "H(10-40)/15"), (0, "R(7-9)"), (1, "R(9-17)"), (2, "R(3-20)"), (0, "R/20"),
    (0, "H/50"), (0, "H(0-9)/30"), ("05", "H H"), ("15", "H H"), ("14", "H H"), ("implicit", "")]
PROC = 3
VARY = 4
setup = tools.prepare


def QUICK(ctx):
    return PROC + VARY + len(SPREAD) + 60


def THOROUGH(ctx):
    return PROC + VARY + len(SPREAD) * 6 + 6000


def item(rng, k, types="HHHHR"):
    lo, hi = RANGES[k]
    h = rng.choice(types)
    r = rng.random()
    if r < 0.3:
        return h
    a = rng.randrange(lo, hi + 1)
    b = rng.randrange(a, hi + 1)
    rg = "(%d-%d)" % (a, b) if r > 0.45 else ""
    if r < 0.7 and rg:
        return h + rg
    return "%s%s/%d" % (h, rg, rng.choice([1, 2, 3, 4, 5, 6, 7, 10, 12, 15, 20, 25, 31, 45, rng.randrange(1, 70)]))


def combo(rng, types="HHHHR"):
    """A schedule with several items."""
    k = rng.randrange(9)

    def it(f):
        return item(rng, f, types) if rng.random() < 0.8 else str(rng.randrange(*RANGES[f]))

    f = [it(0), it(1), "*", "*", "*", it(5)]
    if k == 0:
        f[1] = "*"
    elif k == 1:
        f[1] = f[0] = "*"
    elif k == 2:
        f[2] = it(2)
    elif k == 3:
        f[4] = it(4)
    elif k == 4:
        f[2], f[3] = item(rng, 2, "H") if rng.random() < 0.3 else "H", it(3)
        if f[2] != "H":
            f[3] = "1,3,5,7,8,10,12"
    elif k == 5:
        f[1], f[3], f[4] = "*/2", "H", "*"
    elif k == 6:
        f = [TEMPLATE[0] % item(rng, 0, types)][0].split(" ")
    elif k == 7:
        f[0] = "*/20"
    if rng.random() < 0.3:
        f = f[:5]
    if f[2] == "H" and re.match(r"^[2469]$|^11$|^.*[/,(]", f[3]):
        f[3] = "*"
    return " ".join(f)


def names(rng, n):
    out = {}
    while len(out) < n:
        out[gencfg.name(rng)] = 1
    return list(out)


def case(i, rng, ctx):
    if i < PROC:
        jobs = {}
        for n in names(rng, 160):
            k = rng.randrange(6)
            jobs[n] = {"schedule": rng.choice([TEMPLATE[k] % item(rng, k, "H"), combo(rng, "H"), rng.choice(sorted(WORDS))])}
        return {"mode": "process", "jobs": jobs, "seed": [1, 77, "random"][i], "times": [1700000000.5, 1710000000.0]}
    i -= PROC
    if i < VARY:
        jobs = {}
        for q, n in enumerate(names(rng, 24)):
            k = q % 6
            a = rng.randrange(RANGES[k][0], RANGES[k][1] - 3)
            r = rng.choice(["R", "R", "R(%d-%d)" % (a, rng.randrange(a + 3, RANGES[k][1] + 1))])
            jobs[n] = {"schedule": rng.choice(["%s * * * *" % r, "%s %d * * *" % (r, rng.randrange(24))]) if k == 0 and q < 12 else
                       rng.choice(["* R * * *", "R R * * *", "R * * * *"]) if k == 1 and q < 12 else TEMPLATE[k] % r}
        for q, s in enumerate(gencfg.RDATE):
            jobs["date %d" % q] = {"schedule": s}
        return {"mode": "vary", "jobs": jobs, "time": rng.randrange(1262304000, 2050000000) + rng.random()}
    i -= VARY
    if i < len(SPREAD) * (1 if ctx.quick else 6):
        k, x = SPREAD[i % len(SPREAD)]
        style = rng.randrange(6)
        ns = [{0: "job-%d", 1: "%d", 2: "backup server %d@site", 3: "x%d.daily", 4: "the nightly backup of the customer database no. %d", 5: "%d-the nightly backup of the customer database."}[style] % (q * (7 if style == 3 else 1)) for q in range(2400)]
        return {"mode": "spread", "field": k, "item": x, "names": ns}
    base = rng.randrange(1262304000, 2050000000)
    times = [base + rng.random()] + [base + rng.randrange(0, 900 * 86400) + rng.choice([0, 0.5, rng.random()]) for _ in range(4)]
    ns = names(rng, 12)
    rounds = []
    for r in range(8):
        jobs = {}
        for n in ns:
            q = rng.random()
            if q < 0.25:
                k = rng.randrange(6)
                jobs[n] = {"schedule": TEMPLATE[k] % item(rng, k)}
            elif q < 0.8:
                jobs[n] = {"schedule": combo(rng)}
            else:
                jobs[n] = {"schedule": rng.choice(sorted(WORDS))}
        rounds.append(jobs)
    # the words written out, with and without seconds
    words = [{n: {"schedule": j["schedule"]} for n, j in rounds[0].items()} for _ in range(3)]
    for n in ns:
        w = rng.choice(sorted(WORDS))
        words[0][n] = {"schedule": w}
        words[1][n] = {"schedule": WORDS[w]}
        words[2][n] = {"schedule": WORDS[w][:-2]}
    return {"mode": "decode", "names": ns, "rounds": rounds, "words": words, "times": times}


def parts(epoch):
    import datetime

    d = datetime.datetime.fromtimestamp(epoch, datetime.timezone.utc)
    return (d.minute, d.hour, d.day, d.month, d.isoweekday() % 7, d.second)


def bounds(k, m):
    lo, hi = RANGES[k]
    return (int(m.group(2)), int(m.group(3))) if m.group(2) else (lo, hi)


def run(item, i, ctx):
    v, keys = [], set()

    def bad(key, what):
        if key not in keys:
            keys.add(key)
            v.append({"key": key, "what": what})

    root = os.path.realpath(ctx.tmp("c%d-%d" % (os.getpid(), i)))
    try:
        return globals()["run_" + item["mode"]](item, i, ctx, root, v, bad)
    finally:
        ctx.rm(root)


def run_process(item, i, ctx, root, v, bad):
    here = sched.observe(root, item["jobs"], item["times"])
    env = dict(os.environ, PYTHONHASHSEED=str(item["seed"]), VERIF_REPO=ctx.repo)
    p = subprocess.run([sys.executable, "-B", os.path.join(os.path.dirname(sched.__file__), "hashprobe.py")], env=env, capture_output=True,
                       input=json.dumps({"root": root, "jobs": item["jobs"], "times": item["times"], "tz": "UTC"}).encode(), timeout=200)
    if p.returncode != 0:
        return {"error": "probe: %r" % p.stderr[-2000:]}
    there = json.loads(p.stdout)
    if isinstance(here, str) or isinstance(there, str):
        bad("failed", "%r %r" % (here, there))
        return {"violations": v}
    for t, a, b in zip(item["times"], here, there):
        for n in item["jobs"]:
            if list(a[n] or ()) != (b[n] or []):
                bad("process", "job %r, schedule %r at %.6f: next run %r in this process, %r in another" % (n, item["jobs"][n], t, a[n], b[n]))
    return {"violations": v, "counts": {"processes": 1}, "fps": ["%s/%s" % (n, j["schedule"]) for n, j in item["jobs"].items()]}


def run_vary(item, i, ctx, root, v, bad):
    """Random fields are chosen anew on each evaluation; everything else stays."""
    obs = sched.observe(root, item["jobs"], [item["time"]] * 48)
    plain = sched.observe(root, {n: {"schedule": "* * * * *"} for n in item["jobs"]}, [item["time"]])
    for o in (obs, plain):
        if isinstance(o, str):
            bad("failed", "%s: %r" % (o, item["jobs"]))
            return {"violations": v}
    fps = []
    for n, j in item["jobs"].items():
        f = j["schedule"].split(" ")
        seen = {}
        for o in obs:
            if o[n] is None:
                bad("none", "job %r, schedule %r at %.6f: no next run" % (n, j["schedule"], item["time"]))
                return {"violations": v}
            p = parts(o[n][0])
            for k, x in enumerate(f):
                m = ITEM.match(x)
                if m:
                    seen.setdefault(k, set()).add(p[k])
                    lo, hi = bounds(k, m)
                    if not lo <= p[k] <= hi:
                        bad("range", "job %r, schedule %r: next run %r has a field %d of %d" % (n, j["schedule"], o[n], k, p[k]))
            if len(f) == 5 and (p[5], o[n][1]) != (parts(plain[0][n][0])[5], plain[0][n][1]):
                bad("seconds", "job %r, schedule %r: next run %r, while that of '* * * * *' is %r: another second" % (n, j["schedule"], o[n], plain[0][n]))
        for k, s in seen.items():
            if len(s) < 2:
                bad("same", "job %r, schedule %r: field %d is %r at each of 48 evaluations" % (n, j["schedule"], k, s))
        fps.append("%s/%s" % (n, j["schedule"]))
    return {"violations": v, "counts": {"varying": len(item["jobs"])}, "fps": fps}


def run_spread(item, i, ctx, root, v, bad):
    k, x = item["field"], item["item"]
    if k == "implicit":
        scheds, ks = "* * * * *", [5]
    elif isinstance(k, str):
        ks = [int(c) for c in k]
        f = ["*", "*", "*", "*", "*", "0"]
        if 0 not in ks:
            f[0] = "0"
        for c in ks:
            f[c] = "H"
        scheds = " ".join(f)
    else:
        scheds, ks = TEMPLATE[k] % x, [k]
    got = sched.observe(root, {n: {"schedule": scheds} for n in item["names"]}, [1735689599.25])
    if isinstance(got, str):
        bad("failed", "%s: %s" % (scheds, got))
        return {"violations": v}
    seen = {}
    for n in item["names"]:
        g = got[0][n]
        if g is None:
            bad("none", "job %r, schedule %r: no next run" % (n, scheds))
            return {"violations": v}
        p = parts(g[0])
        key = tuple(p[c] for c in ks)
        if len(ks) == 1 and x:
            m = ITEM.match(x)
            lo, hi = bounds(k, m)
            if not lo <= p[k] <= hi:
                bad("range", "job %r, schedule %r: next run %r has a field of %d" % (n, scheds, g, p[k]))
                continue
            if m.group(4) and m.group(1) == "H":
                key = ((p[k] - lo) % int(m.group(4)),)
            elif m.group(4):
                key = (0,)
        seen[key] = seen.get(key, 0) + 1
    if len(ks) == 1:
        if x and ITEM.match(x).group(4):
            lo, hi = bounds(k, ITEM.match(x))
            m = min(int(ITEM.match(x).group(4)), hi - lo + 1) if x[0] == "H" else 1
        elif x:
            lo, hi = bounds(k, ITEM.match(x))
            m = hi - lo + 1
        else:
            m = 60
    else:
        m = 1
        for c in ks:
            m *= RANGES[c][1] - RANGES[c][0] + 1
    e = len(item["names"]) / m
    what = "schedule %r over %d names (such as %r): " % (scheds, len(item["names"]), item["names"][5])
    if len(ks) == 1:
        if len(seen) < m:
            bad("spread", what + "only %d of %d values occur: %r" % (len(seen), m, seen))
        elif max(seen.values()) > 2.2 * e + 5 or min(seen.values()) < 0.25 * e - 5:
            bad("spread", what + "uneven: %r" % seen)
    elif len(seen) < 0.5 * min(m, len(item["names"])) * (0.8 if m > 200 else 1):
        bad("spread", what + "only %d of %d combinations occur" % (len(seen), m))
    return {"violations": v, "counts": {"spread-names": len(item["names"])}, "fps": ["%s/%s" % (n, scheds) for n in item["names"]],
            "sample": {"schedule": scheds, "names": len(item["names"]), "values": {str(a): b for a, b in sorted(seen.items())}} if i == PROC + VARY + 13 else None}


def run_decode(item, i, ctx, root, v, bad):
    counts = {"decoded": 0, "steps": 0, "ranges": 0, "words": 0, "random": 0, "stable": 0}
    values, offs, fps, sample = {}, {}, [], []

    def check_off(n, g, what):
        if offs.setdefault(n, g[1]) != g[1]:
            bad("offset", "%s: sub-second part %d us, before %d us" % (what, g[1], offs[n]))

    for jobs in item["rounds"]:
        # several evaluations at the first time show different values of random fields
        obs = sched.observe(root, jobs, item["times"] + [item["times"][0]])
        if isinstance(obs, str):
            bad("failed", "%s: %r" % (obs, jobs))
            return {"violations": v}
        for n, j in jobs.items():
            s = WORDS.get(j["schedule"], j["schedule"])
            f = s.split(" ")
            if len(f) == 5:
                f.append("H")
            gs = [o[n] for o in obs]
            what = "job %r, schedule %r" % (n, j["schedule"])
            if None in gs:
                bad("none", what + ": no next run")
                continue
            ms = [ITEM.match(x) for x in f]
            for g in gs:
                check_off(n, g, what)
                p = parts(g[0])
                for k, m in enumerate(ms):
                    if m:
                        lo, hi = bounds(k, m)
                        if not (min(lo, 28) if f[k] in ("H", "R") and k == 2 else lo) <= p[k] <= hi:
                            bad("range", "%s: next run %d has a field %d of %d" % (what, g[0], k, p[k]))
            if any(m and m.group(1) == "R" for m in ms):
                counts["random"] += len(gs)
                continue
            # read the resolved values off the first answer
            p = parts(gs[0][0])
            plain = list(f)
            for k, m in enumerate(ms):
                if not m:
                    continue
                lo, hi = bounds(k, m)
                if m.group(4):
                    o = (p[k] - lo) % int(m.group(4))
                    plain[k] = "%d-%d/%s" % (lo + o, hi, m.group(4))
                    val = o
                    counts["steps"] += 1
                else:
                    val = p[k]
                    plain[k] = str(val)
                    counts["ranges"] += bool(m.group(2))
                if k == 2 and f[k] == "H" and f[3] != "*":
                    continue
                key = (n, k, f[k])
                if values.setdefault(key, val) != val:
                    bad("unstable", "%s: field %r resolves to %d, before to %d" % (what, f[k], val, values[key]))
                counts["stable"] += 1
            c = cronref.Cron(" ".join(plain), "UTC")
            for t, g in zip(item["times"] + [item["times"][0]], gs):
                w = c.next(t)
                if w is None or not (w <= g[0] <= w + (1 if g[1] == 0 else 0)):
                    bad("pattern", "%s: next run %r at %.6f, but %r at %.6f, which does not fit %r (expected %r)" % (
                        what, gs[0], item["times"][0], g, t, " ".join(plain), w))
                    break
                counts["decoded"] += 1
            fps.append("%s/%s" % (n, j["schedule"]))
            if len(sample) < 3:
                sample.append({"job": n, "schedule": j["schedule"], "resolved": " ".join(plain), "next runs": gs})
    obs = [sched.observe(root, w, item["times"]) for w in item["words"]]
    for a in obs:
        if isinstance(a, str):
            bad("failed", a)
            return {"violations": v}
    for q, t in enumerate(item["times"]):
        for n in item["names"]:
            for o, w in zip(obs[1:], item["words"][1:]):
                counts["words"] += 1
                if o[q][n] != obs[0][q][n]:
                    bad("word", "job %r at %.6f: %r next runs at %r, %r at %r" % (n, t, item["words"][0][n]["schedule"], obs[0][q][n],
                                                                                  w[n]["schedule"], o[q][n]))
    return {"violations": v, "counts": counts, "fps": fps, "sample": sample if i == PROC + VARY + len(SPREAD) else None}
