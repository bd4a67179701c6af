"""Random scenarios for the simulated world: semantic configurations, their files, and event scripts."""
import datetime
import json
import os
import random
import signal
import zoneinfo

import yaml

import cronref

TZS = ["UTC", "America/New_York", "Europe/Berlin", "Asia/Kolkata", "Australia/Adelaide", "Asia/Kathmandu",
       "Pacific/Chatham", "America/St_Johns", "Asia/Tokyo", "America/Los_Angeles", "Pacific/Kiritimati",
       "Pacific/Pago_Pago"]
NAMES = ["a", "job-1", "A B", "x.y", "@home", "+1", "..a", "-n", "_", "J:1", "n" * 64, "...", " lead",
         "trail ", "b", "c", "Z", "0", "nightly backup", "mail@host:25", "a.b+c-d_e", "x" * 63 + ".", "jenkins",
         "é"[:0] + "prod", "stage", "runs", "trigger", "~"[:0] + "t1", "t2"]
GNAMES = ["g", "host-a", "db lock", "G:1", "@g", "pool.1"]


def start_time(rng, tzs, span_days=3):
    for _ in range(10000):
        t = rng.randrange(1546300800, 1893456000)
        if all(cronref.dst_free(z, t, 2 * 86400, (span_days + 9) * 86400, 43200) for z in tzs):
            return t + rng.choice([0, 0.0, rng.random()])
    raise RuntimeError("no start time")


def dst_start_time(rng, tzs, span):
    """A start some time before the first of the zones changes its UTC offset, within the span."""
    for _ in range(10000):
        t = rng.randrange(1546300800, 1893456000)
        if any(cronref.dst_free(z, t, 0, 3600 * 9, 3600) and not cronref.dst_free(z, t, 0, span * 0.7, 3600) for z in tzs):
            return t
    return None


def midday_cron(rng):
    """Daily occurrences far from any hour in which clocks change."""
    m, s = str(rng.randrange(60)), str(rng.randrange(60))
    h = ",".join(str(x) for x in sorted(rng.sample(range(9, 22), rng.randrange(1, 5))))
    return "%s %s * * %s %s" % (m, h, rng.choice(["*", "*", "*", "0-6", "1-5", "0,1,2"]), s)


def fast_cron(rng):
    """Several occurrences per hour; 6 fields."""
    k = rng.randrange(9)
    s = str(rng.randrange(60))
    if k == 0:
        return "* * * * * " + s
    if k == 1:
        return "*/%d * * * * %s" % (rng.choice([2, 3, 5, 10, 7, 15]), s)
    if k == 2:
        return "* * * * * " + ",".join(map(str, sorted(rng.sample(range(60), rng.randrange(2, 5)))))
    if k == 3:
        a = rng.randrange(0, 30)
        return "%d-%d * * * * %s" % (a, a + rng.randrange(1, 29), s)
    if k == 4:
        return ",".join(map(str, sorted(rng.sample(range(60), rng.randrange(3, 12))))) + " * * * * " + s
    if k == 5:
        return "* * * * * */%d" % rng.choice([10, 15, 20, 30, 7])
    if k == 6:
        a = rng.randrange(0, 40)
        return "* * * * * %d-%d/%d" % (a, a + 19, rng.choice([5, 7, 10]))
    if k == 7:
        return "%d-59/%d * * * * %s" % (rng.randrange(0, 9), rng.choice([4, 6, 9, 11]), s)
    return "* * * * %s %s" % (rng.choice(["*", "0-6", "1-5", "0,6", "1-5,6", "*/2"]), s)


def slow_cron(rng):
    m, s = str(rng.randrange(60)), str(rng.randrange(60))
    k = rng.randrange(8)
    if k == 0:
        return "%s * * * * %s" % (m, s)
    if k == 1:
        return "%s */%d * * * %s" % (m, rng.choice([2, 3, 5]), s)
    if k == 2:
        return "%s %d * * * %s" % (m, rng.randrange(24), s)
    if k == 3:
        return "%s %d * * %d %s" % (m, rng.randrange(24), rng.randrange(0, 7), s)
    if k == 4:
        return "%s %d %d * * %s" % (m, rng.randrange(24), rng.randrange(1, 29), s)
    if k == 5:
        return "%s %d-%d * * 1-5 %s" % (m, rng.randrange(0, 9), rng.randrange(9, 20), s)
    if k == 6:
        return "%s %d %d * %d %s" % (m, rng.randrange(24), rng.randrange(1, 29), rng.randrange(0, 7), s)
    return "0 %d */2 * * 0" % rng.randrange(24)


def rrule(rng):
    """(rule text, equivalent cron)"""
    k = rng.randrange(4)
    s = rng.randrange(60)
    mins = sorted(rng.sample(range(60), rng.randrange(1, 8)))
    if k == 0:
        return ("RRULE:FREQ=HOURLY;BYMINUTE=%s;BYSECOND=%d" % (",".join(map(str, mins)), s),
                "%s * * * * %d" % (",".join(map(str, mins)), s))
    if k == 1:
        return "RRULE:FREQ=MINUTELY;BYSECOND=%d" % s, "* * * * * %d" % s
    if k == 2:
        ss = sorted(rng.sample(range(60), 3))
        return ("rrule:FREQ=MINUTELY;BYSECOND=%s" % ",".join(map(str, ss)),
                "* * * * * %s" % ",".join(map(str, ss)))
    h = rng.randrange(24)
    return ("RRULE:FREQ=DAILY;BYHOUR=%d;BYMINUTE=%s;BYSECOND=%d" % (h, ",".join(map(str, mins)), s),
            "%s %d * * * %d" % (",".join(map(str, mins)), h, s))


def schedule(rng, prof, five):
    """fills sched, cron"""
    slow = rng.random() < prof.get("p_slow", 0.1)
    if not five and rng.random() < prof.get("p_rrule", 0.15):
        a, b = rrule(rng)
        if slow or "DAILY" not in a:
            return {"sched": a, "cron": b}
    c = midday_cron(rng) if prof.get("dst") else slow_cron(rng) if slow else fast_cron(rng)
    if five:
        c = " ".join(c.split(" ")[:5])
        if rng.random() < 0.3 and c.endswith("* * *"):
            pass
    return {"sched": c, "cron": c}


def pick(rng, w):
    """weighted choice from [(weight, value)]"""
    x = rng.random() * sum(a for a, _ in w)
    for a, v in w:
        x -= a
        if x <= 0:
            return v
    return w[-1][1]


def make_job(rng, prof, name, five, tzs, gnames):
    j = {"argv": ["cmd-%d" % rng.randrange(100)] + ["arg %d" % i for i in range(rng.randrange(3))]}
    j["argv"][0] = "/bin/true"
    if rng.random() < prof.get("p_sched", 0.85):
        j.update(schedule(rng, prof, five))
        if rng.random() < prof.get("p_tz", 0.3):
            j["tz"] = rng.choice(tzs)
    else:
        j["sched"] = None
    if gnames and rng.random() < prof.get("p_groups", 0.4):
        j["groups"] = rng.sample(gnames, rng.randrange(1, min(prof.get("max_groups", 3), len(gnames)) + 1))
    if rng.random() < prof.get("p_concurrent", 0.25):
        j["concurrent"] = True
    if rng.random() < prof.get("p_limit", 0.25):
        j["max_exec"] = pick(rng, [(2, rng.randrange(1, 60)), (2, round(rng.uniform(0.5, 90), 2)),
                                   (1, rng.randrange(60, 200)),
                                   (prof.get("p_daylong", 0.05), rng.randrange(86000, 200000))])
        if rng.random() < 0.7:
            j["grace"] = pick(rng, [(2, rng.randrange(1, 20)), (1, round(rng.uniform(1, 70), 1)), (0.5, 60),
                                    (0.7, round(rng.uniform(0.2, 1), 2)), (0.1, 86400 + rng.randrange(100))])
    if rng.random() < 0.2:
        j["append_run"] = True
    if rng.random() < 0.2:
        j["env"] = {"JOBVAR": "v %d" % rng.randrange(9)}
    if rng.random() < 0.4:
        j["env"] = dict(j.get("env", {}), VP_J=str(rng.randrange(1000)))
        if rng.random() < 0.3:
            j["env"]["VP_G"] = "of the job"
    return j


def make_cfg(rng, prof, names, five, tzs, gnames):
    cfg = {"jobs": {}, "groups": {}}
    for n in names:
        cfg["jobs"][n] = make_job(rng, prof, n, n in five, tzs, gnames)
    for g in gnames:
        if rng.random() < 0.7:
            cfg["groups"][g] = min(pick(rng, [(3, 1), (3, 2), (1, 3), (1, 5)]), prof.get("max_max", 5))
    if rng.random() < prof.get("p_kill", 0.3):
        cfg["kill_runs"] = True
    if rng.random() < prof.get("p_kill_grace", 0.5):
        cfg["kill_grace"] = pick(rng, [(2, rng.randrange(1, 30)), (1, round(rng.uniform(0.5, 80), 2))])
    if rng.random() < 0.4:
        cfg["env"] = {"VP_G": str(rng.randrange(1000))}
    return cfg


DATABASE = None  # database settings of all configurations


def raw(cfg):
    """The configuration document of a semantic configuration."""
    out = {"data_dir": "@ROOT@/var", "jobs": {}}
    if DATABASE is not None:
        out["database"] = DATABASE
    for n, j in cfg["jobs"].items():
        d = {"command": list(j["argv"])}
        if j.get("sched") is not None:
            d["schedule"] = j["sched"]
        for a, b in (("tz", "schedule_timezone"), ("groups", "concurrency_groups"), ("concurrent", "concurrent_runs"),
                     ("max_exec", "max_execution"), ("grace", "max_execution_grace"),
                     ("append_run", "command_append_run"), ("env", "environment"), ("jenkins", "jenkins_environment")):
            if a in j:
                d[b] = j[a]
        out["jobs"][n] = d
    if cfg.get("groups"):
        out["concurrency_groups"] = {g: {"max": m} for g, m in cfg["groups"].items()}
    for a, b in (("kill_runs", "shutdown_kill_runs"), ("kill_grace", "shutdown_kill_grace"), ("env", "environment"),
                 ("data_dir", "data_dir"), ("database", "database")):
        if a in cfg:
            out[b] = cfg[a]
    return out


def files(cfg, rng=None):
    doc = raw(cfg)
    if rng is None or rng.random() < 0.6:
        return {"dsari.json": json.dumps(doc), "dsari.yaml": None}
    return {"dsari.yaml": yaml.safe_dump(doc, allow_unicode=True), "dsari.json": None}


BADSCHED = ["nonsense", "", " ", "* * * *", "60 * * * *", "* 24 * * *", "* * 32 * *", "* * * 13 *", "* * * * 8", "a b c d e",
            "* * * * FOO", "*/0 * * * *", "* * * * * 60", "-1 * * * *", "1.5 * * * *", "H(0-60) * * * * *x", "H(5- * * * *", "@bogus", "@", "RRULE:",
            "RRULE:FREQ=BOGUS", "RRULE:BYHOUR=3", "RRULE:FREQ=DAILY;BYDAY=XX", "RRULE:FREQ=DAILY;BYHOUR=x", "RRULE:FREQ=DAILY;NOPE=1",
            "RRULE:FREQ=DAILY;INTERVAL=x", "RRULE:FREQ=DAILY;INTERVAL=0", "rrule:freq=secondly;interval=-1", "RRULE:FREQ=SECONDLY;INTERVAL=0", "RRULE:FREQ=HOURLY;INTERVAL=-3", "RRULE:FREQ=DAILY;UNTIL=never", "RRULE FREQ=DAILY", "* * * * * * * * *", "1;2 * * * *", "every day", "5", "R(50-70) * * * *", "0 R(12-36) * * *", "0 0 R(0-20) * *", "R(40-80) R(20-30) * * * R(1-100)"]
BROKEN = [
    lambda d: "{",
    lambda d: json.dumps(dict(d, jobs={"bad/name": {"command": ["x"]}})),
    lambda d: json.dumps(dict(d, jobs=dict(d["jobs"], zz={"schedule": "* * * * *"}))),
    lambda d: json.dumps(dict(d, jobs=dict(d["jobs"], zz={"command": "x", "schedule": "nonsense"}))),
    lambda d: json.dumps(dict(d, shutdown_kill_runs="yes")),
    lambda d: json.dumps([1, 2, 3]),
    lambda d: json.dumps(dict(d, jobs=dict(d["jobs"], zz={"command": "x", "max_execution": "long"}))),
    lambda d: json.dumps(dict(d, jobs=dict(d["jobs"], zz={"command": "unbalanced ' quote"}))),
    lambda d: b"\xff\xfe\x00",
    lambda d: "",
    lambda d: json.dumps(dict(d, jobs=None)),
    lambda d: json.dumps(dict(d, environment={"A": ["x"]})),
    lambda d: json.dumps(dict(d, jobs=dict(d["jobs"], zz=5))),
    lambda d: json.dumps(dict(d, concurrency_groups={"a/b": {}})),
    lambda d: json.dumps(dict(d, job_groups={"jg": {"command": "x"}})),
    lambda d: json.dumps(dict(d, data_dir=5)),
] + [
    (lambda d, s=s: json.dumps(dict(d, jobs=dict(d["jobs"], zz={"command": "x", "schedule": s})))) for s in BADSCHED
]


def duration(rng, prof):
    return pick(rng, prof.get("durs") or [
        (3, round(rng.uniform(0.01, 2), 3)), (3, round(rng.uniform(2, 30), 2)), (3, round(rng.uniform(30, 120), 1)),
        (1, round(rng.uniform(120, 500), 1))])


def status(rng):
    return pick(rng, [(6, 0), (2, 1 << 8), (1, rng.randrange(1, 256) << 8), (0.5, rng.choice([1, 6, 9, 11, 15, 34, 63, 64])),
                      (0.5, rng.choice([3, 6, 11]) | 0x80)])


def behaviour(rng, prof):
    out = []
    for _ in range(rng.randrange(1, 5)):
        b = {"dur": duration(rng, prof), "status": status(rng)}
        k = rng.random()
        if k < 0.4:
            b["term"] = {"mode": "ignore"}
        elif k < 0.7:
            b["term"] = {"mode": "catch", "delay": round(rng.uniform(0.01, 25), 2), "status": rng.choice([0, 256, 143 << 8])}
        elif k < 0.8:
            b["term"] = {"mode": "die", "delay": round(rng.uniform(0.001, 3), 3)}
        if rng.random() < 0.2:
            b["kill_delay"] = round(pick(rng, [(2, rng.uniform(0.001, 2.5)), (1, rng.uniform(2.5, 45))]), 3)
        if rng.random() < 0.15:
            b["output"] = [(1, "out %d\n" % rng.randrange(99)), (2, "err\n")]
        out.append(b)
    return out


def text_time(rng, t, local):
    """A date-time text for whole-second epoch t and what else it needs: (text, tz name or None)"""
    k = rng.randrange(4)
    if k == 0:  # local time of the daemon
        tz, zone = None, local
    elif k == 1:
        zone = tz = rng.choice(TZS)
    elif k == 2:  # explicit offset
        off = rng.choice([0, 60, -300, 330, 345, -210, 765])
        d = datetime.datetime.fromtimestamp(t, datetime.timezone(datetime.timedelta(minutes=off)))
        s = d.isoformat()
        if off == 0 and rng.random() < 0.5:
            s = s.replace("+00:00", "Z")
        return s, (rng.choice(TZS) if rng.random() < 0.5 else None)
    else:
        tz, zone = None, local
    d = datetime.datetime.fromtimestamp(t, zoneinfo.ZoneInfo(zone))
    d = d.replace(tzinfo=None)
    f = rng.randrange(5)
    if f == 0:
        s = d.isoformat()
    elif f == 1:
        s = d.strftime("%Y-%m-%d %H:%M:%S")
    elif f == 2:
        s = d.strftime("%d %b %Y %H:%M:%S")
    elif f == 3:
        s = d.strftime("%Y%m%dT%H%M%S")
    else:
        s = d.isoformat() + ".250000"
    return s, tz


def frac_of(s):
    return 0.25 if s.endswith(".250000") else 0.0


def data_value(rng, depth=0):
    k = rng.randrange(9 if depth < 2 else 6)
    if k == 0:
        return rng.randrange(-10, 10 ** 12)
    if k == 1:
        return rng.choice([True, False, None])
    if k == 2:
        return round(rng.uniform(-1e6, 1e6), 4)
    if k in (3, 4, 5):
        return rng.choice(["", "x", "two words", "<b>&amp;</b>", "ünï☃", "line\nbreak", "1", "null", "🎉", "'\"\\"])
    if k == 6:
        return [data_value(rng, depth + 1) for _ in range(rng.randrange(4))]
    return {rng.choice(["k", "key 2", "ключ", "x"]) + str(i): data_value(rng, depth + 1) for i in range(rng.randrange(4))}


def trigger(rng, t, tid, job, prof, local):
    """A well-formed trigger event placed at absolute time t."""
    # without an environment nothing tells which trigger a run is of, but its time
    bare = rng.random() < prof.get("p_bare", 0.08)
    d = {} if bare else {"environment": {"VP_TID": tid}}
    due = None
    k = rng.random()
    pt = prof.get("p_trigger_time", 0.45)
    if k < pt:
        off = pick(rng, [(2, rng.uniform(0, 20)), (3, rng.uniform(20, 400)), (1, rng.uniform(400, 2000)),
                         (1, -rng.uniform(0, 5000)), (0.7, -rng.uniform(0, 400) * 86400)])
        x = t + off
        m = rng.randrange(3)
        if m < 2 and rng.random() < 0.12:
            x = rng.choice([0, 1, -5, 0.25])
        if m == 0:
            d["schedule_time"] = int(x)
            due = float(int(x))
        elif m == 1:
            d["schedule_time"] = round(x, 3)
            due = d["schedule_time"]
        else:
            s, tz = text_time(rng, int(x), local)
            d["schedule_time"] = s
            due = int(x) + frac_of(s)
            if tz:
                d["schedule_timezone"] = tz
        if m < 2 and rng.random() < 0.3:
            d["schedule_timezone"] = rng.choice(TZS)
    elif rng.random() < 0.15:
        d["schedule_timezone"] = rng.choice(TZS)
    if not bare and rng.random() < 0.15:
        d["environment"]["X_EMPTY"] = ""
    if not bare and rng.random() < 0.1:
        d["environment"].update({"VP_J": "of the trigger", "LANG": rng.choice(["C", "de_DE.UTF-8"])})
    if not bare and rng.random() < 0.3:
        d["environment"]["X_INT"] = rng.randrange(100)
        d["environment"]["X F"] = rng.choice([1.5, 0.25, 100.0])
        d["environment"]["ÜNI"] = "wört ☃"
    if rng.random() < 0.4:
        d["data"] = data_value(rng)
    if rng.random() < 0.3:
        d["description"] = data_value(rng)
    ext = rng.choice(["json", "json", "yaml"])
    if ext == "json":
        c = json.dumps(d, ensure_ascii=rng.random() < 0.5)
    else:
        c = yaml.safe_dump(d, allow_unicode=rng.random() < 0.5)
        if yaml.safe_load(c) != d:
            ext, c = "json", json.dumps(d)
    rec = dict(d)
    if not bare:
        rec["environment"] = {k: (v if isinstance(v, str) else str(v)) for k, v in d["environment"].items()}
    e = {"op": "trigger", "job": job, "ext": ext, "tid": tid, "content": c,
         "meta": {"ok": True, "due": due, "env": rec.get("environment", {}), "bare": bare}}
    if rng.random() < prof.get("p_mtime", 0.12):
        e["mtime_off"] = round(pick(rng, [(2, rng.uniform(-3 * 86400, -3600)), (2, rng.uniform(-3600, 0)),
                                          (2, rng.uniform(0, 300))]), 3)
    elif rng.random() < prof.get("p_mtime_same", 0.08):
        # as with cp -p: the same for several triggers
        e["mtime_abs"] = int(t) // 1000 * 1000 - 1000
    return e, rec


def scenario(rng, prof, check=None):
    """A random history.  prof: weights; see the defaults below."""
    tzs = [rng.choice(TZS) for _ in range(2)]
    local = rng.choice(tzs)
    dur = pick(rng, prof.get("spans") or [(5, rng.uniform(600, 1800)), (2, rng.uniform(1800, 4500))])
    t0 = dst_start_time(rng, tzs, dur) if prof.get("dst") else None
    if t0 is None:
        t0 = start_time(rng, tzs, int(dur // 86400) + 2)
    nj = pick(rng, prof.get("njobs") or [(1, 1), (2, 2), (3, 3), (2, 4), (1, 6)])
    pool = rng.sample(sorted(set(n for n in NAMES if n)), nj + 3)
    five = {n for n in pool if rng.random() < 0.3}
    gnames = rng.sample(GNAMES, rng.choice(prof.get("ngroups", (0, 1, 2, 3)))) if rng.random() < prof.get("p_anygroups", 0.7) else []
    cfg = make_cfg(rng, prof, pool[:nj], five, tzs, gnames)
    cfgs = {"c0": cfg}
    cfiles = files(cfg, rng)
    ev = []
    prob_hup = prof.get("hups", 0.4)
    disk = "c0"
    eff = cfg
    t = rng.uniform(20, 200)
    n = 0
    hup_times = []
    if rng.random() < prob_hup:
        for _ in range(rng.randrange(1, prof.get("max_hups", 4) + 1)):
            if t > dur - 30:
                break
            n += 1
            cid = "c%d" % n
            k = rng.random()
            if k < 0.15:
                cid = disk  # nothing changed
            elif k < 0.3:
                cfgs[cid] = {"broken": True}
                # other changes come before what is wrong with it
                doc = raw(mutate(rng, prof, eff, pool, five, tzs, gnames) if rng.random() < 0.6 else eff)
                txt = rng.choice(BROKEN[:16] if rng.random() < 0.6 else BROKEN[16:])(doc)
                fl = {"dsari.json": txt, "dsari.yaml": None}
                ev.append({"t": t, "op": "config", "cid": cid, "files": fl})
            else:
                new = mutate(rng, prof, eff, pool, five, tzs, gnames)
                cfgs[cid] = new
                eff = new
                ev.append({"t": t, "op": "config", "cid": cid, "files": files(new, rng)})
            disk = cid
            th = t + rng.uniform(0.1, 5)
            hup_times.append(th)
            ev.append({"t": th, "op": "signal", "sig": int(signal.SIGHUP)})
            if rng.random() < 0.2:
                ev.append({"t": th + rng.choice([0.0005, 0.01, 0.4, 1.2]), "op": "signal", "sig": int(signal.SIGHUP)})
            if rng.random() < 0.4:
                ev.append({"t": th + rng.choice([0.05, 1.5, 4.0, rng.uniform(0, 60)]), "op": "signal", "sig": int(signal.SIGQUIT)})
            t = th + rng.uniform(20, 400)
    # triggers
    data = {}
    nt = pick(rng, prof.get("ntrig") or [(1, 0), (3, rng.randrange(1, 6)), (2, rng.randrange(6, 20))])
    alljobs = sorted(set(x for c in cfgs.values() for x in c.get("jobs", {})))
    at = 0
    for i in range(nt):
        k = rng.random()
        if k < 0.2 and i:
            at = at + rng.uniform(0, 3)
        elif k < 0.3 and hup_times:
            at = rng.choice(hup_times) + rng.uniform(-2, 4)
        else:
            at = rng.uniform(0, dur - 5)
        at = max(0.5, min(at, dur - 1))
        e, rec = trigger(rng, t0 + at, "t%d" % i, rng.choice(alljobs), prof, local)
        e["t"] = at
        data[e["tid"]] = rec
        ev.append(e)
        if e["meta"]["bare"] and rng.random() < prof.get("p_twin", 0.4):
            # the very same once more
            e2 = dict(e, tid="t%db" % i, t=min(at + rng.choice([0.0, 1.0, 5.0, rng.uniform(0, 90)]), dur - 0.5))
            data[e2["tid"]] = rec
            ev.append(e2)
        if rng.random() < prof.get("p_usr1", 0.3):
            ev.append({"t": at + rng.choice([0.0001, 0.3, 2, 10]), "op": "signal", "sig": int(signal.SIGUSR1)})
    for _ in range(rng.randrange(0, 3)):
        ev.append({"t": rng.uniform(1, dur - 1), "op": "signal",
                   "sig": int(rng.choice([signal.SIGQUIT, signal.SIGUSR1]))})
    pre = []
    if rng.random() < 0.15:
        e, rec = trigger(rng, t0, "p0", rng.choice(sorted(cfg["jobs"])), dict(prof, p_trigger_time=0.2), local)
        data["p0"] = rec
        pre.append(e)
    # the end
    sig = int(rng.choice([signal.SIGTERM, signal.SIGTERM, signal.SIGINT]))
    ev.append({"t": dur, "op": "signal", "sig": sig})
    if rng.random() < 0.3:
        ev.append({"t": dur + rng.uniform(0.01, 30), "op": "signal",
                   "sig": int(rng.choice([signal.SIGTERM, signal.SIGINT, signal.SIGUSR1, signal.SIGQUIT]))})
    if rng.random() < prof.get("p_hup_down", 0.15):
        for _ in range(rng.randrange(1, 3)):
            ev.append({"t": dur + rng.uniform(0.01, 40), "op": "signal", "sig": int(signal.SIGHUP)})
    if rng.random() < 0.4 and cfg["jobs"]:
        for i in range(rng.randrange(1, 3)):
            e, rec = trigger(rng, t0 + dur, "z%d" % i, rng.choice(alljobs), prof, local)
            e["t"] = dur + rng.uniform(-1, 20)
            data[e["tid"]] = rec
            ev.append(e)
    ev.sort(key=lambda e: e["t"])
    return {
        "seed": rng.randrange(1 << 30), "start": t0, "end": dur, "slack": prof.get("slack", 3000 + 1200), "tz": local,
        "config_files": cfiles, "cid0": "c0", "model": cfgs, "events": ev,
        "behaviour": {n: behaviour(rng, prof) for n in pool},
        "trigger_data": data, "precreate_triggers": pre, "environ": {"PATH": "/usr/bin:/bin"},
        "cpu_limit": 90,
    }


def mutate(rng, prof, cfg, pool, five, tzs, gnames):
    """A changed configuration: jobs added, removed, changed; groups changed or gone."""
    names = [n for n in cfg["jobs"] if rng.random() > 0.25]
    for n in pool:
        if n not in names and rng.random() < 0.25:
            names.append(n)
    if not names:
        names = [rng.choice(pool)]
    new = {"jobs": {}, "groups": dict(cfg.get("groups", {}))}
    for n in names:
        if n in cfg["jobs"] and rng.random() < 0.6:
            j = dict(cfg["jobs"][n])
            k = rng.random()
            if k < 0.15:
                j.pop("env", None)
            elif k < 0.3:
                j["env"] = {"VP_J": str(rng.randrange(1000))}
            if rng.random() < 0.4:
                j["argv"] = ["/bin/true", "v%d" % rng.randrange(1000)]
            if rng.random() < 0.2 and gnames:
                j["groups"] = rng.sample(gnames, rng.randrange(0, len(gnames) + 1))
            if rng.random() < 0.15:
                j["concurrent"] = not j.get("concurrent", False)
            new["jobs"][n] = j
        else:
            new["jobs"][n] = make_job(rng, prof, n, n in five, tzs, gnames)
    for g in list(new["groups"]):
        k = rng.random()
        if k < 0.15:
            del new["groups"][g]
        elif k < 0.35:
            new["groups"][g] = rng.randrange(1, 4)
    for k in ("kill_runs", "kill_grace", "env"):
        if k in cfg:
            new[k] = cfg[k]
    k = rng.random()
    if k < 0.15:
        new.pop("env", None)
    elif k < 0.3:
        new["env"] = {"VP_G": str(rng.randrange(1000))}
    if rng.random() < 0.08:
        for j in new["jobs"].values():
            j["sched"] = None
    return new
