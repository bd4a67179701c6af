"""SIGQUIT outputs the daemon's status, truly, and changes nothing."""
import datetime
import random
import re
import signal

import gen
import model
import simcheck

RULE = ("one evaluation = one recorded history of the real daemon with SIGQUITs at many moments; distinct = different "
        "sequence of events; histories in which no run was in progress or pending at a SIGQUIT are not counted")
NEED = {"quits": 600, "in-progress-listed": 400, "pending-listed": 600, "quits-in-shutdown": 40, "grouped-listed": 150}
ASSUMPTIONS = ["simulated processes, clock and signals behave as the kernel's do",
               "status is written to standard output or error within 3 s"]
QUICK = 200
THOROUGH = 5000
W = 3.0
PROF = [
    {"durs": [(2, 20.0), (3, 75.5), (3, 130.0), (2, 400.0), (1, 0.5)]},
    {"durs": [(2, 75.5), (2, 300.0)], "p_anygroups": 1, "p_groups": 0.8, "p_concurrent": 0.6, "ntrig": [(1, 25)]},
    {"ntrig": [(1, 15)], "p_trigger_time": 0.8, "hups": 0},
    {"hups": 1, "max_hups": 6, "durs": [(2, 20.0), (3, 75.5), (2, 400.0)]},
    {"dst": True},
]
QUIT = int(signal.SIGQUIT)


def setup(ctx):
    simcheck.prepare(ctx)


def case(i, rng, ctx):
    scn = gen.scenario(rng, PROF[i % len(PROF)], "S09")
    ev = [e for e in scn["events"] if not (e["op"] == "signal" and e["sig"] == QUIT)]
    dur = scn["end"]
    ts = [rng.uniform(1, dur) for _ in range(rng.randrange(2, 10))]
    ts += [dur + rng.uniform(0.5, 60) for _ in range(rng.randrange(0, 3))]
    near = [e["t"] for e in ev]
    ts += [rng.choice(near) + rng.choice([-3.5, -0.01, 0.01, 1.0, 4.0, 10.0]) for _ in range(rng.randrange(0, 5))]
    last = -99
    for t in sorted(ts):
        if t > last + 2 * W and t > 0.5:
            ev.append({"t": t, "op": "signal", "sig": QUIT})
            last = t
            if rng.random() < 0.1:
                ev.append({"t": t + rng.choice([0.0001, 0.05]), "op": "signal", "sig": QUIT})
    ev.sort(key=lambda e: e["t"])
    scn["events"] = ev
    scn["record_log"] = True
    if rng.random() < 0.2:
        scn["args"] = ["--debug"]
    return scn


TIME = re.compile(r"(\d{4})-(\d\d)-(\d\d)[ T](\d\d):(\d\d)(?::(\d\d)(?:\.\d+)?)?(?:\s*(Z|[+-]\d\d:?\d\d(?::?\d\d)?))?")


def says(line, t):
    """Does the line give the moment t?"""
    for m in TIME.finditer(line):
        try:
            d = datetime.datetime(*[int(x or 0) for x in m.groups()[:6]], tzinfo=datetime.timezone.utc)
        except ValueError:
            continue
        d = (d - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)).total_seconds()
        off = m.group(7)
        if off is None:
            # in some timezone
            x = (d - t + 1) % 900
            if x < 2 and abs(d - t) < 16 * 3600:
                return True
            continue
        if off != "Z":
            x = [int(y) for y in re.findall(r"\d\d", off)] + [0]
            d -= (x[0] * 3600 + x[1] * 60 + x[2]) * (-1 if off[0] == "-" else 1)
        if abs(d - t) < 1.1:
            return True
    for m in re.finditer(r"\d+(?:\.\d+)?", line):
        if abs(float(m.group()) - t) < 1.1:
            return True
    return False


def status(c, scn, res, n):
    """Judges every status output of a history."""
    log = res["log"]
    hups = [t for t, _ in c.hups]
    ends = [e["t"] for e in res["hist"] if e["e"] == "sig" and e["sig"] in (signal.SIGTERM, signal.SIGINT)]
    end = min(ends) if ends else None
    gone = res["exit"]["t"]
    consumed = {e["tid"]: e["t"] for e in res["hist"] if e["e"] == "consumed"}
    out = []
    quits = [e["t"] for e in res["hist"] if e["e"] == "sig" and e["sig"] == QUIT]
    debug = "--debug" in scn.get("args", [])
    for q in quits:
        if q + W > gone:
            continue
        n["quits"] = n.get("quits", 0) + 1
        down = end is not None and q > end
        if down:
            n["quits-in-shutdown"] = n.get("quits-in-shutdown", 0) + 1
        txt = "".join(s for t, s in log if q <= t <= q + W)
        lines = txt.split("\n")

        def bad(what, **k):
            out.append(dict(k, labels=("S09",), key=what.split(":")[0], at=q - scn["start"],
                            what="%s (SIGQUIT at +%.3f)" % (what, q - scn["start"]), output=lines[:60]))

        going = [r for r in c.runs if r.t < q - 0.01 and (r.reap is None or r.reap > q + W)]
        for r in going:
            mine = [x for x in lines if r.id in x and r.job in x]
            if not any(re.search(r"(?<!\d)%d(?!\d)" % r.pid, x.replace(r.id, "")) for x in mine):
                bad("run in progress not listed: %s %s PID %d" % (r.job, r.id, r.pid))
                continue
            n["in-progress-listed"] = n.get("in-progress-listed", 0) + 1
            if not any(says(x, r.start) for x in mine if r.start):
                bad("run in progress without its start time: %s %s" % (r.job, r.id), start=r.start, line=mine)
            if r.group is None:
                continue
            same = [x for x in c.runs if x.group == r.group]
            if any(q - 0.01 <= y <= q + W for x in same for y in (x.t, x.reap) if y is not None):
                continue
            want = len([x for x in same if x in going])
            m = [m for x in mine if r.group in x for m in [re.search(r"(\d+) out of (\d+)", x)] if m]
            if not m:
                bad("run in progress without its concurrency group: %s %s" % (r.job, r.id), group=r.group)
            elif int(m[0].group(1)) != want:
                bad("wrong number of runs in a concurrency group: %s" % r.group, got=m[0].group(), want=want)
            elif not hups and int(m[0].group(2)) != scn["model"][scn["cid0"]].get("groups", {}).get(r.group, 1):
                bad("wrong maximum of a concurrency group: %s" % r.group, got=m[0].group())
            else:
                n["grouped-listed"] = n.get("grouped-listed", 0) + 1
        if not debug:
            for r in c.runs:
                if r.reap is not None and r.reap < q - 0.1 and r.id in txt:
                    bad("run listed that is over: %s %s" % (r.job, r.id))
        for r in c.runs:
            if r.t <= q + W or r.failed or r.st is None:
                continue
            if r.ttype == "file":
                if r.tid is None or consumed.get(r.tid, 1e18) > q - 0.5:
                    continue
                if sum(1 for x in c.runs if x.tid == r.tid) != 1:
                    continue
            else:
                if any(q - W - 0.5 <= h <= r.t for h in hups):
                    continue
                if any(x.job == r.job and q - 0.5 <= x.t < r.t for x in c.runs):
                    continue
            mine = [x for x in lines if r.id in x and r.job in x]
            if not mine:
                bad("pending run not listed: %s %s, started %.3f s later" % (r.job, r.id, r.t - q))
            elif not any(says(x, r.st) for x in mine):
                bad("pending run listed without its time: %s %s" % (r.job, r.id), schedule_time=r.st, line=mine)
            else:
                n["pending-listed"] = n.get("pending-listed", 0) + 1
    return out


def run(scn, i, ctx):
    res = simcheck.run_scn(ctx, scn, i)
    n = {}
    out = simcheck.judge("S09", scn, res)
    if out.get("error"):
        return out
    c = model.Checker(scn, res)
    out["violations"] = out["violations"] + status(c, scn, res, n)[:5]
    out["counts"].update(n)
    out["nontrivial"] = bool(n.get("in-progress-listed") or n.get("pending-listed"))
    other = out.pop("other", None) or []
    if other and not out["violations"]:
        # does it do so without the SIGQUITs?
        plain = dict(scn, events=[e for e in scn["events"] if not (e["op"] == "signal" and e["sig"] == QUIT)])
        o2 = simcheck.judge("S09", plain, simcheck.run_scn(ctx, plain, "%s-plain" % i))
        if not o2.get("error") and not o2["violations"] and not o2.get("other"):
            out["violations"] = [dict(x, what="with SIGQUITs only: " + x["what"]) for x in other[:5]]
    if i < 3:
        out["sample"] = simcheck.sample(scn, res)
        out["sample"]["log"] = "".join(s for _, s in res["log"])[-1500:]
    return out
