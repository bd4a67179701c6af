"""Random valid configuration documents covering every documented option."""
import json

import yaml

import gen

CHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 -_+.:@"


def name(rng):
    k = rng.random()
    if k < 0.5:
        n = rng.choice(gen.NAMES)
    elif k < 0.6:
        n = "".join(rng.choice(CHARS) for _ in range(64))
    else:
        n = "".join(rng.choice(CHARS) for _ in range(rng.randrange(1, 20)))
    return n if n not in (".", "..") else "dot"


def relative(rng, n):
    """A name easily confused with n."""
    k = rng.randrange(len(n))
    x = rng.choice([n[:-1], n + rng.choice(CHARS), n.swapcase(), n.lower(), n[:k] + "_" + n[k + 1:], n[1:], n + "_"])[:64]
    return x if x not in ("", ".", "..") else "r"


SCHED = ["* * * * *", "H * * * *", "H H * * *", "H/15 * * * *", "H(0-29)/10 * * * *", "H(30-59) H(0-7) * * *", "R * * * *", "R(5-9) R * * *",
         "R/20 * * * *", "*/5 * * * *", "0 0 1 1 *", "15,45 8-18 * * 1-5", "0 12 * * MON", "0 12 * JAN-MAR SUN,SAT", "5 4 * * 7",
         "H H H * *", "H H * * H", "H H H H *", "@midnight", "@hourly", "@daily", "@weekly", "@monthly", "@yearly", "@annually",
         "* * * * * 30", "* * * * * *", "H H H H H H", "0 0 * * * 0", "*/10 * * * * */15", "59 23 31 12 * 59", "0 0 29 2 *",
         "RRULE:FREQ=DAILY", "RRULE:FREQ=HOURLY;INTERVAL=2", "RRULE:FREQ=MINUTELY;INTERVAL=5", "rrule:freq=weekly;byday=mo,th",
         "RRULE:FREQ=DAILY;BYDAY=MO,TH;BYHOUR=14;BYMINUTE=30", "RRULE:FREQ=MONTHLY;BYDAY=MO,TU,WE,TH,FR;BYSETPOS=-1",
         "RRULE:FREQ=YEARLY;BYMONTH=6;BYMONTHDAY=15", "RRULE:FREQ=HOURLY;UNTIL=20991225T080000", "RRULE:FREQ=HOURLY;UNTIL=20991225T080000Z",
         "RRULE:FREQ=HOURLY;UNTIL=20181225T080000", "RRULE:FREQ=SECONDLY;INTERVAL=30"]
# dates that do not exist for some of the random values
RDATE = ["0 0 30 R *", "0 0 31 R *", "0 0 R(28-31) 2 *", "5 4 31 R(1-6) * 30", "0 0 R(30-31) R * 0", "0 12 31 R/6 *", "0 0 R(1-31) 4 *"]
ENVK = ["A", "MY_VAR", "lower", "PATH", "X Y", "\u00dcNI", "N1", "J", "RUN_ID", "A-B"]
ENVV = ["", "x", "two words", 7, 0, -1, 1.5, 100.0, 1e20, "\u2603 \U0001f389", "a=b", "line\nbreak", "null", "true", "1", "'", "\"", "{}", "- x", "#no",
        " lead", "~", "0x10", "1:30", "2024-01-01", "%", "!t", "*a", "&b"]


def environment(rng):
    return {k: rng.choice(ENVV) for k in rng.sample(ENVK, rng.randrange(0, 6))}


def sched(rng):
    k = rng.random()
    if k < 0.7:
        return rng.choice(SCHED)
    if k < 0.8:
        return gen.fast_cron(rng)
    if k < 0.9:
        return gen.slow_cron(rng)
    return gen.rrule(rng)[0]


ARGS = ["-x", "two words", "", "'", "\"q\"", "\u00e4\u2603", "$HOME", "*", "a=b", "line\nbreak", "--", "\\", "{}", "#", "null", "5", "y" * 150]


def command(rng):
    k = rng.random()
    if k < 0.3:
        return rng.choice(["/bin/true", "/bin/echo hello world", "/bin/sh -c 'echo \"a b\"'", "cmd 'quo ted' \\esc \"d q\"", "/bin/true  two   spaces",
                           "x # y", "/bin/echo \u2603", "a\tb\nc", "-x"])
    return [rng.choice(["/bin/true", "/bin/echo", "cmd", "./x", "sp ace"])] + [rng.choice(ARGS) for _ in range(rng.randrange(0, 5))]


def num(rng, none=False):
    return rng.choice([0, 0.0, 1, 60, 5.0, 0.5, 86400, 1e5, 12.25, 300, 0.001, 1.000001, 12345.678901, 0.0625] + ([None] if none else []))


def job(rng, groups):
    j = {"command": command(rng)}

    def opt(k, p, f):
        if rng.random() < p:
            j[k] = f()

    opt("schedule", 0.8, lambda: sched(rng) if rng.random() < 0.95 else None)
    opt("schedule_timezone", 0.3, lambda: rng.choice(gen.TZS + [None]))
    opt("max_execution", 0.3, lambda: num(rng, True))
    opt("max_execution_grace", 0.3, lambda: num(rng))
    opt("environment", 0.4, lambda: environment(rng))
    opt("render_reports", 0.3, lambda: rng.random() < 0.5)
    opt("command_append_run", 0.3, lambda: rng.random() < 0.5)
    opt("jenkins_environment", 0.3, lambda: rng.random() < 0.5)
    opt("job_group", 0.15, lambda: rng.choice(["jg", "any group", None]))
    opt("concurrent_runs", 0.3, lambda: rng.random() < 0.5)
    opt("concurrency_groups", 0.4, lambda: rng.sample(groups, rng.randrange(0, min(3, len(groups)) + 1)))
    return j


def doc(rng, njobs=None):
    """A valid configuration document."""
    groups = list({name(rng) for _ in range(4)})
    d = {"data_dir": "@ROOT@/var"}
    n = rng.randrange(0, 6) if njobs is None else njobs
    names = []
    while len(names) < n + 4:
        x = name(rng) if not names or rng.random() < 0.7 else relative(rng, rng.choice(names))
        if x not in names:
            names.append(x)
    if n or rng.random() < 0.8:
        d["jobs"] = {x: job(rng, groups) for x in names[:n]}
    if rng.random() < 0.4:
        d["job_groups"] = {}
        rest = names[n:]
        for _ in range(rng.randrange(0, 3)):
            if not rest:
                break
            k = rng.randrange(0, len(rest) + 1)
            g = dict(job(rng, groups), job_names=rest[:k])
            rest = rest[k:]
            d["job_groups"][name(rng)] = g
        # no name may be given by two groups
    if rng.random() < 0.7:
        d["concurrency_groups"] = {g: ({"max": rng.choice([1, 2, 3, 100, 0])} if rng.random() < 0.8 else {}) for g in groups if rng.random() < 0.6}

    def opt(k, p, f):
        if rng.random() < p:
            d[k] = f()

    opt("template_dir", 0.2, lambda: rng.choice([None, "@ROOT@/tpl", "/nonexistent"]))
    opt("report_html_gz", 0.3, lambda: rng.random() < 0.5)
    opt("report_run_output_start", 0.3, lambda: rng.choice([0, 1, 100, 10 ** 9]))
    opt("report_run_output_end", 0.3, lambda: rng.choice([0, 1, 100, 10 ** 9]))
    opt("shutdown_kill_runs", 0.3, lambda: rng.random() < 0.5)
    opt("shutdown_kill_grace", 0.3, lambda: num(rng, True))
    opt("environment", 0.4, lambda: environment(rng))
    opt("database", 0.25, lambda: rng.choice([{"type": "sqlite3", "file": "@ROOT@/var/db file.sqlite3"}, {"type": "sqlite3"}, {}, {"type": "sqlite3", "file": None}]))
    return d


def dump_json(rng, d):
    return json.dumps(d, ensure_ascii=rng.random() < 0.5, indent=rng.choice([None, 2]))


def dump_yaml(rng, d):
    t = yaml.safe_dump(d, allow_unicode=rng.random() < 0.5, default_flow_style=rng.choice([None, False, True]))
    assert yaml.safe_load(t) == d
    return t


def file(rng, d):
    return {"dsari.json": dump_json(rng, d)} if rng.random() < 0.5 else {"dsari.yaml": dump_yaml(rng, d)}


DEFAULTS = {
    "command_append_run": False, "schedule": None, "schedule_timezone": None, "environment": {}, "max_execution": None,
    "max_execution_grace": 60.0, "concurrency_groups": [], "render_reports": True, "jenkins_environment": False, "job_group": None,
    "concurrent_runs": False,
}


def compiled_jobs(d):
    """The jobs a document defines, with all options, in the form of the compiled dump (without next_scheduled_run)."""
    import shlex

    src = dict(d.get("jobs") or {})
    for g, t in (d.get("job_groups") or {}).items():
        for n in t["job_names"]:
            src[n] = dict(t, job_group=g)
    out = {}
    for n, j in src.items():
        o = {k: (j[k] if j.get(k) is not None else v) for k, v in DEFAULTS.items()}
        o["command"] = shlex.split(j["command"]) if isinstance(j["command"], str) else j["command"]
        o["environment"] = {k: v if isinstance(v, str) else str(v) for k, v in o["environment"].items()}
        o["concurrency_groups"] = sorted(o["concurrency_groups"])
        out[n] = o
    return out


def has(d, text):
    return text in json.dumps(d)
