"""No trigger or return-data content can bring the daemon down."""
import json

import yaml

import gen
import model
import simcheck

RULE = ("one evaluation = one history of the real daemon fed with malformed, odd and mutated trigger and return-data files while "
        "other jobs run; distinct = different event sequence")
NEED = {"odd-triggers": 800, "odd-return-data": 200, "starts-schedule": 300}
ASSUMPTIONS = ["files are regular files written atomically", "memory exhaustion (e.g. by YAML alias expansion) is not provoked"]
QUICK = 160
THOROUGH = 4500
setup = simcheck.prepare

T = '{"environment": {"VP_TID": "@TID@"}'  # continued by the rows below

# (extension, text, verdict)  verdict: False: not a well-formed trigger; None: a matter of opinion
BAD = [
    ("json", "", False), ("json", "{", False), ("json", "]", False), ("json", "nul", False), ("json", "\0", False),
    ("json", "null", False), ("json", "1", False), ("json", "\"x\"", False), ("json", "[]", False), ("json", "true", False),
    ("json", b"\xff\xfe{\x00}\x00", False), ("json", b"{\"a\": \"\xff\"}", False), ("json", b"\xef\xbb\xbf{}", None),
    ("json", "{'a': 1}", False), ("json", "{\"a\": 1,}", False), ("json", "{} {}", False), ("json", "[" * 100000, False),
    ("json", "{\"a\":" * 50000, False), ("json", T + ', "x": ' + "[" * 800 + "]" * 800 + "}", None),
    ("json", T + ', "x": ' + "[" * 3000 + "]" * 3000 + "}", None),
    ("json", T + ', "schedule_time": "no time at all"}', False), ("json", T + ', "schedule_time": ""}', None),
    ("json", T + ', "schedule_time": []}', False), ("json", T + ', "schedule_time": {}}', False),
    ("json", T + ', "schedule_time": null}', None), ("json", T + ', "schedule_time": true}', None),
    ("json", T + ', "schedule_time": NaN}', False), ("json", T + ', "schedule_time": Infinity}', False),
    ("json", T + ', "schedule_time": -Infinity}', False), ("json", T + ', "schedule_time": 1e300}', None),
    ("json", T + ', "schedule_time": 1e18}', None), ("json", T + ', "schedule_time": -1e18}', None),
    ("json", T + ', "schedule_time": -62135596800}', None), ("json", T + ', "schedule_time": -1}', None),
    ("json", T + ', "schedule_time": 253402300799}', None), ("json", T + ', "schedule_time": 253402300799, "schedule_timezone": "Asia/Tokyo"}', None),
    ("json", T + ', "schedule_time": 253402300799, "schedule_timezone": "America/New_York"}', None),
    ("json", T + ', "schedule_time": ' + "9" * 400 + '}', None), ("json", T + ', "schedule_time": ' + "9" * 6000 + '}', None),
    ("json", T + ', "schedule_time": "99999-01-01"}', None), ("json", T + ', "schedule_time": "2024-02-30"}', False),
    ("json", T + ', "schedule_time": "2024-01-15T25:00:00"}', False), ("json", T + ', "schedule_time": "0001-01-01T00:00:00"}', None),
    ("json", T + ', "schedule_time": "9999-12-31T23:59:59", "schedule_timezone": "Pacific/Pago_Pago"}', None),
    ("json", T + ', "schedule_time": "0001-01-01T00:00:00", "schedule_timezone": "Asia/Tokyo"}', None),
    ("json", T + ', "schedule_time": "10:00:00 +99:99"}', None), ("json", T + ', "schedule_time": "2024-01-15T10:00:00+25:00"}', None),
    ("json", T + ', "schedule_time": "' + "1" * 5000 + '"}', None), ("json", T + ', "schedule_time": "\\u0000"}', None),
    ("json", T + ', "schedule_time": "1705312800"}', None), ("json", T + ', "schedule_time": "a b c d"}', None),
    ("json", T + ', "schedule_time": "not before 10:30 please"}', False), ("json", T + ', "schedule_time": "2024-01-15T10:00:00 or so"}', False),
    ("json", T + ', "schedule_time": "at 2024-01-15 10:00:00"}', None), ("json", T + ', "schedule_time": "tomorrow 10:00"}', False),
    ("json", T + ', "schedule_timezone": "No/Where"}', False), ("json", T + ', "schedule_timezone": 5}', None),
    ("json", T + ', "schedule_timezone": ["UTC"]}', None), ("json", T + ', "schedule_timezone": {"a": 1}}', None),
    ("json", T + ', "schedule_timezone": true}', None), ("json", T + ', "schedule_timezone": "\\u0000"}', None),
    ("json", T + ', "schedule_timezone": "' + "x" * 5000 + '"}', None), ("json", T + ', "schedule_timezone": "../../../etc/passwd"}', None),
    ("json", T + ', "schedule_timezone": "/"}', None), ("json", T + ', "schedule_timezone": "/dev/null"}', None),
    ("json", T + ', "schedule_timezone": "\\ud800"}', None), ("json", T + ', "schedule_timezone": "UTC+3"}', None),
    ("json", T + ', "schedule_timezone": ":"}', None), ("json", T + ', "schedule_timezone": "EST5EDT4,M3"}', None),
    ("json", '{"environment": []}', False), ("json", '{"environment": "x"}', False), ("json", '{"environment": 1}', False),
    ("json", '{"environment": null}', False), ("json", '{"environment": {"A": []}}', False),
    ("json", '{"environment": {"A": {}}}', False), ("json", '{"environment": {"A": null}}', False),
    ("json", '{"environment": {"A": true}}', None), ("json", '{"environment": {"A": NaN}}', None),
    ("json", '{"environment": {"VP_TID": "@TID@", "A=B": "x"}}', None), ("json", '{"environment": {"VP_TID": "@TID@", "": "x"}}', None),
    ("json", '{"environment": {"VP_TID": "@TID@", "A": "x\\u0000y"}}', None),
    ("json", '{"environment": {"VP_TID": "@TID@", "A\\u0000": "x"}}', None),
    ("json", '{"environment": {"VP_TID": "@TID@", "A": "\\ud800"}}', None),
    ("json", '{"environment": {"VP_TID": "@TID@", "\\udfff": "1"}}', None),
    ("json", '{"environment": {"VP_TID": "@TID@", "A": ' + "9" * 5000 + '}}', None),
    ("json", '{"environment": {"VP_TID": "@TID@", "PWD": "/nonexistent/dir"}}', None),
    ("json", '{"environment": {"VP_TID": "@TID@", "PWD": "\\u0000"}}', None),
    ("json", '{"environment": {"VP_TID": "@TID@", "PATH": ""}}', None),
    ("json", T + ', "x": NaN}', None), ("json", T + ', "x": 1e999}', None), ("json", T + ', "x": "\\ud800"}', None),
    ("json", T + ', "\\udc80": 1}', None), ("json", T + ', "x": ' + "7" * 4000 + '}', None),
    ("json", T + ', "x": ' + "7" * 5000 + '}', None), ("json", '{"environment": {}, "environment": [1]}', None),
    ("yaml", "", False), ("yaml", "[", False), ("yaml", "- 1", False), ("yaml", "~", False), ("yaml", "a: b: c", False),
    ("yaml", "\t", False), ("yaml", "x", False), ("yaml", "!!python/object/apply:os.system ['true']", False),
    ("yaml", "a: !!python/name:os.system", False), ("yaml", "a: !unknown 1", False), ("yaml", "a: *nope", False),
    ("yaml", b"\xff\xff", False), ("yaml", b"a: \x01", False), ("yaml", "--- {}\n--- {}\n", False),
    ("yaml", "@", False), ("yaml", "%", False), ("yaml", "? [a]\n: 1", None), ("yaml", "? {a: 1}\n: 1", None),
    ("yaml", "1: 2\nenvironment: {VP_TID: '@TID@'}", None), ("yaml", "environment: {1: a}", False),
    ("yaml", "environment: {a: 2024-01-01}", False), ("yaml", "environment: {VP_TID: '@TID@', a: .nan}", None),
    ("yaml", "environment: {VP_TID: '@TID@'}\nx: 2024-01-01", None), ("yaml", "environment: {VP_TID: '@TID@'}\nx: !!binary AAA=", None),
    ("yaml", "environment: {VP_TID: '@TID@'}\nx: !!set {a, b}", None), ("yaml", "environment: {VP_TID: '@TID@'}\n2024-01-01: x", None),
    ("yaml", "environment: {VP_TID: '@TID@'}\nschedule_time: 2024-01-15 10:00:00", None),
    ("yaml", "environment: {VP_TID: '@TID@'}\nschedule_time: 2024-01-15", None),
    ("yaml", "environment: {VP_TID: '@TID@'}\nschedule_time: 10:00:00", None),
    ("yaml", "environment: {VP_TID: '@TID@'}\nschedule_time: .inf", False),
    ("yaml", "environment: {VP_TID: '@TID@'}\nschedule_time: .nan", False),
    ("yaml", "environment: {VP_TID: '@TID@'}\nschedule_time: 0x7fffffffffffffff", None),
    ("yaml", "environment: {VP_TID: '@TID@'}\nschedule_timezone: 2024-01-01", None),
    ("yaml", "environment: {VP_TID: '@TID@'}\nx: &a [*a]", None), ("yaml", "&a {environment: {VP_TID: '@TID@'}, x: *a}", None),
    ("yaml", "environment: {VP_TID: '@TID@'}\nx: 2024-99-99", False), ("yaml", "x: " + "[" * 2000 + "]" * 2000, None),
    ("yaml", "x: 0o99", None), ("yaml", "x: 190:20:30.15", None), ("yaml", "<<: 1", False), ("yaml", "<<: [1]", False),
    ("yaml", "x: 2024-01-15T10:00:00+99:99", None),
]
RET = [
    ("return_data.json", "", False), ("return_data.json", "{", False), ("return_data.json", b"\xff\xfe", False),
    ("return_data.json", "[" * 100000, False), ("return_data.json", "nope", False), ("return_data.json", "{'a': 1}", False),
    ("return_data.json", "7" * 6000, None), ("return_data.json", "NaN", None), ("return_data.json", "\"\\ud800\"", None),
    ("return_data.json", "[" * 900 + "]" * 900, None),
    ("return_data.yaml", "[", False), ("return_data.yaml", "a: b: c", False), ("return_data.yaml", "2024-01-01", None),
    ("return_data.yaml", "!!binary AAA=", None), ("return_data.yaml", "a: !!set {x}", None), ("return_data.yaml", "? [a]\n: 1", None),
    ("return_data.yaml", "!!python/object/apply:os.system ['true']", False), ("return_data.yaml", b"\xff", False),
    ("return_data.yaml", "&a [*a]", None), ("return_data.yaml", "x: " + "[" * 900 + "]" * 900, None),
    ("return_data.yaml", "2024-99-99", False), ("return_data.yaml", "--- 1\n--- 2\n", False), ("return_data.yaml", "1: 2", None),
    ("return_data.yaml", "2024-01-01: 2", None), ("return_data.yaml", "<<: 1", False),
]


def mutate_bytes(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 2, 4, 10])):
        k = rng.randrange(5)
        p = rng.randrange(len(b) + 1)
        if k == 0 and b:
            b[p % len(b)] = rng.randrange(256)
        elif k == 1 and b:
            del b[p % len(b)]
        elif k == 2:
            b[p:p] = bytes([rng.choice(b"{}[]\",:'-&*!|>%@\n\t 0123456789.eE+\\u")])
        elif k == 3 and b:
            q = rng.randrange(len(b))
            b[p:p] = b[q:q + rng.randrange(1, 12)]
        elif b:
            del b[p:p + rng.randrange(1, 12)]
    return bytes(b)


def claims_other(ext, c, tid):
    """Did the mutation turn it into something that passes for another trigger of this history?"""
    try:
        d = json.loads(c) if ext == "json" else yaml.load(c, Loader=yaml.SafeLoader)
        v = d["environment"].get("VP_TID", tid)
    except Exception:
        return False
    return str(v) != tid


def case(i, rng, ctx):
    prof = {"spans": [(1, 500.0), (1, 900.0)], "njobs": [(1, 3), (1, 4)], "hups": 0.15, "ntrig": [(1, 3)], "p_slow": 0.0,
            "p_anygroups": 0.3, "durs": [(2, 0.5), (2, 10.0), (1, 45.0)], "p_limit": 0.1, "p_sched": 1.0, "p_concurrent": 0.35}
    scn = gen.scenario(rng, prof)
    scn["launch_may_fail"] = True
    jobs = sorted(scn["model"]["c0"]["jobs"])
    n = 14
    for k in range(n):
        tid = "o%d" % k
        if rng.random() < 0.3:
            e, _ = gen.trigger(rng, scn["start"], tid, "x", {"p_trigger_time": 0.7}, scn["tz"])
            ext, ok = e["ext"], None
            c = mutate_bytes(rng, e["content"].encode("utf-8", "surrogatepass"))
            while claims_other(ext, c, tid):
                c = mutate_bytes(rng, e["content"].encode("utf-8", "surrogatepass"))
        else:
            ext, c, ok = BAD[(i * n + k) % len(BAD)]
            if isinstance(c, str):
                c = c.replace("@TID@", tid)
        scn["events"].append({"t": rng.uniform(1, scn["end"] - 5), "op": "trigger", "job": rng.choice(jobs), "ext": ext, "tid": tid,
                              "content": c, "meta": {"ok": ok, "wild": True}})
    scn["events"].sort(key=lambda e: e["t"])
    x = i * 7
    for b in scn["behaviour"].values():
        for y in b:
            if rng.random() < 0.7:
                fn, c, ok = RET[x % len(RET)]
                x += 1
                if rng.random() < 0.2:
                    c, ok = mutate_bytes(rng, json.dumps({"a": [1, "x", None]}).encode()), None
                y["return_data"] = {fn: c}
                y["rd_ok"] = ok
    return scn


def run(scn, i, ctx):
    res = simcheck.run_scn(ctx, scn, i)
    n = [0]

    def extra(c, scn, res):
        db = {x["run_id"]: x for x in (res.get("db") or {}).get("runs") or ()}
        for r in c.runs:
            behs = scn["behaviour"].get(r.job)
            if not behs or r.failed:
                continue
            y = behs[r.payload["bi"]]
            if "return_data" in y and r.id in db:
                n[0] += 1
                try:
                    rd = json.loads(db[r.id]["run_data"])
                except ValueError:
                    c.issue("T05", "run-data", "recorded run data is not readable: %r" % db[r.id]["run_data"])
                    continue
                if y["rd_ok"] is False and "return_data" in rd:
                    c.issue("T05", "unusable-data", "return data %r was recorded as %r" % (y["return_data"], rd))

    out = simcheck.judge("T05", scn, res, extra)
    if out.get("error"):
        return out
    out["violations"] += out.pop("other")
    out["counts"]["odd-triggers"] = len([e for e in res["hist"] if e["e"] == "consumed" and e["tid"].startswith("o")])
    out["counts"]["odd-return-data"] = n[0]
    if i < 3:
        out["sample"] = simcheck.sample(scn, res)
    return out
