"""Invalid configurations are rejected, valid ones accepted."""
import copy
import json
import os
import zlib

import yaml

import gen
import gencfg
import simcheck
import simcore
import tools

RULE = ("one evaluation = one configuration, valid by construction or with one labelled defect, put before the real configuration check; what "
        "it accepts is given to the real daemon in the simulated world; distinct = (defect, document)")
NEED = {"valid": 300, "invalid": 800, "daemon-starts": 120, "kinds": 20}
ASSUMPTIONS = ["only defects the documentation or the property names are labelled invalid"]
QUICK = 2400
THOROUGH = 60000

BADNAMES = ["", ".", "..", "a/b", "/", "../x", "x" * 65, "@" * 65, "a b" * 21 + "-+", ":" * 66, "job." * 40, "\u00fc", "a\n", "\n", "a\tb", "a,b", "a;b", "a*b", "a\\b", "a'b", "a\"b", "a|b", "$a", "a(b", "a[b",
            "a\u00a0b", "\u0661", "a\u200bb", "a\x00", "n=1", "a%20b", "a&b", "a<b>", "a!", "~", "#a", "a?b", "a^b", "{a}"]
# option: values of a wrong type
JOBT = {
    "command": [5, 1.5, True, {}, {"a": 1}], "schedule": [5, True, [], {}, ["* * * * *"]], "schedule_timezone": [5, True, [], {}],
    "max_execution": ["60", "", True, [], {}, [5]], "max_execution_grace": ["60", True, [], {}], "environment": ["x", 5, True, [], ["A=b"], [{"A": "b"}]],
    "render_reports": ["true", 1, 0, 1.0, [], {}], "command_append_run": ["yes", 1, [], {}], "jenkins_environment": ["true", 1, 0, {}, []],
    "job_group": [5, True, [], {}, ["x"]], "concurrent_runs": ["true", 1, 0, [], {}],
    "concurrency_groups": ["abc", "g", 5, True, [5], [["a"]], [None], [{}]],
}
TOPT = {
    "data_dir": [5, True, [], {}], "template_dir": [5, True, [], {}], "report_html_gz": ["true", 1, [], {}],
    "report_run_output_start": ["5", 1.5, True, [], {}], "report_run_output_end": ["5", 1.5, True, [], {}],
    "shutdown_kill_runs": ["true", 1, 0, [], {}], "shutdown_kill_grace": ["5", True, [], {}], "environment": ["x", 5, True, [], ["A=b"]],
    "database": ["sqlite3", 5, True, []], "jobs": [5, "abc", ["a"], True], "job_groups": [5, "abc", ["a"], True],
    "concurrency_groups": [5, "abc", ["g"], True],
}
BADENV = [{"A": []}, {"A": {}}, {"A": None}, {"A": True}, {"A": False}, {"A": ["x"]}, {"A": "ok", "B": {"c": "d"}}]
BADTEXT = {"json": ["{", "}", "nope", "{'a': 1}", "{\"jobs\": {},}", b"\xff\xfe\x00", "{\"a\": 1} x", "\0", "[", "{\"jobs\": {\"a\": }}"],
           "yaml": ["[", "{", "a: b: c", "\t- x", b"\xff\xff", "a: *x", "a: !!python/object:x.y {}", "%", "@", "a: 'open", "- a\nb: c", "a: b\n  c: d"]}
KINDS = ["valid"] * 6 + ["valid-name", "valid-type", "valid-random", "job-name", "job-name", "group-name", "group-ref-name", "jg-name", "jg-member-name", "no-command",
                         "jg-no-command", "jg-no-names", "jg-names-type", "job-type", "job-type", "job-type", "job-type", "jg-type", "top-type", "top-type",
                         "max-type", "schedule", "schedule", "schedule", "jg-schedule", "job-env", "top-env", "text", "text", "text-d", "job-def", "group-def"]
GOODNAMES = ["x" * 64, "...", "-", ".a", " ", "a b", "@", ":", "+", "_", "0", "a-b_c+d.e:f@g", "..a", "-rf", "A", "z.", "a..b"]


def setup(ctx):
    tools.prepare(ctx)
    simcheck.prepare(ctx)


def a_job(rng, d):
    if not d.get("jobs"):
        d.setdefault("jobs", {})["only"] = {"command": "/bin/true"}
    return rng.choice(sorted(d["jobs"]))


def a_jg(rng, d):
    if not any(x["job_names"] for x in d.get("job_groups", {}).values()):
        d.setdefault("job_groups", {})["jgrp"] = {"command": "/bin/true", "job_names": ["mem.1", "mem.2"]}
    return rng.choice([k for k in sorted(d["job_groups"]) if d["job_groups"][k]["job_names"]])


def rename(m, old, new):
    return {(new if k == old else k): v for k, v in m.items()}


def case(i, rng, ctx):
    kind = KINDS[i % len(KINDS)]
    d = gencfg.doc(rng)
    n = i // len(KINDS)
    ok, det, files = False, None, None
    # the how-manieth case of this kind
    turn = n * KINDS.count(kind) + KINDS[:i % len(KINDS)].count(kind) + ctx.seed

    def nth(l):
        return l[turn % len(l)]

    if kind == "valid":
        ok = True
    elif kind == "valid-name":
        det, ok = nth(GOODNAMES), True
        k = rng.randrange(4)
        if k == 0:
            x = a_job(rng, d)
            d["jobs"] = rename(d["jobs"], x, det)
        elif k == 1:
            d.setdefault("concurrency_groups", {})[det] = {"max": 2}
        elif k == 2:
            x = a_job(rng, d)
            d["jobs"][x]["concurrency_groups"] = [det]
        else:
            x = a_jg(rng, d)
            d["job_groups"] = rename(d["job_groups"], x, det)
    elif kind == "valid-type":
        ok = True
        x = a_job(rng, d)
        j = d["jobs"][x]
        j["max_execution"] = rng.choice([1, 1.5, None, 0.001, 10 ** 6])
        j["max_execution_grace"] = rng.choice([1, 0.5, 10 ** 6])
        j["environment"] = {"I": 1, "F": 1.5, "S": "x", "E": ""}
        j["command"] = rng.choice([["a"], "a b", ["a", ""]])
        d["shutdown_kill_grace"] = rng.choice([None, 1, 2.5])
        d["environment"] = {"I": -1}
    elif kind == "valid-random":
        ok = True
        det = rng.sample(gencfg.RDATE, 4)
        for q, s in enumerate(det * 3):
            d.setdefault("jobs", {})["random %d" % q] = {"command": "/bin/true", "schedule": s}
    elif kind == "job-name":
        det = nth(BADNAMES)
        x = a_job(rng, d)
        d["jobs"] = rename(d["jobs"], x, det)
    elif kind == "group-name":
        det = nth(BADNAMES)
        d.setdefault("concurrency_groups", {})[det] = {"max": 1}
    elif kind == "group-ref-name":
        det = nth(BADNAMES)
        x = a_job(rng, d)
        d["jobs"][x]["concurrency_groups"] = ["good", det]
    elif kind == "jg-name":
        det = nth(BADNAMES)
        x = a_jg(rng, d)
        d["job_groups"] = rename(d["job_groups"], x, det)
    elif kind == "jg-member-name":
        det = nth(BADNAMES)
        x = a_jg(rng, d)
        d["job_groups"][x]["job_names"] = d["job_groups"][x]["job_names"] + [det]
    elif kind == "no-command":
        x = a_job(rng, d)
        d["jobs"][x].pop("command")
    elif kind == "jg-no-command":
        x = a_jg(rng, d)
        d["job_groups"][x].pop("command")
    elif kind == "jg-no-names":
        x = a_jg(rng, d)
        d["job_groups"][x].pop("job_names")
    elif kind == "jg-names-type":
        x = a_jg(rng, d)
        det = d["job_groups"][x]["job_names"] = nth(["abc", 5, True, [5], [["a"]], [None], "x", None])
    elif kind in ("job-type", "jg-type"):
        allv = [(k, v) for k in sorted(JOBT) for v in JOBT[k]]
        k, v = allv[turn % len(allv)]
        if kind == "job-type":
            x = a_job(rng, d)
            d["jobs"][x][k] = v
        else:
            x = a_jg(rng, d)
            d["job_groups"][x][k] = v
            if k == "job_group":
                ok = None
        det = [k, v]
    elif kind == "top-type":
        allv = [(k, v) for k in sorted(TOPT) for v in TOPT[k]]
        k, v = allv[turn % len(allv)]
        d[k] = v
        det = [k, v]
    elif kind == "max-type":
        det = nth(["1", 1.5, None, True, [], {}])
        d.setdefault("concurrency_groups", {})["gx"] = {"max": det}
        if det is None:
            ok = None
    elif kind == "schedule":
        allv = gen.BADSCHED
        det = allv[turn % len(allv)]
        x = a_job(rng, d)
        d["jobs"][x]["schedule"] = det
    elif kind == "jg-schedule":
        det = nth(gen.BADSCHED)
        x = a_jg(rng, d)
        d["job_groups"][x]["schedule"] = det
    elif kind == "job-env":
        det = nth(BADENV)
        x = a_job(rng, d)
        d["jobs"][x]["environment"] = det
    elif kind == "top-env":
        det = d["environment"] = nth(BADENV)
    elif kind == "job-def":
        det = nth([None, 5, "command", [], ["command"], True])
        x = a_job(rng, d)
        d["jobs"][x] = det
    elif kind == "group-def":
        det = nth([5, "max", ["max"], True])
        d.setdefault("concurrency_groups", {})["gx"] = det
    elif kind in ("text", "text-d"):
        ext = "json" if rng.random() < 0.5 else "yaml"
        det = nth(BADTEXT[ext])
        good = gencfg.dump_json(rng, d)
        files = {"dsari." + ext: det} if kind == "text" else {"dsari.json": good, "config.d/x." + ext: det}
        if kind == "text" and ext == "yaml":
            files["dsari.json"] = good
    if files is None:
        files = gencfg.file(rng, d)
    return {"kind": kind, "ok": ok, "det": det, "files": files, "doc": d}


def run(item, i, ctx):
    root = os.path.realpath(ctx.tmp("c%d-%d" % (os.getpid(), i)))
    v = []
    counts = {("valid" if item["ok"] else "invalid" if item["ok"] is False else "unlabelled"): 1, "kind-" + item["kind"]: 1}
    try:
        conf = tools.configure(root, item["files"])
        r = tools.info(root, conf, "config", "check", now=1750000000.5)
        what = "%s %r" % (item["kind"], item["det"])
        if r.code not in (0, 1):
            v.append({"key": "exit-status", "what": "%s: %r" % (what, r)})
        elif item["ok"] and r.code != 0:
            v.append({"key": "rejected-" + item["kind"], "what": "%s: a valid configuration is rejected: %r\n%r" % (what, r, item["files"])})
        elif item["ok"] is False and r.code == 0:
            v.append({"key": "accepted-" + item["kind"], "what": "%s is accepted: %r" % (what, item["files"])})
        if r.code == 0 and (item["ok"] is not True or i % 2 == 0):
            scn = {"start": 1750000000.5, "end": 3.0, "slack": 100, "config_files": item["files"], "behaviour": {}, "cpu_limit": 30,
                   "events": [{"t": 3.0, "op": "signal", "sig": 15}], "environ": {"PATH": "/usr/bin:/bin"}}
            res = simcore.fork_history(scn, os.path.join(root, "sim"), simcheck.main_entry)
            if res.get("harness_error"):
                return {"error": res["harness_error"]}
            counts["daemon-starts"] = 1
            if res["exit"]["kind"] != "return":
                v.append({"key": "daemon-" + item["kind"], "what": "%s: accepted, but the daemon ended with %r; %r" % (what, res["exit"], item["files"])})
        out = {"violations": v, "counts": counts, "fp": "%s/%s" % (item["kind"], zlib.crc32(json.dumps(item["doc"], sort_keys=True, default=str).encode()))}
        if i < 60 and i % 20 == 7:
            out["sample"] = {"defect": what, "valid": item["ok"], "exit status": r.code, "files": item["files"]}
        return out
    finally:
        ctx.rm(root)


def finish(ctx, counts):
    counts["kinds"] = len([k for k in counts if k.startswith("kind-")])
