"""A run's environment is built from scratch with the documented values."""
import json
import os
import pwd
import re

import yaml

import gen
import simcheck

RULE = ("one evaluation = one history of the real daemon under a randomly polluted own environment, with environments at the global, job and "
        "trigger level, job groups, Jenkins variables and reloads; every environment at exec is compared with the expected one; "
        "distinct = different event sequence")
NEED = {"envs": 2500, "envs-trigger": 500, "overrides": 1500, "jenkins": 400, "job-group": 300, "group": 300, "reloads": 20, "pwd-dir": 60,
        "no-user": 150, "no-path": 150}
ASSUMPTIONS = ["PREVIOUS_* values are decided by E02, the choice of CONCURRENCY_GROUP by S02, SCHEDULE_TIME by S03/T03"]
QUICK = 208
THOROUGH = 4500
setup = simcheck.prepare
PREV = {a + b for a in ("PREVIOUS_", "PREVIOUS_GOOD_", "PREVIOUS_BAD_")
        for b in ("RUN_ID", "SCHEDULE_TIME", "START_TIME", "STOP_TIME", "EXIT_CODE")}
AUTO = ["CI", "DSARI", "LOGNAME", "HOME", "PATH", "DATA_DIR", "JOB_NAME", "JOB_DIR", "RUN_ID", "RUN_DIR", "SCHEDULE_TIME", "START_TIME",
        "TRIGGER_TYPE", "TRIGGER_DIR", "CONCURRENCY_GROUP", "JOB_GROUP", "PREVIOUS_RUN_ID", "PREVIOUS_GOOD_EXIT_CODE", "BUILD_ID",
        "BUILD_NUMBER", "BUILD_TAG", "BUILD_URL", "EXECUTOR_NUMBER", "JENKINS_URL", "NODE_NAME", "WORKSPACE", "PREVIOUS_BAD_STOP_TIME"]
OWN = ["X", "MY_VAR", "lower", "SHARED", "LANG", "MAILNAME", "A-B", "1", "with space", "\u00dcNI", "TERM", "SHELL", "EMPTY", "LONG", "TZ",
       "DSARI_HOME", "x.y"]
VALS = ["v", "", " ", "two words", "a=b", "=", "$HOME", "${RUN_ID}", "line\nbreak", "'q\"", "w\u00f6rt \u2603", "\U0001f389", "true", "0",
        7, 0, -3, 1.5, 0.25, 10 ** 15, 1234567.25, 0.1 + 0.2, 1e22, -7.000001, 123456789012345.6, 5e-7, "x" * 3000, "\t", "\\n", "%s", "{}", "None"]
NOISE = ["MAILNAME", "LANG", "LC_ALL", "TERM", "SHELL", "USER", "HOME", "LOGNAME", "PWD", "OLDPWD", "RUN_ID", "JOB_NAME", "BUILD_ID", "CI", "TZ2",
         "JENKINS_URL", "CONCURRENCY_GROUP", "JOB_GROUP", "X", "SHARED", "PREVIOUS_RUN_ID", "DSARI_SECRET", "LD_LIBRARY_PATH2", "EDITOR",
         "WORKSPACE", "NODE_NAME", "TRIGGER_TYPE", "DISPLAY", "PATHEXT", "XDG_RUNTIME_DIR", "_"]


def environment(rng, p_auto, tag):
    out = {}
    for _ in range(rng.choice([0, 1, 2, 4, 7])):
        k = rng.choice(AUTO) if rng.random() < p_auto else rng.choice(OWN)
        v = rng.choice(VALS)
        if k == "PATH":
            v = rng.choice(["/bin:/usr/bin", "/usr/bin", ""])
        if isinstance(v, str) and rng.random() < 0.5:
            v += tag
        out[k] = v
    if rng.random() < 0.15:
        out["PWD"] = rng.choice(["@ROOT@/wd", "@ROOT@/w d\u00fc", "@ROOT@/nonexistent", "@ROOT@/etc/dsari.json", "/", "", "/proc/nope"])
    return out


def decorate(rng, cfg, dd):
    """Environments, job groups and Jenkins flags for a configuration; returns its document."""
    if rng.random() < 0.7:
        cfg["env"] = environment(rng, 0.3, "-g")
    if dd:
        cfg["data_dir"] = dd
    names = sorted(cfg["jobs"])
    for n in names:
        j = cfg["jobs"][n]
        j.pop("env", None)
        j.pop("jg", None)
        if rng.random() < 0.7:
            j["env"] = environment(rng, 0.35, "-j")
        if rng.random() < 0.35:
            j["jenkins"] = True
        elif rng.random() < 0.3:
            j["jenkins"] = False
    doc = gen.raw(cfg)
    if rng.random() < 0.5:
        for n in names:
            if rng.random() < 0.4:
                g = rng.choice(["jg", "group 2", "J.G", n])
                cfg["jobs"][n]["jg"] = g
                if rng.random() < 0.5 and not ({"PWD"} & set(cfg["jobs"][n].get("env", {}))):
                    doc["jobs"][n]["job_group"] = g
                else:
                    g = "%s-%d" % (g[:60], names.index(n)) if g != n else g
                    cfg["jobs"][n]["jg"] = g
                    doc.setdefault("job_groups", {})[g] = dict(doc["jobs"].pop(n), job_names=[n])
    return doc


def case(i, rng, ctx):
    prof = {"spans": [(1, 500.0), (1, 900.0)], "njobs": [(1, 2), (1, 4), (1, 6)], "hups": 0.0, "ntrig": [(1, 6), (1, 15)], "p_slow": 0.0,
            "p_anygroups": 0.5, "p_groups": 0.6, "durs": [(3, 0.4), (2, 8.0), (1, 40.0)], "p_limit": 0.0, "p_sched": 0.9, "p_concurrent": 0.4,
            "p_rrule": 0.0}
    scn = gen.scenario(rng, prof)
    cfg = scn["model"]["c0"]
    dd = None
    if rng.random() < 0.4:
        dd = rng.choice(["@ROOT@/my data", "@ROOT@/d\u00e4ta", "@ROOT@/a/b c/d"])
        scn["data_dir"] = dd
    doc = decorate(rng, cfg, dd)
    scn["config_files"] = {"dsari.json": json.dumps(doc)} if rng.random() < 0.5 else {
        "dsari.yaml": yaml.safe_dump(doc, allow_unicode=True)}
    scn["mkdirs"] = ["@ROOT@/wd", "@ROOT@/w d\u00fc"] + ([dd] if dd else [])
    if rng.random() < 0.35:
        new = json.loads(json.dumps(cfg))
        ndoc = decorate(rng, new, dd)
        t = rng.uniform(100, scn["end"] - 100)
        scn["model"]["c1"] = new
        scn["events"] += [{"t": t, "op": "config", "cid": "c1", "files": {"dsari.yaml": None, "dsari.json": json.dumps(ndoc)}},
                          {"t": t + 1, "op": "signal", "sig": 1}]
    # triggers with an environment
    scn["tenv"] = {}
    for e in scn["events"] + scn["precreate_triggers"]:
        if e["op"] == "trigger":
            env = {k: v for k, v in environment(rng, 0.35, "-t").items()}
            env["VP_TID"] = e["tid"]
            d = {"environment": env}
            if rng.random() < 0.3:
                d["data"] = "x"
            e["ext"] = rng.choice(["json", "yaml"])
            e["content"] = json.dumps(d) if e["ext"] == "json" else yaml.safe_dump(d, allow_unicode=True)
            scn["tenv"][e["tid"]] = env
    scn["events"].sort(key=lambda e: e["t"])
    environ = {}
    for k in NOISE:
        if rng.random() < 0.5:
            environ[k] = rng.choice(["leak", "", "/tmp", "l\u00ebak"])
    environ["PATH"] = rng.choice([None, "", "/usr/bin:/bin", "/bin", "/usr/local/bin:/usr/bin:/bin:/some where", "/usr/bin:/bin"])
    scn["environ"] = environ
    if rng.random() < 0.2:
        scn["uid"] = 54321
    return scn


def eq(v, want):
    """Is v the text of the configured value?"""
    if isinstance(want, str):
        return v == want
    try:
        return type(want)(v) == want
    except ValueError:
        return False


def expected(scn, cid, root, e, env):
    """{name: value or predicate} of a start, or None if the job is not configured."""
    cfg = scn["model"][cid]
    p = e["payload"]
    job, rid = e["job"], e["run"]
    j = cfg["jobs"].get(job)
    if j is None:
        return None
    data = (scn.get("data_dir") or "@ROOT@/var").replace("@ROOT@", root)
    rd = os.path.join(data, "runs", job, rid)
    path = scn["environ"]["PATH"]
    w = {"CI": "true", "DSARI": "true", "PATH": "/usr/bin:/bin" if path is None else path, "DATA_DIR": data, "JOB_NAME": job,
         "JOB_DIR": os.path.join(data, "runs", job), "RUN_ID": rid, "RUN_DIR": rd,
         "SCHEDULE_TIME": lambda v: re.fullmatch(r"-?\d+(\.\d+)?(e[-+]?\d+)?", v) and float(v) <= e["t"] + 0.01,
         "START_TIME": lambda v: re.fullmatch(r"\d+(\.\d+)?", v) and abs(float(v) - e["t"]) < 1.0,
         "TRIGGER_DIR": os.path.join(data, "trigger")}
    if not scn.get("uid"):
        u = pwd.getpwuid(0)
        w["LOGNAME"], w["HOME"] = u.pw_name, u.pw_dir
    tid = env.get("VP_TID")
    w["TRIGGER_TYPE"] = "file" if tid is not None else "schedule"
    if j.get("groups"):
        w["CONCURRENCY_GROUP"] = lambda v: v in j["groups"]
    if j.get("jg"):
        w["JOB_GROUP"] = j["jg"]
    if j.get("jenkins"):
        w.update({"BUILD_ID": rid, "BUILD_NUMBER": rid, "BUILD_TAG": "dsari-%s-%s" % (job, rid), "BUILD_URL": "file://" + rd + "/",
                  "EXECUTOR_NUMBER": "0", "JENKINS_URL": "file://" + data + "/", "NODE_NAME": "master", "WORKSPACE": rd})
    over = {}
    for lay in (cfg.get("env", {}), j.get("env", {}), scn["tenv"].get(tid, {}) if tid else {}):
        for k, v in lay.items():
            over[k] = v.replace("@ROOT@", root) if isinstance(v, str) else v
    wd = over.pop("PWD", None)
    w.update({k: (lambda v, x=x: eq(v, x)) for k, x in over.items()})
    ok = isinstance(wd, str) and os.path.isabs(wd) and os.path.isdir(wd)
    w["PWD"] = wd if ok else rd
    return w, len([k for k in over if k in AUTO]), ok


def run(scn, i, ctx):
    d = ctx.tmp("h%d-%s" % (os.getpid(), i))
    root = os.path.realpath(d)
    import simcore

    v, counts, keys = [], {}, set()

    def count(k, n=1):
        counts[k] = counts.get(k, 0) + n

    def issue(key, what):
        if key not in keys:
            keys.add(key)
            v.append({"key": key, "what": what})

    try:
        res = simcore.fork_history(scn, root, simcheck.main_entry)
        if res.get("harness_error"):
            return {"violations": [], "error": res["harness_error"]}
        if res["exit"]["kind"] != "return":
            return {"violations": [], "error": "daemon ended: %r" % (res["exit"],)}
        cids, reload_t = ["c0"], None
        for e in res["hist"]:
            if e["e"] == "sig" and e["sig"] == 1:
                cids, reload_t = ["c1", "c0"], e["t"]
                count("reloads")
            if reload_t and e["t"] > reload_t + 3:
                cids = ["c1"]
            if e["e"] != "start" or "env" not in e["payload"]:
                continue
            if e["job"] is None:
                return {"violations": [], "error": "run not identified: %r" % (e["payload"],)}
            env = e["payload"]["env"]
            diffs = []
            for cid in cids:
                x = expected(scn, cid, root, e, env)
                if x is None:
                    continue
                w, n, isdir = x
                bad = []
                for k in sorted(set(w) | set(env)):
                    if k in PREV and k not in w:
                        continue
                    if k not in w:
                        bad.append((("extra", k), "has %s=%r, which nothing asks for" % (k, env[k])))
                    elif k not in env:
                        bad.append((("missing", k), "lacks %s" % k))
                    elif not (w[k](env[k]) if callable(w[k]) else env[k] == w[k]):
                        bad.append((("value", k), "has %s=%r%s" % (k, env[k], "" if callable(w[k]) else ", not %r" % w[k])))
                if os.path.realpath(e["payload"]["cwd"]) != os.path.realpath(w["PWD"]):
                    bad.append((("cwd", "PWD"), "starts in %r with PWD=%r" % (e["payload"]["cwd"], w["PWD"])))
                if not bad:
                    diffs = []
                    break
                diffs.append(bad)
            if diffs:
                for kk, t in diffs[0][:3]:
                    issue("env-%s-%s" % (kk[0], kk[1] if kk[1] in AUTO or kk[1] == "PWD" else "other"),
                          "run of %r (%s) %s" % (e["job"], env.get("VP_TID", "schedule"), t))
                continue
            if x is None:
                continue
            count("envs")
            count("variables", len(env))
            count("overrides", n)
            for name, c in (("envs-trigger", "VP_TID" in env), ("jenkins", "BUILD_TAG" in env), ("job-group", "JOB_GROUP" in env),
                            ("group", "CONCURRENCY_GROUP" in env), ("pwd-dir", isdir), ("no-user", "LOGNAME" not in env),
                            ("no-path", scn["environ"]["PATH"] is None)):
                if c:
                    count(name)
        out = {"violations": v, "counts": counts, "fp": simcheck.fingerprint(res)}
        if i < 3:
            s = [e for e in res["hist"] if e["e"] == "start"][-1:]
            out["sample"] = {"config": scn["config_files"], "env": s and s[0]["payload"].get("env")}
        return out
    finally:
        ctx.rm(d)
