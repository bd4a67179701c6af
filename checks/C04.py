"""Without optional packages everything else goes on working, as documented."""
import contextlib
import copy
import importlib
import io
import json
import os
import random
import sys
import traceback

import yaml

import gen
import gencfg
import rows
import simcheck
import simcore
import tools

RULE = ("one evaluation = one recorded history of the real daemon, or one installation on which all tools are run, with some of the optional packages "
        "not importable; a history is judged by the trace checker (with the schedules concerned taken away), outputs are compared with those of the tools with "
        "all packages; distinct = different set of packages and different history or installation")
NEED = {"histories": 60, "no-croniter": 20, "no-dateutil": 20, "no-yaml": 20, "starts": 400, "tool-outputs": 500, "unscheduled-jobs": 60, "kept-schedules": 20,
        "yaml-refused": 10, "yaml-config.d": 2}
ASSUMPTIONS = ["a package that is not installed cannot be imported; nothing else is different", "croniter needs python-dateutil"]
QUICK = 220
THOROUGH = 4000
SETS = [["croniter"], ["croniter", "dateutil"], ["yaml"], ["termcolor", "IPython"], ["lzma", "_lzma"],
        ["croniter", "dateutil", "yaml", "termcolor", "IPython", "lzma", "_lzma"], ["croniter", "yaml"]]
PROF = {"hups": 0.5, "p_trigger_time": 0.5, "durs": [(2, 1.0), (2, 14.0), (2, 75.5), (1, 200.0)], "ntrig": [(1, 10)], "spans": [(1, 900.0)]}


class Blocker:
    def __init__(self, names):
        self.names = set(names)

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.names:
            raise ModuleNotFoundError("No module named %r" % name, name=name)


def block(names):
    """In this (throw-away) process: as if they were not installed."""
    names = set(names)
    if "yaml" in names:
        names.add("_yaml")
    for m in list(sys.modules):
        if m.split(".")[0] in names | {"dsari", "croniter"}:
            del sys.modules[m]
    if names:
        sys.meta_path.insert(0, Blocker(names))


def usable(sched, names):
    if not sched:
        return False
    if sched.upper().startswith("RRULE:"):
        return "dateutil" not in names
    return "croniter" not in names


def case(i, rng, ctx):
    names = SETS[(i // 2) % len(SETS)]
    if i % 2:
        return install(rng, names)
    scn = gen.scenario(rng, PROF, "C04")
    full = copy.deepcopy(scn["model"])
    for cid, c in scn["model"].items():
        for j in c.get("jobs", {}).values():
            if j.get("sched") and not usable(j["sched"], names):
                j["sched"] = None

    def conf(files, cid):
        if scn["model"][cid].get("broken"):
            return {"dsari.json": "{", "dsari.yaml": None}
        d = files.get("dsari.json") or files.get("dsari.yaml")
        d = yaml.safe_load(d) if files.get("dsari.yaml") else json.loads(d)
        if "yaml" in names or rng.random() < 0.5:
            return {"dsari.json": json.dumps(d), "dsari.yaml": None}
        return {"dsari.yaml": yaml.safe_dump(d), "dsari.json": None}

    scn["config_files"] = conf(scn["config_files"], "c0")
    for e in scn["events"] + scn["precreate_triggers"]:
        if e["op"] == "config":
            e["files"] = conf(e["files"], e["cid"])
        if e["op"] != "trigger":
            continue
        d = yaml.safe_load(e["content"]) if e["ext"] == "yaml" else json.loads(e["content"])
        if "dateutil" in names and isinstance(d.get("schedule_time"), str):
            d["schedule_time"] = e["meta"]["due"]
            scn["trigger_data"][e["tid"]] = dict(scn["trigger_data"][e["tid"]], schedule_time=e["meta"]["due"])
        if e["ext"] == "json" or "yaml" in names:
            e["ext"], e["content"] = "json", json.dumps(d)
        else:
            e["content"] = yaml.safe_dump(d)
            if yaml.safe_load(e["content"]) != d:
                e["ext"], e["content"] = "json", json.dumps(d)
    scn["blocked"] = names
    scn["unscheduled"] = sum(bool(j.get("sched")) and not usable(j["sched"], names) for c in full.values() for j in c.get("jobs", {}).values())
    return scn


def unscheduled(scn):
    """The same history for a daemon with all packages: the schedules which cannot be used are not configured."""
    scn = copy.deepcopy(scn)

    def strip(files):
        for fn, t in files.items():
            if t is None:
                continue
            try:
                d = yaml.safe_load(t) if fn.endswith(".yaml") else json.loads(t)
            except ValueError:
                continue
            for j in d.get("jobs", {}).values():
                if not usable(j.get("schedule"), scn["blocked"]):
                    j.pop("schedule", None)
            files[fn] = json.dumps(d)

    strip(scn["config_files"])
    for e in scn["events"]:
        if e["op"] == "config":
            strip(e["files"])
    return scn


def history(scn, i, ctx):
    names = scn["blocked"]

    def entry(names):
        def f():
            simcore.W.trusted = True  # packages do things of their own when imported
            try:
                block(names)
                mod = importlib.import_module("dsari.daemon")
            finally:
                simcore.W.trusted = False
            return mod.main()
        return f

    def play(scn, names, i):
        d = ctx.tmp("h%d-%s" % (os.getpid(), i))
        try:
            return simcore.fork_history(scn, d, entry(names))
        finally:
            ctx.rm(d)

    res = play(scn, names, i)
    out = simcheck.judge("C04", scn, res)
    if out.get("error") and not res.get("exit"):
        return out
    other = out.pop("other", None) or []
    if out.get("error") or other:
        plain = unscheduled(scn)
        o2 = simcheck.judge("C04", plain, play(plain, [], "%s-plain" % i))
        if o2.get("error") or o2.get("other"):
            # not the packages' fault
            return {"violations": [], "nontrivial": False} if not out.get("error") else out
        out.pop("error", None)
        out["violations"] = [dict(x, what="without %s: %s" % (", ".join(names), x["what"])) for x in other[:4]] or [
            {"key": "aborted", "what": "without %s: history aborted: %s" % (", ".join(names), res["exit"])}]
    out["fp"] = "%s/%s" % ("+".join(names), out.get("fp"))
    n = out.setdefault("counts", {})
    n["histories"] = 1
    n["unscheduled-jobs"] = scn["unscheduled"]
    for x in ("croniter", "dateutil", "yaml"):
        n["no-" + x] = int(x in names)
    if i < 6:
        out["sample"] = dict(simcheck.sample(scn, res), without=names)
    return out


# -- tools -------------------------------------------------------------------------------------
def install(rng, names):
    d = gencfg.doc(rng, rng.randrange(1, 6))
    for k in ("template_dir", "database"):
        d.pop(k, None)
    every = list(d["jobs"].values()) + list(d.get("job_groups", {}).values())
    for j in every:
        s = j.get("schedule")
        if s and not s.upper().startswith("RRULE:") and "R" in s.upper().replace("MAR", "").replace("APR", "").replace("FRI", "").replace("YEARLY", "").replace(
                "HOURLY", ""):
            j["schedule"] = "H/20 * * * *"
    jobs = list(gencfg.compiled_jobs(d))
    t = rng.randrange(1500000000, 1800000000)
    done = rows.history(rng, jobs, t, t + 10 ** 6, rng.choice([0, 3, 30]))
    live = [rows.record(rng, rng.choice(jobs), t + rng.uniform(0, 10 ** 6), running=True) for _ in range(rng.choice([0, 2]))]
    as_yaml = rng.random() < 0.5
    return {"cfg": d, "as_yaml": as_yaml, "done": done, "live": live, "now": t + 10 ** 6 + 0.5, "tz": rng.choice(gen.TZS), "blocked": names}


def outputs(root, conf, item, names, calls):
    """{call: [exit code, output, error]} of all calls, in one process."""

    def f():
        block(names)
        out = {}
        for tool, argv in calls:
            so, se = io.StringIO(), io.StringIO()
            code = 0
            with contextlib.redirect_stdout(so), contextlib.redirect_stderr(se):
                random.seed(1)
                try:
                    mod = importlib.import_module("dsari." + tool)
                    sys.argv = ["dsari-" + tool.replace("_", "-")] + ["-c", conf] + argv
                    r = mod.main()
                    code = r if isinstance(r, int) else 0
                except SystemExit as e:
                    code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                except Exception:
                    code = 70
                    traceback.print_exc()
            out[tool + " " + " ".join(argv)] = [code, so.getvalue(), se.getvalue()[-1500:]]
        return out

    r = tools.forked(root, f, now=item["now"], tz=item["tz"], tick_ns=0, environ={"COLUMNS": None, "DSARI_HOME": root, "WSGI_ARGS": json.dumps(["-c", conf])})
    if not isinstance(r.extra, dict):
        raise RuntimeError("tools: %r" % r)
    return r.extra


def tree(d):
    out = {}
    for a, _, fs in os.walk(d):
        for f in fs:
            if f.endswith((".html", ".txt", ".gz")):
                with open(os.path.join(a, f), "rb") as h:
                    out[os.path.relpath(os.path.join(a, f), d)] = h.read()
    return out


def run_tools(item, i, ctx):
    v, counts = [], dict.fromkeys(NEED, 0)
    names = item["blocked"]

    def bad(key, what, **k):
        if not any(x["key"] == key for x in v):
            v.append(dict(k, key=key, what="without %s: %s" % (", ".join(names), what)))

    def root_with(sub, as_yaml):
        # the same path for both, as it shows in the output
        root = os.path.join(base, "r")
        conf = tools.configure(root, {"dsari.yaml": yaml.safe_dump(item["cfg"])} if as_yaml else {"dsari.json": json.dumps(item["cfg"])})
        rows.write(os.path.join(root, "var", "dsari.sqlite3"), item["done"], item["live"])
        for n, r in enumerate(item["done"] + item["live"]):
            p = os.path.join(root, "var", "runs", r["job_name"], r["run_id"])
            os.makedirs(p)
            with open(os.path.join(p, "output.txt"), "w") as h:
                h.write("output %d of %s\n" % (n, r["job_name"]))
        return root, conf

    base = os.path.realpath(ctx.tmp("c%d-%d" % (os.getpid(), i)))
    calls = [("info", ["config", "check"]), ("info", ["config", "dump"]), ("info", ["config", "dump", "--raw"]), ("info", ["job", "list", "--format", "json"]),
             ("info", ["job", "list"]), ("info", ["job", "list", "--format", "tabular"]), ("info", ["run", "list", "--format", "json"]), ("info", ["run", "list"])]
    if item["done"]:
        calls.append(("info", ["run", "output", item["done"][0]["run_id"]]))
    calls += [("render", []), ("prometheus_exporter", ["--dump"])]
    if "yaml" not in names:
        calls += [("info", ["config", "dump", "--format", "yaml"]), ("info", ["run", "list", "--format", "yaml"])]
    as_yaml = item["as_yaml"] and "yaml" not in names
    try:
        both = []
        for sub, b in (("with", []), ("without", names)):
            root, conf = root_with(sub, as_yaml)
            both.append((outputs(root, conf, item, b, calls), tree(os.path.join(root, "var", "html"))))
            ctx.rm(root)
        (o1, t1), (o2, t2) = both
        if any(o1[c][0] for c in o1):
            return {"violations": [], "nontrivial": False, "counts": counts}
        comp = gencfg.compiled_jobs(item["cfg"])
        for c in o1:
            a, b = o1[c], o2[c]
            counts["tool-outputs"] += 1
            if b[0] != 0:
                bad("failed " + c.split(" ")[0], "%s ended with %r: %s" % (c, b[0], b[2][-600:]))
                continue
            x, y = a[1], b[1]
            if "job list" in c and "json" not in c:
                if sorted(n for n in comp if n in y) != sorted(comp):
                    bad("job list", "%s does not list all jobs" % c, got=y)
                continue
            if "job list" in c or "config dump" in c and "raw" not in c:
                try:
                    x, y = yaml.safe_load(x), yaml.safe_load(y)
                except yaml.YAMLError as e:
                    bad("unreadable", "%s: %s" % (c, e))
                    continue
                for j in (x if "job list" in c else x.get("jobs", {})).values():
                    # a schedule that cannot be used has no next run
                    if j.get("schedule") and "next_scheduled_run" in j:
                        if not usable(j["schedule"], names):
                            j["next_scheduled_run"] = None
                            counts["unscheduled-jobs"] += 1
                        elif "croniter" in names:
                            counts["kept-schedules"] += 1
            if x != y:
                bad("differs " + c.split(" ")[0], "output of %s differs" % c, with_all=str(x)[:1500], without=str(y)[:1500])
        if t1 != t2:
            diff = sorted(p for p in set(t1) | set(t2) if t1.get(p) != t2.get(p))
            bad("reports", "reports differ: %s" % diff[:5])
        if "yaml" in names and item["as_yaml"]:
            # cannot be read, so nothing may be made of it
            root, conf = root_with("yaml", i % 4 < 2)
            if i % 4 >= 2:
                os.makedirs(os.path.join(conf, "config.d"), exist_ok=True)
                with open(os.path.join(conf, "config.d", "50.yaml"), "w") as h:
                    h.write(yaml.safe_dump({"jobs": {"another": {"command": "true"}}}))
                counts["yaml-config.d"] += 1
            o = outputs(root, conf, item, names, [("info", ["config", "check"]), ("info", ["job", "list"])])
            counts["yaml-refused"] += 1
            for c, r in o.items():
                if r[0] == 0:
                    bad("yaml ignored", "%s succeeded with YAML files in the configuration, which cannot be read" % c, got=r)
    finally:
        ctx.rm(base)
    out = {"violations": v, "counts": counts, "fp": "%s/%s" % ("+".join(names), json.dumps(item["cfg"], sort_keys=True)[:3000])}
    if i < 6:
        out["sample"] = {"without": names, "calls": [" ".join([t] + a) for t, a in calls], "job list": o2["info job list"][1][:800]}
    return out


def run(item, i, ctx):
    return run_tools(item, i, ctx) if "cfg" in item else history(item, i, ctx)
