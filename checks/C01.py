"""Configuration sources merge with the documented precedence."""
import json
import os
import zlib

import gencfg
import model
import simcore
import tools

RULE = ("one evaluation = one set of configuration files (main files, config.d in both formats, decoys) with overlapping contents, dumped raw "
        "and compiled by the real tool and compared with an independent merge; job groups additionally with the jobs written out; distinct = "
        "different set of files")
NEED = {"sets": 500, "overrides": 1000, "config_d-files": 600, "redirected": 50, "group-jobs": 80, "recursive-merges": 600, "type-conflicts": 150}
ASSUMPTIONS = ["alphanumeric order is the order of the file names' characters (ASCII)", "a job group prevails over a job of the same name"]
QUICK = 900
THOROUGH = 40000
setup = tools.prepare

LEAF = [None, 0, 1, -1.5, "", "text", True, False, [], [1, 2], ["x"], [{"a": 1}], [None], {}, "\u2603", [["n"]], 10 ** 12]


def tree(rng, depth=0):
    if depth and rng.random() < 0.45 or depth > 3:
        return rng.choice(LEAF)
    return {k: tree(rng, depth + 1) for k in rng.sample(["a", "b", "c", "d"], rng.randrange(1, 4))}


def piece(rng, names, members, groups):
    """A partial configuration document."""
    d = {}
    shared = gencfg.environment(rng)
    if rng.random() < 0.8:
        d["jobs"] = {}
        for n in names:
            if rng.random() < 0.6:
                j = gencfg.job(rng, groups)
                if rng.random() < 0.5:
                    j.pop("command")
                if rng.random() < 0.3:
                    j["environment"] = shared
                if rng.random() < 0.2:
                    j["x-note"] = tree(rng, 1)
                keep = [k for k in sorted(j) if rng.random() < 0.8]
                d["jobs"][n] = {k: j[k] for k in keep}
        if rng.random() < 0.1:
            d["jobs"] = {}
    if rng.random() < 0.4:
        d["job_groups"] = {}
        for g, ms in members.items():
            if rng.random() < 0.6:
                j = gencfg.job(rng, groups)
                j.pop("job_group", None)
                d["job_groups"][g] = {k: j[k] for k in sorted(j) if rng.random() < 0.7}
                if rng.random() < 0.6:
                    d["job_groups"][g]["job_names"] = rng.sample(ms, rng.randrange(0, len(ms) + 1))
    if rng.random() < 0.5:
        d["concurrency_groups"] = {g: ({"max": rng.randrange(1, 9)} if rng.random() < 0.7 else {}) for g in groups if rng.random() < 0.6}
    if rng.random() < 0.6:
        d["extra"] = tree(rng)
    if rng.random() < 0.5:
        d["environment"] = shared if rng.random() < 0.3 else gencfg.environment(rng)
    o = gencfg.doc(rng, 0)
    for k in ("report_html_gz", "report_run_output_start", "report_run_output_end", "shutdown_kill_runs", "shutdown_kill_grace", "template_dir"):
        if k in o and rng.random() < 0.7:
            d[k] = o[k]
    if rng.random() < 0.3:
        d["data_dir"] = "@ROOT@/" + rng.choice(["var", "var2", "v a r"])
    if rng.random() < 0.2:
        d["database"] = {k: v for k, v in (("type", "sqlite3"), ("file", "@ROOT@/db%d" % rng.randrange(3)), ("x", rng.choice(LEAF))) if rng.random() < 0.6}
    return d


STAT = {}


def merge(a, b):
    """b over a, neither is changed."""
    out = dict(a)
    for k, v in b.items():
        if k in out:
            STAT["overrides"] = STAT.get("overrides", 0) + 1
            if isinstance(out[k], dict) and isinstance(v, dict):
                STAT["recursive-merges"] = STAT.get("recursive-merges", 0) + 1
                out[k] = merge(out[k], v)
                continue
            if isinstance(out[k], dict) or isinstance(v, dict):
                STAT["type-conflicts"] = STAT.get("type-conflicts", 0) + 1
        out[k] = v
    return out


def case(i, rng, ctx):
    groups = list({gencfg.name(rng) for _ in range(3)})
    pool = list(dict.fromkeys(gencfg.name(rng) for _ in range(12)))
    names, rest = pool[:3], pool[3:]
    members = {}
    for _ in range(rng.randrange(0, 3)):
        if len(rest) >= 2:
            members[gencfg.name(rng)], rest = rest[:2], rest[2:]
    if members and rng.random() < 0.25:
        # also written out: the group prevails
        g = rng.choice(sorted(members))
        members[g] = members[g] + rng.sample(names, rng.randrange(1, 3))
    mode = ["default", "default", "redirect", "null", "default", "relative", "absent"][i % 7]
    main = [x for x in ("dsari.yaml", "dsari.json") if rng.random() < 0.75] or ["dsari.json"]
    if mode == "redirect" and rng.random() < 0.1:
        main = ["dsari.yaml", "dsari.json"]
    tags = ["00", "10", "20", "2a", "aa", "ab", "zz", "50", "55", ".local"]
    if rng.random() < 0.35:
        # told apart only by the order of the characters
        tags = ["9", "10", "100", "A", "B", "a", "b", "Z", "a-b", "a.b", "a b", "a_b", "ab", "b.yaml", "-", "B.c", ".h", ".json", "#x"]
    tags = rng.sample(tags, rng.randrange(0, 5))
    cd = sorted({t + rng.choice([".yaml", ".json"]) for t in tags} | {t + ".json" for t in tags if rng.random() < 0.3})
    order = [x for x in ("dsari.yaml", "dsari.json") if x in main]
    docs = {x: piece(rng, names, members, groups) for x in main + ["cd/" + c for c in cd]}
    cdir = {"default": "config.d", "redirect": "../other dir", "null": None, "relative": None, "absent": None}[mode]
    if mode == "redirect":
        x = rng.choice(main)
        docs[x]["config_d"] = "@ROOT@/other dir"
        if len(main) == 2 and x == "dsari.json" and rng.random() < 0.5:
            docs["dsari.yaml"]["config_d"] = "@ROOT@/wrong"
    elif mode == "null":
        docs[main[-1]]["config_d"] = None
    elif mode == "absent":
        docs[main[-1]]["config_d"] = "@ROOT@/does/not/exist"
    elif mode == "relative":
        docs[main[-1]]["config_d"] = "reldir"
        cdir = "../reldir"
    used = list(order)
    if cdir is not None:
        used += ["cd/" + c for c in cd if c.endswith(".yaml")] + ["cd/" + c for c in cd if c.endswith(".json")]
        if mode == "default" and len(used) > len(order) and rng.random() < 0.2:
            docs[used[-1]]["config_d"] = "@ROOT@/too late"

    def total():
        m = {}
        for x in used:
            m = merge(m, docs[x])
        return m

    # what is missing for a valid configuration is put into some file
    m = total()
    for kind, ns in (("jobs", m.get("jobs") or {}), ("job_groups", m.get("job_groups") or {})):
        for n, j in list(ns.items()):
            if "command" not in j:
                docs[rng.choice(used)].setdefault(kind, {}).setdefault(n, {})["command"] = gencfg.command(rng)
            if kind == "job_groups" and "job_names" not in j:
                docs[rng.choice(used)].setdefault(kind, {}).setdefault(n, {})["job_names"] = members[n][:1]
    if not m.get("data_dir"):
        docs[rng.choice(used)]["data_dir"] = "@ROOT@/var3"
    STAT.clear()
    m = total()
    st = dict(STAT)
    files = {}
    place = {}
    for x, d in docs.items():
        if x.startswith("cd/"):
            place[x] = (cdir or "config.d") + x[2:]
        else:
            place[x] = x
    decoy = json.dumps({"jobs": {"decoy": {"command": "/bin/false"}}, "extra": "decoy", "report_html_gz": True, "config_d": "/nonexistent"})
    for x in ("dsari.yml", "other.json", "dsari.json~", "dsari.json.bak", "jobs.yaml", "dsari"):
        if rng.random() < 0.3:
            files[x] = decoy
    for x in ("x.yml", "README", "x.json~", "x.json.bak", "x.yaml.dpkg-old", "sub/x.json", "dir.json/x.json", "dir.yaml/y.yaml", "json", "x.jsonx", "x.txt"):
        if rng.random() < 0.3:
            files[(cdir or "config.d") + "/" + x] = decoy
    if mode in ("redirect", "relative") and rng.random() < 0.7:
        files["config.d/00.json"] = decoy
        files["config.d/zz.yaml"] = decoy
    if mode == "redirect" and rng.random() < 0.5:
        files["../wrong/00.json"] = decoy
    for x, d in docs.items():
        files[place[x]] = gencfg.dump_json(rng, d) if x.endswith(".json") else gencfg.dump_yaml(rng, d)
    ks = list(files)
    rng.shuffle(ks)
    return {"files": {k: files[k] for k in ks}, "merged": m, "used": used, "mode": mode, "stat": st, "now": 1600000000 + rng.randrange(10 ** 8),
            "link": rng.random() < 0.3, "cdir": cdir}


def run(item, i, ctx):
    v, keys = [], set()

    def bad(key, what):
        if key not in keys:
            keys.add(key)
            v.append({"key": key, "what": "%s; files in loading order %r: %r" % (what, item["used"], item["files"])})

    root = os.path.realpath(ctx.tmp("c%d-%d" % (os.getpid(), i)))
    try:
        conf = tools.configure(root, item["files"])
        if item["link"]:
            d = os.path.join(conf, item["cdir"] or "config.d")
            os.makedirs(d, exist_ok=True)
            os.symlink("nowhere.json", os.path.join(d, "m0.json"))
        k = {"now": item["now"], "tick_ns": 0}
        want = json.loads(json.dumps(item["merged"]).replace("@ROOT@", root))
        r = tools.info(root, conf, "config", "dump", "--raw", **k)
        ry = tools.info(root, conf, "config", "dump", "--raw", "--format", "yaml", **k)
        c = tools.info(root, conf, "config", "dump", **k)
        if r.code or c.code or ry.code:
            bad("no-dump", "dump failed: %r %r" % (r, c))
            return {"violations": v}
        got = r.json()
        for a, name in ((got, "raw"), (ry.yaml(), "raw-yaml")):
            if not model.same(a, want):
                ks = [x for x in sorted(set(a) | set(want)) if not model.same(a.get(x, "(absent)"), want.get(x, "(absent)"))]
                bad(name, "%s should be %r, is %r" % (ks[0], want.get(ks[0], "(absent)"), a.get(ks[0], "(absent)")))
        comp = c.json()
        jobs = gencfg.compiled_jobs(want)

        def without_next(js):
            return {n: {o: x for o, x in j.items() if o != "next_scheduled_run"} for n, j in js.items()}

        gj = without_next(comp["jobs"])
        for n in sorted(set(gj) | set(jobs)):
            if n not in gj or n not in jobs or not model.same(gj[n], jobs[n]):
                bad("jobs", "job %r should be %r, is %r" % (n, jobs.get(n), gj.get(n)))
        cg = {g: x.get("max", 1) for g, x in (want.get("concurrency_groups") or {}).items()}
        for j in jobs.values():
            for g in j["concurrency_groups"]:
                cg.setdefault(g, 1)
        if {g: x["max"] for g, x in comp["concurrency_groups"].items()} != cg:
            bad("groups", "concurrency groups should be %r, are %r" % (cg, comp["concurrency_groups"]))
        for o, dflt in (("report_html_gz", False), ("report_run_output_start", 0), ("report_run_output_end", 0), ("shutdown_kill_runs", False),
                        ("shutdown_kill_grace", None), ("template_dir", None), ("environment", {})):
            w = want[o] if want.get(o) is not None else dflt
            if o == "environment":
                w = {a: b if isinstance(b, str) else str(b) for a, b in w.items()}
            if not model.same(comp.get(o, "(absent)"), w):
                bad(o, "%s should be %r, is %r" % (o, w, comp.get(o, "(absent)")))
        if want.get("data_dir") and comp["data_dir"] != want["data_dir"]:
            bad("data_dir", "data_dir should be %r, is %r" % (want["data_dir"], comp["data_dir"]))
        ng = sum(len(g["job_names"]) for g in (want.get("job_groups") or {}).values())
        if ng:
            # the same, written out
            out = {x: y for x, y in want.items() if x not in ("job_groups", "config_d")}
            out["jobs"] = dict(out.get("jobs") or {})
            for g, t in want["job_groups"].items():
                for n in t["job_names"]:
                    out["jobs"][n] = dict({x: y for x, y in t.items() if x != "job_names"}, job_group=g)
            simcore.write_files(os.path.join(root, "explicit"), {"dsari.json": json.dumps(out)})
            c2 = tools.info(root, os.path.join(root, "explicit"), "config", "dump", **k)
            if c2.code:
                bad("explicit", "the jobs written out are rejected: %r" % c2)
            else:
                o = c2.json()
                rnd = {n for n, x in jobs.items() if x["schedule"] and "R" in x["schedule"].split("RULE")[0] and
                       not x["schedule"].upper().startswith("RRULE")}
                for n in sorted(set(o["jobs"]) | set(comp["jobs"])):
                    a, b = o["jobs"].get(n), comp["jobs"].get(n)
                    if n in rnd and a and b:
                        a, b = dict(a, next_scheduled_run=0), dict(b, next_scheduled_run=0)
                    if not model.same(a, b):
                        bad("written-out", "job %r written out is %r, from its job group %r" % (n, a, b))
                if not model.same(o["concurrency_groups"], comp["concurrency_groups"]):
                    bad("written-out", "concurrency groups differ: %r, %r" % (o["concurrency_groups"], comp["concurrency_groups"]))
        counts = dict(item["stat"], sets=1)
        counts["config_d-files"] = len([x for x in item["used"] if x.startswith("cd/")])
        counts["redirected"] = int(item["mode"] in ("redirect", "relative"))
        counts["group-jobs"] = ng
        out = {"violations": v, "counts": counts, "fp": str(zlib.crc32(json.dumps(item["files"], sort_keys=True).encode()))}
        if i < 2:
            out["sample"] = {"files": item["files"], "raw dump": r.text[:1500]}
        return out
    finally:
        ctx.rm(root)
