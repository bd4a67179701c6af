"""Reports are complete, consistent and hide what must be hidden."""
import gzip
import json
import os
import zlib

import gen
import gencfg
import report
import rows
import simcore
import tools

RULE = ("one evaluation = one history written to the database in steps, with a rendering of the real tool after each and all its pages parsed and compared "
        "with the history; distinct = different history, configuration or sequence of renderings")
NEED = {"renderings": 250, "regenerations": 40, "run-pages": 3000, "job-pages": 500, "index-pages": 200, "hidden": 80, "kept-marks": 60, "dropped-marks": 20,
        "full-index": 20, "full-failed": 15, "config-changes": 20, "gz": 60, "toggles": 20, "removed-pages": 40, "empty-directories": 60, "links": 8000}
ASSUMPTIONS = ["pages of jobs without any run, and pages left over from earlier configurations, are not judged",
               "the index is judged whenever a rendering had new runs or was asked to regenerate"]
QUICK = 260
THOROUGH = 5000
CASE_S = 300
setup = tools.prepare
BAD_NAMES = {"index.html", "index.html.gz", "darkly.min.css"}


def case(i, rng, ctx):
    cfg = gencfg.doc(rng, rng.randrange(1, 6))
    cfg.pop("database", None)
    cfg.pop("template_dir", None)
    cfg.pop("report_run_output_start", None)
    cfg.pop("report_run_output_end", None)
    if i == 0:
        # the page of this job is stored in the place of the index
        cfg = {"data_dir": "@ROOT@/var", "jobs": {"index.html": {"command": "/bin/true"}, "other": {"command": "/bin/true"}}}
    jobs = list(gencfg.compiled_jobs(cfg))
    for n in jobs if i else ():
        if n in BAD_NAMES:
            raise RuntimeError("name")
    t = 1500000000 + rng.randrange(3 * 10 ** 8)
    steps, hidden = [], {}
    for k in range(rng.randrange(2, 6)):
        t2 = t + rng.choice([86400 * 3, 86400 * 30, 86400 * 400])
        pool = rng.sample(jobs, rng.randrange(1, len(jobs) + 1)) + (["gone job"] if rng.random() < 0.3 else [])
        n = rng.choice([0, 1, 2, 5, 12, 30, 60])
        if i % 9 == 1 and k == 0:
            n = rng.randrange(150, 500)
        if i == 0:
            pool, n = jobs, 12
        hist = rows.history(rng, pool, t, t2, n, 0.97 if i % 18 == 1 else 0.0)
        if rng.random() < 0.25:
            # as after an import
            rng.shuffle(hist)
        live = [rows.record(rng, rng.choice(pool), t2 - 5, running=True) for _ in range(rng.choice([0, 0, 1, 3]))]
        hide = None
        if k and i and rng.random() < 0.25:
            hide = {j: rng.random() < 0.4 for j in jobs}
        steps.append({"runs": hist, "live": live, "r": rng.random() < 0.2, "now": t2 + 1, "hide": hide, "mark": rng.random() < 0.6,
                      "gz": bool(k and i and rng.random() < 0.12), "gone": rng.random() < 0.2, "dirs": rng.random() < 0.3})
        t = t2
    steps.append({"runs": [], "live": [], "r": rng.random() < 0.5, "now": t + 5, "hide": None, "mark": True, "gz": False, "gone": False, "dirs": False})
    return {"cfg": cfg, "jobs": jobs, "steps": steps, "tz": rng.choice(gen.TZS), "seed": rng.randrange(10 ** 9)}


def configured(cfg, hide):
    d = json.loads(json.dumps(cfg))
    src = dict(d.get("jobs") or {})
    if hide:
        # written out, so that every job may have a setting of its own
        for g, tpl in (d.pop("job_groups", None) or {}).items():
            for n in tpl["job_names"]:
                src[n] = {k: x for k, x in tpl.items() if k != "job_names"}
        for n, h in hide.items():
            src[n]["render_reports"] = not h
        d["jobs"] = src
    return d


def run(item, i, ctx):
    import random

    v, keys = [], set()
    counts = dict.fromkeys(NEED, 0)

    def bad(key, what):
        if i == 0:
            key = "job-named-index.html"
        if key not in keys:
            keys.add(key)
            v.append({"key": key, "what": what})

    rng = random.Random(item["seed"])
    root = os.path.realpath(ctx.tmp("c%d-%d" % (os.getpid(), i)))
    try:
        var = os.path.join(root, "var")
        base = os.path.join(var, "html")
        db = os.path.join(var, "dsari.sqlite3")
        cfg = configured(item["cfg"], None)
        conf = tools.configure(root, {"dsari.json": json.dumps(cfg)})
        gz = bool(cfg.get("report_html_gz"))
        rows.write(db)
        history, rendered, marks = [], set(), {}
        index_current = toggled = False
        for k, s in enumerate(item["steps"]):
            changed = False
            if s["hide"]:
                cfg = configured(cfg, s["hide"])
                tools.configure(root, {"dsari.json": json.dumps(cfg)})
                counts["config-changes"] += 1
                changed = True
            if s["gz"]:
                gz, toggled = not gz, True
                cfg["report_html_gz"] = item["cfg"]["report_html_gz"] = gz
                tools.configure(root, {"dsari.json": json.dumps(cfg)})
                counts["toggles"] += 1
                marks.clear()
                rendered.clear()
                index_current = False
            shown = [n for n, j in gencfg.compiled_jobs(cfg).items() if j["render_reports"]]
            c = rows.connect(db)
            c.execute("DELETE FROM runs_running")
            rows.add(c, s["runs"], s["live"])
            c.close()
            history += s["runs"]
            for r in s["runs"]:
                d = os.path.join(var, "runs", r["job_name"], r["run_id"])
                os.makedirs(d, exist_ok=True)
                with open(os.path.join(d, "output.txt"), "w") as f:
                    f.write("output of %s\n" % r["run_id"])
            if s["mark"]:
                for p in rng.sample(sorted(rendered), min(2, len(rendered))):
                    if p not in marks and p[0] in shown:
                        f = os.path.join(base, p[0], p[1], "index.html" + (".gz" if gz else ""))
                        if os.path.isfile(f):
                            with (gzip.open if gz else open)(f, "ab") as h:
                                h.write(b"<!-- mark -->")
                            marks[p] = f
            if s["gone"]:
                # pages somebody removed; the directory stays
                for p in rng.sample(sorted(rendered), min(3, len(rendered))):
                    f = os.path.join(base, p[0], p[1], "index.html" + (".gz" if gz else ""))
                    if p not in marks and os.path.isfile(f):
                        os.remove(f)
                        rendered.discard(p)
                        counts["removed-pages"] += 1
            if s["dirs"]:
                # as left behind by a rendering that was killed
                for r in s["runs"][:3]:
                    if r["job_name"] in shown:
                        os.makedirs(os.path.join(base, r["job_name"], r["run_id"]), exist_ok=True)
                        counts["empty-directories"] += 1
            before = tree(base)
            new = [r for r in history if r["job_name"] in shown and (r["job_name"], r["run_id"]) not in rendered]
            x = tools.call(root, "render", ["-c", conf] + (["-r"] if s["r"] else []), now=s["now"], tz=item["tz"], tick_ns=1000)
            counts["renderings"] += 1
            counts["regenerations"] += s["r"]
            counts["gz"] += gz
            what = "rendering %d of %d%s" % (k + 1, len(item["steps"]), " (regenerate)" if s["r"] else "")
            if x.code != 0:
                bad("failed", "%s failed: %r" % (what, x))
                return {"violations": v, "counts": counts, "fp": "failed"}
            if new or s["r"]:
                index_current = True
            elif changed:
                index_current = False
            rendered.update((r["job_name"], r["run_id"]) for r in new)
            # nothing of hidden or unknown jobs is written
            for f in set(tree(base).items()) ^ set(before.items()):
                p = os.path.relpath(f[0], base).split(os.sep)
                if len(p) > 1 and p[0] not in shown:
                    bad("hidden", "%s wrote %r of a job that is not shown" % (what, os.path.join(*p)))
            counts["hidden"] += sum(1 for r in s["runs"] if r["job_name"] not in shown)
            for p, f in list(marks.items()):
                if p[0] not in shown:
                    continue
                data = content(os.path.join(base, p[0], p[1], "index.html"), gz) or b""
                if s["r"]:
                    counts["dropped-marks"] += 1
                    if data.endswith(b"<!-- mark -->"):
                        bad("not-rewritten", "%s did not rewrite the page of run %s" % (what, p[1]))
                    del marks[p]
                else:
                    counts["kept-marks"] += 1
                    if not data.endswith(b"<!-- mark -->"):
                        bad("rewritten", "%s rewrote the existing page of run %s" % (what, p[1]))
            judge(base, gz, shown, [r for r in history if r["job_name"] in shown], index_current, item["tz"], counts, bad, what, toggled)
        out = {"violations": v, "counts": counts, "fp": zlib.crc32(json.dumps([s["runs"] for s in item["steps"]] + [item["cfg"]]).encode())}
        if i == 1:
            out["sample"] = {"steps": [[len(s["runs"]), len(s["live"]), s["r"], bool(s["hide"])] for s in item["steps"]], "shown": shown}
        return out
    finally:
        ctx.rm(root)


def tree(base):
    out = {}
    for d, _, fs in os.walk(base):
        for f in fs:
            p = os.path.join(d, f)
            st = os.lstat(p)
            out[p] = (st.st_mtime_ns, st.st_size, st.st_ino)
    return out


def content(path, gz):
    try:
        with (gzip.open(path + ".gz") if gz else open(path, "rb")) as f:
            return f.read()
    except FileNotFoundError:
        return None


def page(base, gz, rel, bad, toggled=False):
    """Parsed page below base; None (after a report) if it is missing or broken."""
    p = os.path.join(base, rel, "index.html")
    if not os.path.isfile(p + (".gz" if gz else "")):
        bad("missing-page", "there is no page %s" % os.path.join(rel, "index.html" + (".gz" if gz else "")))
        return None
    if not toggled and os.path.exists(p + ("" if gz else ".gz")):
        bad("two-pages", "%s is stored both plain and compressed" % os.path.join(rel, "index.html"))
    try:
        return report.Page(content(p, gz).decode("utf-8"))
    except ValueError as e:
        bad("page", "page of %r: %s" % (rel, e))
        return None


def judge(base, gz, shown, hist, index_current, tz, counts, bad, what, toggled=False):
    by = {n: [] for n in shown}
    for r in hist:
        by[r["job_name"]].append(r)

    def link(pg, href, want, where):
        counts["links"] += 1
        got = report.target("", pg, href)
        if got != want:
            bad("link", "%s: link %r on page %r should lead to %r, leads to %r (%s)" % (what, href, pg, want, got, where))

    for r in hist:
        rel = r["job_name"] + "/" + r["run_id"]
        p = page(base, gz, rel, bad, toggled)
        if p is None:
            continue
        counts["run-pages"] += 1
        f = p.fields()
        if f.get("Run ID") != r["run_id"] or r["job_name"] not in "".join(p.text):
            bad("run-page", "%s: page of run %s: %r" % (what, r["run_id"], f))
        if not report.time_ok(f.get("Start time", ""), r["start_time"], tz) or not report.time_ok(f.get("Stop time", ""), r["stop_time"], tz):
            bad("run-times", "%s: page of run %s (%r to %r) says %r" % (what, r["run_id"], r["start_time"], r["stop_time"], f))
        if f.get("Exit code") != str(r["exit_code"]) or not report.duration_ok(f.get("Duration", ""), r["start_time"], r["stop_time"]):
            bad("run-code", "%s: page of run %s (exit code %d, %r to %r) says %r" % (what, r["run_id"], r["exit_code"], r["start_time"], r["stop_time"], f))
        if "output of %s" % r["run_id"] not in "".join(p.pre):
            bad("run-output", "%s: page of run %s shows %r" % (what, r["run_id"], p.pre))
        ups = [h for t, h in p.links if t == "a"]
        for h in ups:
            link(rel + "/index.html", h, r["job_name"], "job of the run")
    for n, rs in by.items():
        if not rs:
            continue
        p = page(base, gz, n, bad, toggled)
        if p is None:
            continue
        counts["job-pages"] += 1
        want = sorted(rs, key=lambda r: -r["stop_time"])
        got = [x for x in p.tables[0][1] if x[1]]
        ids = [(report.target("", n + "/index.html", h[0]) or "").split("/")[-1] for _, h in got]
        if ids != [r["run_id"] for r in want]:
            bad("job-page", "%s: page of job %r (%d runs) lists %d: %s" % (what, n, len(want), len(got), diff(ids, [r["run_id"] for r in want])))
            continue
        for (cells, hrefs), r in zip(got, want):
            link(n + "/index.html", hrefs[0], n + "/" + r["run_id"], "run of the job")
            if len(cells) != 3 or not report.time_ok(cells[0], r["stop_time"], tz) or not report.duration_ok(cells[1], r["start_time"], r["stop_time"]) or (
                    cells[2] != str(r["exit_code"])):
                bad("job-row", "%s: page of job %r shows run %r as %r" % (what, n, r, cells))
    if not index_current:
        return
    p = page(base, gz, "", bad, toggled)
    if p is None:
        return
    counts["index-pages"] += 1
    for t, h in p.links:
        if t == "link" and not os.path.isfile(os.path.join(base, report.target("", "index.html", h) or "-")):
            bad("css", "%s: the index refers to %r, which is missing" % (what, h))
    new = sorted(hist, key=lambda r: -r["stop_time"])
    for heading, want in (("Latest Runs", new[:25]), ("Failed Runs", [r for r in new if r["exit_code"] != 0][:10])):
        got = [x for x in p.table(heading) if x[1]]
        counts["full-index"] += heading[0] == "L" and len(want) == 25
        counts["full-failed"] += heading[0] == "F" and len(want) == 10
        ids = [(report.target("", "index.html", h[0]) or "").split("/")[-1] for _, h in got]
        if any(report.target("", "index.html", h[0]) is None for _, h in got):
            bad("link", "%s: links of the index lead elsewhere: %r" % (what, [h[0] for _, h in got if report.target("", "index.html", h[0]) is None][0]))
            continue
        if ids != [r["run_id"] for r in want]:
            bad("index-" + heading[0], "%s: the index lists under %s: %s" % (what, heading, diff(ids, [r["run_id"] for r in want])))
            continue
        for (cells, hrefs), r in zip(got, want):
            link("index.html", hrefs[0], r["job_name"] + "/" + r["run_id"], "run on the index")
            if len(cells) != 4 or not report.time_ok(cells[0], r["stop_time"], tz) or cells[1] != r["job_name"] or (
                    not report.duration_ok(cells[2], r["start_time"], r["stop_time"])) or cells[3] != str(r["exit_code"]):
                bad("index-row", "%s: the index shows run %r as %r" % (what, r, cells))
    got = [x for x in p.table("Jobs") if x[1]]
    if sorted(c[0] for c, _ in got) != sorted(shown):
        bad("index-jobs", "%s: the index lists the jobs %r instead of %r" % (what, sorted(c[0] for c, _ in got), sorted(shown)))
        return
    for cells, hrefs in got:
        n = cells[0]
        link("index.html", hrefs[0], n, "job on the index")
        last = max(by[n], key=lambda r: r["stop_time"], default=None)
        good = max((r for r in by[n] if r["exit_code"] == 0), key=lambda r: r["stop_time"], default=None)
        if len(cells) != 4:
            ok = False
        else:
            ok = (report.time_ok(cells[1], last["start_time"], tz) and report.duration_ok(cells[2], last["start_time"], last["stop_time"])
                  if last else not (cells[1] + cells[2]).strip()) and (
                      report.time_ok(cells[3], good["start_time"], tz) if good else not cells[3].strip())
        if not ok:
            bad("index-job", "%s: the index shows job %r (last run %r, last successful run %r) as %r" % (what, n, last, good, cells))


def diff(got, want):
    k = next((x for x in range(min(len(got), len(want))) if got[x] != want[x]), min(len(got), len(want)))
    return "%d instead of %d, first difference at %d; missing %r, too much %r" % (len(got), len(want), k, [x for x in want if x not in got][:5],
                                                                                 [x for x in got if x not in want][:5])
