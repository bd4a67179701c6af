"""Report pages show run data verbatim as text, never as markup."""
import gzip
import json
import lzma
import os
import re
import zlib

import gen
import gencfg
import report
import rows
import tools

RULE = ("one evaluation = one set of runs with hostile outputs and trigger data, rendered by the real tool; each page is parsed back: its text is compared with "
        "the recorded data, its markup with that of a page of a harmless run; distinct = different data or settings")
NEED = {"pages": 1500, "markup": 600, "limited": 100, "not-limited": 200, "at-limit": 30, "not-utf8": 150, "descriptions": 300, "types": 300, "odd-values": 100,
        "surrogates": 20, "templates": 60, "compressed": 200, "gz-pages": 300}
ASSUMPTIONS = ["bytes which are not UTF-8 are shown as replacement characters", "output limits count characters",
               "a line break at the very beginning of the output may be lost, as HTML ignores it there"]
QUICK = 500
THOROUGH = 6000
CASE_S = 300
setup = tools.prepare

HOSTILE = ["<script>alert(1)</script>", "</pre><h1>x</h1>", "</td></tr></table>", "&lt;b&gt; &amp; &#60; &nbsp; &", "<!-- c -->", "-->", "<![CDATA[x]]>", "<?php x ?>",
           "\"' onmouseover='x' \"", "{{ 7*7 }} {% if x %} {# c #}", "</textarea></script></style></title>", "<img src=x onerror=alert(1)>", "%3Cb%3E", "\\u003cb\\u003e",
           "<", ">", "&", "<<>>&&\"\"''", "]]>", "<a href=\"javascript:x\">", "</html>", "<pre>", "&quot;", "&#x3c;i&#x3e;", "javascript:alert(1)", "\u2028\u2029",
           "\u202edlrow", "\x00<b\x00>", "<b\n>", "</\npre>", "\x1b[31m<b>\x1b[0m", "\u00e4\u2603\U0001f389", "Markup('<b>')", "<<b>script>"]


def text(rng):
    return "".join(rng.choice(HOSTILE + ["word", " ", "  ", "x"]) for _ in range(rng.randrange(1, 5)))


def output(rng):
    k = rng.randrange(9)
    if k == 0:
        return b""
    if k == 1:
        return bytes(rng.randrange(256) for _ in range(rng.randrange(1, 300)))
    if k == 2:
        return b"a" * rng.randrange(0, 4) + "\u20ac<\u2603&".encode() * rng.randrange(1, 300)
    if k == 3:
        return text(rng).encode() + rng.choice([b"\xff<b>", b"\xc3", b"\xed\xa0\x80<i>", b"\xf0\x9f\x98"]) + text(rng).encode()
    if k == 4:
        return b"\n" * rng.randrange(1, 4) + text(rng).encode() + b"\n \t\n"
    if k == 5:
        return b"dos\r\n<b>\r\nmac\r\x0b\x0c" + text(rng).encode()
    return "\n".join(text(rng) for _ in range(rng.choice([1, 3, 40, 400]))).encode() + rng.choice([b"", b"\n"])


def tdata(rng):
    k = rng.random()
    d = {}
    if k < 0.3:
        pass
    elif k < 0.75:
        d["type"] = text(rng)
        if rng.random() < 0.6:
            d["description"] = text(rng)
    elif k < 0.85:
        d["description"] = text(rng)
    elif k < 0.92:
        d["description"] = text(rng) + rng.choice(["\ud800", "\udfff<b>", "\udc80"])
        if rng.random() < 0.5:
            d["type"] = "\ud83d" + text(rng)
    else:
        for x in ("type", "description"):
            if rng.random() < 0.7:
                d[x] = rng.choice([7, 1.5, True, ["<b>"], {"<b>": "</td>"}, {"__html__": "<b>"}, [], {}, 0, False, None, ""])
    if rng.random() < 0.3:
        d["other"] = gen.data_value(rng)
    return d


def case(i, rng, ctx):
    start, end = rng.choice([(0, 0), (0, 0), (1, 0), (0, 1), (10, 10), (100, 0), (0, 100), (7, 333), (1000, 1000), (10 ** 9, 0), (10 ** 9, 10 ** 9)])
    cfg = {"data_dir": "@ROOT@/var", "jobs": {n: {"command": "/bin/true"} for n in {gencfg.name(rng) for _ in range(2)} if n != "index.html"}}
    if not cfg["jobs"]:
        cfg["jobs"]["x"] = {"command": "/bin/true"}
    if start or rng.random() < 0.3:
        cfg["report_run_output_start"] = start
    if end or rng.random() < 0.3:
        cfg["report_run_output_end"] = end
    if rng.random() < 0.4:
        cfg["report_html_gz"] = rng.random() < 0.8
    tpl = None
    if rng.random() < 0.3:
        cfg["template_dir"] = "@ROOT@/tpl"
        tpl = rng.choice(["run.html", "job.html", "index.html", "missing", "empty"])
    now = rng.randrange(1600000000, 1800000000)
    jobs = sorted(cfg["jobs"])
    runs, outs = [], {}
    k = 0
    for exit_code in (0, 1):
        for d in (None, {}, {"type": "plain"}, {"description": "plain"}, {"type": "plain", "description": "plain"}):
            r = rows.record(rng, jobs[0], now - 50000 + k)
            r.update(exit_code=exit_code, trigger_type="schedule" if d is None else "file", trigger_data=d or {}, base=True)
            runs.append(r)
            outs[r["run_id"]] = (b"plain", "")
            k += 1
    for _ in range(12):
        r = rows.record(rng, rng.choice(jobs), now - 40000 + k, tdata=tdata(rng))
        if rng.random() < 0.4:
            r.update(trigger_type="file", trigger_data=tdata(rng))
        k += 1
        runs.append(r)
        o = output(rng)
        if start + end and start + end < 5000 and rng.random() < 0.3:
            n = start + end + rng.choice([-1, 0, 1, 2])
            o = (o.decode("utf-8", "replace") * (n // max(1, len(o.decode("utf-8", "replace"))) + 1) + "\u20ac" * n)[:n].encode()
        outs[r["run_id"]] = (o, rng.choice(["", "", "", ".gz", ".xz"]))
    return {"cfg": cfg, "runs": runs, "outs": outs, "tpl": tpl, "lim": (start, end), "now": now, "tz": rng.choice(gen.TZS)}


def shown(got, want):
    """Whether the text of a pre element shows want."""
    if got == want or want[:1] == "\n" and got == want[1:] or got[:1] == "\n" and got[1:] == want:
        return True
    g, w = (x.replace("\r\n", "\n").replace("\r", "\n") for x in (got, want))
    return g == w


CUSTOM = {"run.html": "<p>custom {{ run.id }}</p><pre>{{ run.output }}</pre><i>{{ run.trigger_data.description }}</i>", "job.html": "<p>custom {{ job.name }}</p>",
          "index.html": "<p>custom {{ runs|length }}</p>"}


def run(item, i, ctx):
    v, keys = [], set()
    counts = dict.fromkeys(NEED, 0)

    def bad(key, what):
        if key not in keys:
            keys.add(key)
            v.append({"key": key, "what": what})

    root = os.path.realpath(ctx.tmp("c%d-%d" % (os.getpid(), i)))
    try:
        conf = tools.configure(root, {"dsari.json": json.dumps(item["cfg"])})
        base = os.path.join(root, "var", "html")
        if item["tpl"] and item["tpl"] != "missing":
            os.makedirs(os.path.join(root, "tpl"))
            if item["tpl"] in CUSTOM:
                with open(os.path.join(root, "tpl", item["tpl"]), "w") as f:
                    f.write(CUSTOM[item["tpl"]])
        rows.write(os.path.join(root, "var", "dsari.sqlite3"), item["runs"])
        for r in item["runs"]:
            o, form = item["outs"][r["run_id"]]
            d = os.path.join(root, "var", "runs", r["job_name"], r["run_id"])
            os.makedirs(d)
            with open(os.path.join(d, "output.txt" + form), "wb") as f:
                f.write(gzip.compress(o) if form == ".gz" else lzma.compress(o[:50], preset=0) + lzma.compress(o[50:], preset=0) if form == ".xz" else o)
        x = tools.call(root, "render", ["-c", conf], now=item["now"] + 10 ** 6, tz=item["tz"])
        if x.code != 0:
            bad("failed", "rendering failed: %r" % x)
            return {"violations": v, "counts": counts, "fp": "failed"}
        gz = bool(item["cfg"].get("report_html_gz"))
        pages, raw = {}, {}
        for r in item["runs"]:
            p = os.path.join(base, r["job_name"], r["run_id"], "index.html")
            if not os.path.isfile(p + (".gz" if gz else "")):
                bad("missing", "no page %s" % (p + (".gz" if gz else "")))
                return {"violations": v, "counts": counts, "fp": "missing"}
            raw[r["run_id"]] = report.read(p)
            try:
                pages[r["run_id"]] = report.Page(raw[r["run_id"]].decode("utf-8"))
            except ValueError as e:
                bad("broken", "page of a run with output %r, trigger data %r: %s" % (item["outs"][r["run_id"]][0][:300], r["trigger_data"], e))
                continue
            counts["gz-pages"] += gz
        skel = {}
        for r in item["runs"]:
            if r.get("base") and r["run_id"] in pages:
                skel.setdefault(shape(r), pages[r["run_id"]].tags)
        for r in item["runs"]:
            if r["run_id"] not in pages:
                continue
            p = pages[r["run_id"]]
            o, form = item["outs"][r["run_id"]]
            counts["pages"] += 1
            counts["compressed"] += form != ""
            want = o.decode("utf-8", "replace")
            counts["not-utf8"] += "\ufffd" in want and "\ufffd".encode() not in o
            counts["markup"] += "<" in want or "<" in json.dumps(r["trigger_data"])
            what = "page of a run with output %r (%d characters), trigger data %r" % (want[:200], len(want), r["trigger_data"])
            got = "".join(p.pre)
            s, e = item["lim"]
            if s + e > 0:
                counts["at-limit"] += len(want) in (s + e, s + e + 1)
            if s + e > 0 and len(want) > s + e:
                counts["limited"] += 1
                ok = False
                for g in (got, "\n" + got, got[1:] if got[:1] == "\n" else got):
                    mid = g[s:len(g) - e]
                    if g[:s] == want[:s] and (e == 0 or g[-e:] == want[-e:]) and 0 < len(mid) <= 60 and ("..." in mid or "\u2026" in mid):
                        ok = True
                if not ok:
                    bad("limit", "limits %d/%d: %s shows %r" % (s, e, what, got[:1500]))
            else:
                counts["not-limited"] += 1
                if not shown(got, want):
                    k = next((n for n in range(min(len(got), len(want))) if got[n] != want[n]), min(len(got), len(want)))
                    bad("output", "limits %d/%d: %s shows %d characters, differs at %d: %r" % (s, e, what, len(got), k, got[max(0, k - 50):k + 100]))
            if item["tpl"] == "run.html":
                counts["templates"] += 1
                if p.tags != ["p", "/p", "pre", "/pre", "i", "/i"] and [t if isinstance(t, str) else t[0] for t in p.tags] != ["p", "/p", "pre", "/pre", "i", "/i"]:
                    bad("template", "%s does not follow the custom template: %r" % (what, raw[r["run_id"]][:500]))
                continue
            if p.tags != skel[shape(r)]:
                bad("markup", "%s has other markup than that of a harmless run: %r" % (what, raw[r["run_id"]][:1500]))
                continue
            f = p.fields()
            d = r["trigger_data"]
            if f.get("Run ID") != r["run_id"] or f.get("Exit code") != str(r["exit_code"]) or not report.duration_ok(
                    f.get("Duration", ""), r["start_time"], r["stop_time"]) or not report.time_ok(f.get("Start time", ""), r["start_time"], item["tz"]) or (
                        not report.time_ok(f.get("Stop time", ""), r["stop_time"], item["tz"])):
                bad("fields", "%s: %r shown as %r" % (what, r, f))
            m = re.match(r"(?s)^(.*) \(([^()]*)\)$", f.get("Trigger", ""))
            if not m or not report.time_ok(m.group(2), r["schedule_time"], item["tz"]):
                bad("trigger", "%s scheduled for %r shown as %r" % (what, r["schedule_time"], f))
            elif r["trigger_type"] == "schedule":
                if m.group(1).lower() != "schedule":
                    bad("trigger", "%s is a scheduled run, shown as %r" % (what, f))
            elif not d.get("type"):
                if m.group(1).lower() != "file":
                    bad("trigger", "%s has no trigger type, shown as %r" % (what, f))
            elif isinstance(d["type"], str):
                counts["types"] += 1
                if not same_text(m.group(1), d["type"]):
                    bad("type", "%s shows the type %r" % (what, m.group(1)))
            x = f.get("Description")
            if not d.get("description"):
                if x:
                    bad("description", "%s shows the description %r" % (what, x))
            elif isinstance(d["description"], str):
                counts["descriptions"] += 1
                if x is None or not same_text(x, d["description"]):
                    bad("description", "%s shows the description %r" % (what, x))
            counts["odd-values"] += any(not isinstance(d.get(k, ""), str) for k in ("type", "description"))
            counts["surrogates"] += any(surrogate(d.get(k)) for k in ("type", "description"))
        if item["tpl"] in ("job.html", "index.html"):
            counts["templates"] += 1
            want = {"job.html": "<p>custom %s</p>", "index.html": "<p>custom %d</p>"}[item["tpl"]] % (
                item["runs"][0]["job_name"] if item["tpl"] == "job.html" else len(item["runs"][:25]))
            got = report.read(os.path.join(base, *([item["runs"][0]["job_name"]] if item["tpl"] == "job.html" else []), "index.html"))
            if got is None or got.decode().strip() != want:
                bad("template", "custom template %s: %r instead of %r" % (item["tpl"], got, want))
        elif item["tpl"]:
            counts["templates"] += 1
        out = {"violations": v, "counts": counts, "fp": zlib.crc32(repr((item["cfg"], item["runs"], item["outs"])).encode("utf-8", "replace"))}
        if i == 0:
            out["sample"] = {"limits": item["lim"], "outputs": [repr(o[:40]) for o, _ in item["outs"].values()][-12:],
                             "trigger_data": [r["trigger_data"] for r in item["runs"]][-12:]}
            out["sample"] = json.loads(json.dumps(out["sample"]).replace("\\ud", "\\\\ud"))
        return out
    finally:
        ctx.rm(root)


def surrogate(x):
    return isinstance(x, str) and any("\ud800" <= c <= "\udfff" for c in x)


def same_text(got, want):
    if surrogate(want):
        # has no place in a page: something stands for it
        return re.fullmatch("(?s)" + "".join(".{0,10}" if "\ud800" <= c <= "\udfff" else re.escape(c) for c in want), got) is not None
    return got == want


def shape(r):
    return (r["exit_code"] != 0, bool(r["trigger_data"].get("description")))
