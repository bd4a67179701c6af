"""Strict reader of the Prometheus text format, and the metrics that a set of run records stands for."""
import math
import re

NAME = re.compile(r"^[a-zA-Z_:][a-zA-Z0-9_:]*$")
SAMPLE = re.compile(r"^([a-zA-Z_:][a-zA-Z0-9_:]*)(?:\{(.*)\})? (\S+)$")
LABEL = re.compile(r'([a-zA-Z_][a-zA-Z0-9_]*)="((?:[^"\\\n]|\\\\|\\"|\\n)*)"(,|$)')
SUFFIX = {"summary": ("_sum", "_count"), "histogram": ("_sum", "_count", "_bucket")}


def parse(text):
    """(types, {name: {frozenset(labels): float}}); raises ValueError."""
    if not text.endswith("\n"):
        raise ValueError("no line end at the end")
    types, out, family, done = {}, {}, None, set()

    def enter(f):
        nonlocal family
        if f != family:
            if f in done:
                raise ValueError("lines of %s are not together" % f)
            done.add(f)
            family = f

    for line in text[:-1].split("\n"):
        if line.startswith("# HELP ") or line.startswith("# TYPE "):
            p = line.split(" ", 3)
            if len(p) < 4 or not NAME.match(p[2]):
                raise ValueError("line %r" % line)
            if p[2] in out:
                raise ValueError("%r after its samples" % line)
            enter(p[2])
            if p[1] == "TYPE":
                if p[2] in types or p[3] not in ("counter", "gauge", "summary", "histogram", "untyped"):
                    raise ValueError("line %r" % line)
                types[p[2]] = p[3]
            continue
        if line.startswith("#") or not line.strip():
            continue
        m = SAMPLE.match(line)
        if not m:
            raise ValueError("line %r" % line)
        labels, rest = {}, m.group(2) or ""
        while rest:
            x = LABEL.match(rest)
            if not x or x.group(1) in labels:
                raise ValueError("labels of %r" % line)
            labels[x.group(1)] = re.sub(r"\\(.)", lambda y: {"n": "\n"}.get(y.group(1), y.group(1)), x.group(2))
            rest = rest[x.end():]
        name = m.group(1)
        fam = next((name[:-len(s)] for t in SUFFIX.values() for s in t if name.endswith(s) and types.get(name[:-len(s)]) in SUFFIX and (
            s in SUFFIX[types[name[:-len(s)]]])), name)
        enter(fam)
        k = frozenset(labels.items())
        d = out.setdefault(name, {})
        if k in d:
            raise ValueError("%r is there twice" % line)
        v = float(m.group(3))
        d[k] = v
    return types, out


def quantile(xs, q):
    xs = sorted(xs)
    k = (len(xs) - 1) * q
    a, b = xs[math.floor(k)], xs[math.ceil(k)]
    return a + (b - a) * (k - math.floor(k))


def near(a, b, tol=5e-6):
    return abs(a - b) <= tol + 1e-12 * max(abs(a), abs(b))


def series(out, name, job=None, **more):
    w = dict(more)
    if job is not None:
        w["job_name"] = job
    return out.get("dsari_" + name, {}).get(frozenset(w.items()))


def jobs_of(out, name):
    return {dict(k)["job_name"] for k in out.get("dsari_" + name, {})}


def check_jobs(out, jobs, done, quantiles):
    """Differences between the completed-run metrics and the records, as [(key, text)]."""
    bad = []

    def differ(key, text):
        bad.append((key, text))

    by = {j: [] for j in jobs}
    for r in done:
        if r["job_name"] in by:
            by[r["job_name"]].append(r)
    for n in ("run_count", "run_success_count", "run_failure_count"):
        if jobs_of(out, n) != set(jobs):
            differ("jobs", "dsari_%s is given for the jobs %r instead of %r" % (n, sorted(jobs_of(out, n)), sorted(jobs)))
            return bad
    for n in list(out):
        if n.startswith("dsari_run_") or n.startswith("dsari_last_"):
            x = {dict(k).get("job_name") for k in out[n]} - set(jobs)
            if x:
                differ("jobs", "%s is given for %r" % (n, sorted(map(str, x))))
    for j, rs in by.items():
        good = sum(r["exit_code"] == 0 for r in rs)
        for n, w in (("run_count", len(rs)), ("run_success_count", good), ("run_failure_count", len(rs) - good)):
            if series(out, n, j) != w:
                differ(n, "dsari_%s of job %r is %r instead of %r" % (n, j, series(out, n, j), w))
        for n, f in (("duration", lambda r: r["stop_time"] - r["start_time"]), ("latency", lambda r: r["start_time"] - r["schedule_time"])):
            xs = [f(r) for r in rs]
            s, c = series(out, "run_%s_seconds_sum" % n, j), series(out, "run_%s_seconds_count" % n, j)
            if not xs:
                if s not in (None, 0) or c not in (None, 0):
                    differ(n, "%s of job %r without runs: sum %r, count %r" % (n, j, s, c))
            else:
                if c != len(xs):
                    differ(n + "-count", "%s count of job %r is %r instead of %d" % (n, j, c, len(xs)))
                if s is None or not near(s, sum(xs), 5e-6 * (1 + len(xs))):
                    differ(n + "-sum", "%s sum of job %r is %r instead of %r" % (n, j, s, sum(xs)))
            got = {float(dict(k)["quantile"]): v for k, v in out.get("dsari_run_%s_seconds" % n, {}).items() if dict(k)["job_name"] == j}
            if xs and (set(got) != set(quantiles) or any(not near(got[q], quantile(xs, q)) for q in quantiles)):
                differ(n + "-quantile", "%s quantiles of job %r with %r are %r instead of %r" % (
                    n, j, xs[:20], got, {q: quantile(xs, q) for q in quantiles}))
        last = max(rs, key=lambda r: r["stop_time"], default=None)
        for n in ("exit_code", "schedule_time", "start_time", "stop_time"):
            g = series(out, "last_run_" + n, j)
            if last is None and g is not None or last is not None and (g is None or not near(g, last[n])):
                differ("last-" + n, "dsari_last_run_%s of job %r is %r instead of %r" % (n, j, g, last and last[n]))
    return bad


def check_running(out, jobs, live, on):
    bad = []
    got = {}
    for n in ("schedule_time", "start_time"):
        got[n] = {(dict(k).get("job_name"), dict(k).get("run_id")): v for k, v in out.get("dsari_running_run_" + n, {}).items()}
    want = {(r["job_name"], r["run_id"]): r for r in live if r["job_name"] in jobs}
    anyhow = {(r["job_name"], r["run_id"]): r for r in live}
    for n, g in got.items():
        if not on:
            if g:
                bad.append(("running-off", "running runs are given although switched off: %r" % g))
            continue
        if set(want) - set(g) or set(g) - set(anyhow):
            bad.append(("running", "dsari_running_run_%s: missing %r, too much %r" % (n, sorted(set(want) - set(g))[:4], sorted(set(g) - set(anyhow))[:4])))
        for k, x in g.items():
            if k in anyhow and not near(x, anyhow[k][n]):
                bad.append(("running-" + n, "dsari_running_run_%s of %r is %r instead of %r" % (n, k, x, anyhow[k][n])))
    return bad
