"""Run output is returned byte for byte, from wherever it is stored."""
import gzip
import json
import lzma
import os
import subprocess
import sys
import time
import zlib

import gencfg
import rows
import tools

RULE = ("one evaluation = one output request to the real tool (contents, storage form, run state) compared with the bytes placed on disk, or one "
        "tailing by the real tool in a process of its own with a recording stand-in for tail; distinct = different contents or selection")
NEED = {"outputs": 500, "gz": 80, "xz": 80, "running": 60, "not-utf8": 80, "unknown": 60, "tails": 20, "tail-waits": 2, "tailed-files": 30}
ASSUMPTIONS = ["bytes which are not UTF-8 may be shown as replacement characters"]
CASE_S = 300


def QUICK(ctx):
    return 48 + 64


def THOROUGH(ctx):
    return 300 + 4000


def ntails(ctx):
    return 48 if ctx.quick else 300


setup = tools.prepare


def content(rng):
    k = rng.randrange(14)
    if k == 0:
        return b""
    if k == 1:
        return b"no newline at the end"
    if k == 2:
        return b"dos\r\nlines\r\n\r\rmac\rend\n"
    if k == 3:
        return bytes(rng.randrange(256) for _ in range(rng.randrange(1, 400)))
    if k == 4:
        return "\u2603 snow \U0001f389 \u00fc\n".encode() * rng.randrange(1, 2000)
    if k == 5:
        return b"nul\0in\0side\n\x1b[31mred\x1b[0m\x07\x08\n\x0c\x85\xc2\x85\xe2\x80\xa8end"
    if k == 6:
        return rng.randbytes(rng.choice([4096, 65536, 8191, 8192, 8193]))
    if k == 7:
        # multi-byte characters over buffer boundaries
        return b"a" * rng.randrange(1, 4) + "\u20ac".encode() * 60000
    if k == 8:
        return b"\xef\xbb\xbfbom\n" + b"\xff\xfeU\0"
    if k == 9:
        return "valid\n".encode() + rng.choice([b"\xc3", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\xe2\x82", b"\x80", b"\xc0\x80"]) + b"\nafter"
    if k == 10:
        return b"\n" * rng.randrange(1, 50)
    if k == 11:
        return b"\x1a\x04\n\x1f\x8b looks like gzip"
    if k == 12:
        return b"line %d\n" * rng.randrange(1, 9) + b"   trailing   \n\t\n \n"
    return b"".join(b"line %d of the output\n" % n for n in range(rng.randrange(1, 30000)))


def case(i, rng, ctx):
    cfg = gencfg.doc(rng, rng.randrange(1, 5))
    cfg.pop("database", None)
    jobs = list(gencfg.compiled_jobs(cfg)) + ["gone job"]
    now = rng.randrange(1600000000, 1800000000) + rng.random()
    tail = i < ntails(ctx)
    done = [rows.record(rng, rng.choice(jobs), now - rng.uniform(10000, 10 ** 6)) for _ in range(4 if tail else 9)]
    live = [rows.record(rng, rng.choice(jobs), now - rng.uniform(0, 9000), running=True) for _ in range(rng.choice([1, 2, 3, 6]) if tail else 3)]
    disk = {}
    for r in done + live:
        c = content(rng) if not tail else rng.choice([b"x\n", b""])
        form = "" if r in live or tail else rng.choice(["", "", ".gz", ".gz", ".xz"])
        disk[r["run_id"]] = (r["job_name"], form, c, rng.randrange(10))
    item = {"cfg": cfg, "files": gencfg.file(rng, cfg), "done": done, "live": live, "disk": disk, "tail": tail, "now": now,
            "unknown": [rows.run_id(rng), "", "..", done[0]["run_id"][:-1], done[0]["run_id"].upper() + "x", "%"]}
    if tail:
        k = i % 6
        for r in live:
            if rng.random() < 0.2:
                disk.pop(r["run_id"])
        if k == 0:
            item["sel"] = []
        elif k in (1, 2, 3):
            item["sel"] = [r["run_id"] for r in rng.sample(live, rng.randrange(1, len(live) + 1))] + ([done[0]["run_id"]] if rng.random() < 0.5 else []) + (
                [rows.run_id(rng)] if rng.random() < 0.3 else [])
        elif k == 4:
            item["sel"] = []
            item["wait"] = True
        else:
            item["sel"] = [live[-1]["run_id"]]
            item["wait"] = True
    return item


def put(root, job, rid, form, c, variant):
    d = os.path.join(root, "var", "runs", job, rid)
    os.makedirs(d, exist_ok=True)
    if form == ".gz":
        if variant < 3 and len(c) > 10:
            c = gzip.compress(c[:7]) + gzip.compress(c[7:])
        else:
            c = gzip.compress(c, variant)
    elif form == ".xz":
        if variant % 3 == 0 and len(c) > 10:
            # as pxz or "cat a.xz b.xz" do
            c = lzma.compress(c[:7], preset=0) + lzma.compress(c[7:], preset=1)
        else:
            c = lzma.compress(c, preset=variant % 4)
    elif variant == 0:
        # being compressed at the moment
        with open(os.path.join(d, "output.txt.gz"), "wb") as f:
            f.write(gzip.compress(c)[:25])
    elif variant == 1:
        with open(os.path.join(d, "output.txt.xz"), "wb") as f:
            f.write(lzma.compress(c)[:20])
    with open(os.path.join(d, "output.txt" + form), "wb") as f:
        f.write(c)


def run(item, i, ctx):
    v, keys = [], set()
    counts = dict.fromkeys(NEED, 0)

    def bad(key, what):
        if key not in keys:
            keys.add(key)
            v.append({"key": key, "what": what})

    root = os.path.realpath(ctx.tmp("c%d-%d" % (os.getpid(), i)))
    try:
        conf = tools.configure(root, item["files"])
        db = os.path.join(root, "var", "dsari.sqlite3")
        if item["tail"]:
            tail(item, ctx, root, conf, db, counts, bad)
            return {"violations": v, "counts": counts, "fp": "tail-%d" % i}
        rows.write(db, item["done"], item["live"])
        fps = []
        for rid, (job, form, c, variant) in item["disk"].items():
            put(root, job, rid, form, c, variant)
        for rid, (job, form, c, variant) in item["disk"].items():
            r = tools.info(root, conf, "run", "output", rid, now=item["now"], environ={"COLUMNS": "80"})
            what = "output of a %s run, %d bytes%s" % ("completed" if any(x["run_id"] == rid for x in item["done"]) else "running", len(c),
                                                       form and " in " + form)
            if r.code != 0:
                bad("failed" + form, "%s (%r...): %r" % (what, c[:80], r))
                continue
            try:
                c.decode("utf-8")
                ok = r.out == c
            except UnicodeDecodeError:
                counts["not-utf8"] += 1
                ok = r.out in (c, c.decode("utf-8", "replace").encode())
            if not ok:
                k = next((n for n in range(min(len(c), len(r.out))) if c[n] != r.out[n]), min(len(c), len(r.out)))
                bad("bytes" + form, "%s: %d bytes shown; at offset %d %r became %r" % (what, len(r.out), k, c[max(0, k - 20):k + 40], r.out[max(0, k - 20):k + 40]))
            counts["outputs"] += 1
            counts["gz"] += form == ".gz"
            counts["xz"] += form == ".xz"
            counts["running"] += any(x["run_id"] == rid for x in item["live"])
            fps.append("%s%d" % (form, zlib.crc32(c)))
        # directories that are no recorded runs
        x = rows.run_id(ctx.rng(i, "x"))
        put(root, item["done"][0]["job_name"], x, "", b"not recorded\n", 0)
        for u in item["unknown"] + [x]:
            r = tools.info(root, conf, "run", "output", u, now=item["now"])
            counts["unknown"] += 1
            if r.code == 0 or r.out:
                bad("unknown", "output of unknown run %r: %r" % (u, r))
        out = {"violations": v, "counts": counts, "fps": fps}
        if i == ntails(ctx):
            out["sample"] = {"requests": [[len(x[2]), x[1], repr(x[2][:30])] for x in item["disk"].values()]}
        return out
    finally:
        ctx.rm(root)


TAIL = """#!/bin/sh
for a in "$@"; do printf '%%s\\0' "$a"; done > '%s.tmp'
mv '%s.tmp' '%s'
"""


def tail(item, ctx, root, conf, db, counts, bad):
    bindir = os.path.join(root, "bin")
    os.makedirs(bindir)
    seen = os.path.join(root, "seen")
    with open(os.path.join(bindir, "tail"), "w") as f:
        f.write(TAIL % (seen, seen, seen))
    os.chmod(os.path.join(bindir, "tail"), 0o755)
    late = item.get("wait")
    rows.write(db, item["done"], [] if late else item["live"])
    for rid, (job, form, c, variant) in item["disk"].items():
        if not late or rid not in {r["run_id"] for r in item["live"]}:
            put(root, job, rid, form, c, variant)
    live = {r["run_id"]: r for r in item["live"]}
    want = {os.path.join(root, "var", "runs", live[x]["job_name"], x, "output.txt") for x in (item["sel"] or live) if x in live and x in item["disk"]}
    env = {"PATH": bindir + ":/usr/bin:/bin", "HOME": root, "DSARI_HOME": os.path.join(root, "home"), "LANG": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1",
           "PYTHONPATH": ctx.repo}
    os.makedirs(env["DSARI_HOME"])
    with open(os.path.join(root, "err"), "wb") as ef:
        p = subprocess.Popen([sys.executable, "-B", "-c", "import sys\nfrom dsari.info import main\nsys.argv = ['dsari-info'] + sys.argv[1:]\nsys.exit(main())",
                              "-c", conf, "run", "tail"] + item["sel"], env=env, cwd=root, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=ef)
    try:
        t0 = time.monotonic()
        what = "dsari-info run tail %s" % " ".join(item["sel"])
        if late:
            time.sleep(1.2)
            if os.path.exists(seen):
                bad("tail-nothing", "%s with no running run followed %r" % (what, open(seen).read()))
                return
            for r in item["live"]:
                if r["run_id"] in item["disk"]:
                    job, form, c, variant = item["disk"][r["run_id"]]
                    put(root, job, r["run_id"], form, c, variant)
            c = rows.connect(db)
            rows.add(c, (), item["live"])
            c.close()
            counts["tail-waits"] += 1
        limit = 30 if want else 2.5
        while time.monotonic() - t0 < limit and p.poll() is None and not os.path.exists(seen):
            time.sleep(0.05)
        if p.poll() is not None and not os.path.exists(seen):
            time.sleep(0.1)
        if not want:
            if os.path.exists(seen):
                bad("tail-nothing", "%s with nothing to follow followed %r" % (what, open(seen).read()))
            counts["tails"] += 1
            return
        if not os.path.exists(seen):
            bad("tail-none", "%s did not follow %r (exit %r, %s)" % (what, sorted(want), p.poll(), open(os.path.join(root, "err")).read()[-1500:]))
            return
        with open(seen, "rb") as f:
            args = f.read().decode().split("\0")[:-1]
        got = [os.path.realpath(a) for a in args if os.path.isabs(a) or os.path.exists(os.path.join(root, a))]
        counts["tails"] += 1
        counts["tailed-files"] += len(want)
        if sorted(got) != sorted(want):
            bad("tail-files", "%s should follow %r, follows %r" % (what, sorted(want), sorted(got)))
        elif not any(a in ("-F", "--follow") or a.startswith("-") and "f" in a for a in args):
            bad("tail-follow", "%s: tail called with %r" % (what, args))
    finally:
        p.kill()
        p.wait()
