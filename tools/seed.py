#!/usr/bin/env python3
"""Planted bugs: seed.py make DIR ID (from a changed copy of /repo), verify ID..., checks ID [CHECK...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")


def sh(*args, **kw):
    return subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def copy():
    d = tempfile.mkdtemp(prefix="seed-")
    os.chmod(d, 0o755)
    sh("cp", "-a", os.environ.get("SEED_SRC", "/repo"), d + "/repo")
    sh("git", "-C", d + "/repo", "checkout", "-q", "--", ".")
    return d


def verify(name):
    s = os.path.join(SEEDED, name)
    d = copy()
    try:
        repo = d + "/repo"
        demo = d + "/demo"
        shutil.copytree(s, demo)
        for fn in ("patch.diff", "meta.json"):
            os.remove(os.path.join(demo, fn))
        a = sh("bash", demo + "/demo.sh", cwd=repo, timeout=300)
        p = sh("git", "-C", repo, "apply", s + "/patch.diff")
        if p.returncode:
            return "patch does not apply: " + p.stdout
        t = sh("/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", cwd=repo)
        c = sh("/opt/venv/bin/python", "-m", "compileall", "-q", "dsari", cwd=repo)
        b = sh("bash", demo + "/demo.sh", cwd=repo, timeout=300)
        ok = a.returncode == 0 and b.returncode != 0 and t.returncode == 0 and c.returncode == 0
        return "{} unpatched={} patched={} tests={} {}\n   {}".format(
            "GOOD" if ok else "BAD", a.returncode, b.returncode, t.returncode, "" if ok else a.stdout[-1500:] + b.stdout[-1500:], b.stdout.strip().split("\n")[-1])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def checks(name, ids):
    s = os.path.join(SEEDED, name)
    d = copy()
    try:
        repo = d + "/repo"
        sh("git", "-C", repo, "apply", s + "/patch.diff")
        if not ids:
            ids = [json.load(open(s + "/meta.json"))["property"]]
        for i in ids:
            p = sh(HERE + "/check", i, cwd=HERE, env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick"))
            v = [x for x in p.stdout.split("\n") if "VIOLATION" in x]
            print(name, i, "exit", p.returncode, (v[0][:150] if v else ""), p.stdout[-300:] if p.returncode > 1 else "", flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if sys.argv[1] == "verify":
    for n in sys.argv[2:]:
        print(n, verify(n), flush=True)
elif sys.argv[1] == "checks":
    checks(sys.argv[2], sys.argv[3:])
