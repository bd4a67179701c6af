"""Runs a dsari program with some absolute directories standing for others: vroot.py REPO MAP-JSON TOOL ARGS...

For system directories a check must not create.  All the ways Python has of getting at a file by name are redirected.
"""
import builtins
import io
import json
import os
import sqlite3
import sys

repo, maps, tool = sys.argv[1], json.loads(sys.argv[2]), sys.argv[3]
sys.path.insert(0, repo)


def there(p):
    try:
        q = os.fspath(p)
    except TypeError:
        return p
    if isinstance(q, bytes):
        return os.fsencode(there(os.fsdecode(q)))
    for a, b in maps.items():
        if q == a or q.startswith(a + "/"):
            return b + q[len(a):]
    return p


def redirect(mod, name, n=1):
    real = getattr(mod, name)

    def f(*a, **k):
        a = [there(x) for x in a[:n]] + list(a[n:])
        if "path" in k:
            k["path"] = there(k["path"])
        return real(*a, **k)

    f.__name__ = name
    setattr(mod, name, f)
    for s in (os.supports_dir_fd, os.supports_follow_symlinks, os.supports_fd, os.supports_effective_ids):
        if real in s:
            s.add(f)


for n in ("stat", "lstat", "access", "listdir", "scandir", "open", "mkdir", "rmdir", "remove", "unlink", "chdir", "chmod", "chown", "utime", "readlink", "truncate",
          "execve", "execv", "statvfs"):
    redirect(os, n)
for n in ("rename", "replace", "link", "symlink"):
    redirect(os, n, 2)
redirect(builtins, "open")
redirect(io, "open")
redirect(sqlite3, "connect")

import importlib  # noqa: E402

import dsari  # noqa: E402

if not dsari.__file__.startswith(repo + "/"):
    sys.exit(117)
sys.argv = ["dsari-" + tool.replace("_", "-")] + sys.argv[4:]
sys.exit(importlib.import_module("dsari." + tool).main())
