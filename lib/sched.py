"""Next scheduled runs as reported by the real job listing at chosen virtual times."""
import datetime
import io
import json
import os
import sys

import simcore
import tools


def observe(root, jobs, times, tz="UTC", hold=None, extra=None):
    """jobs: name -> options (schedule, schedule_timezone).  Returns [{name: epoch as Fraction-free (seconds, microseconds) or None}], or an
    error text."""
    doc = {"data_dir": "@ROOT@/var", "jobs": {n: dict({"command": "/bin/true"}, **o) for n, o in jobs.items()}}
    conf = tools.configure(root, {"dsari.json": json.dumps(dict(doc, **(extra or {})))})

    def f():
        from dsari import config as cfg
        from dsari import info

        if hasattr(cfg, "DEFAULT_DATA_DIR"):
            cfg.DEFAULT_DATA_DIR = os.path.join(root, "default-var")
        out = []
        c = simcore.clock()
        for t in times:
            c.start(t, 0)
            sys.argv = ["dsari-info", "-c", conf, "job", "list", "--format", "json"]
            so, sys.stdout = sys.stdout, io.StringIO()
            try:
                info.main()
            finally:
                text, sys.stdout = sys.stdout.getvalue(), so
            out.append({n: j["next_scheduled_run"] for n, j in json.loads(text).items()})
        return out

    r = tools.forked(root, f, tz=tz, cpu=240)
    if r.code != 0 or r.extra is None:
        return "job listing failed: %r" % r
    return [{n: stamp(x) for n, x in o.items()} for o in r.extra]


def stamp(text):
    """(epoch seconds, microseconds) of an ISO date-time text."""
    if text is None:
        return None
    d = datetime.datetime.fromisoformat(text)
    if d.tzinfo is None:
        raise ValueError("next_scheduled_run without a UTC offset: %r" % text)
    e = d - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
    return e.days * 86400 + e.seconds, e.microseconds


def plus(s):
    return s[0] + s[1] / 1e6
