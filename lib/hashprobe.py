"""Observes next runs in an interpreter of its own (another hash seed); JSON on stdin and stdout."""
import json
import os
import sys

sys.path[:0] = [os.path.dirname(os.path.abspath(__file__)), os.environ.get("VERIF_REPO", "/repo")]
import simcore  # noqa: E402

simcore.install()
import sched  # noqa: E402
import tools  # noqa: E402

tools.prepare(None)
a = json.load(sys.stdin)
print(json.dumps(sched.observe(a["root"], a["jobs"], a["times"], a["tz"])))
