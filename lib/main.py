"""Supervisor of one check: scratch directory, clock shim, worker process, time limit, clean-up."""
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

LIB = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(LIB)


def scratch_base():
    for d in ("/dev/shm", os.environ.get("TMPDIR") or "/tmp", ROOT):
        try:
            if os.access(d, os.W_OK) and os.statvfs(d).f_bavail * os.statvfs(d).f_frsize > 1 << 30:
                return d
        except OSError:
            pass
    return "/tmp"


def main():
    argv = sys.argv[1:]
    if not argv:
        print("usage: check ID [--tier quick|thorough] [--replay FILE]", file=sys.stderr)
        return 2
    scratch = tempfile.mkdtemp(prefix="verif-dsari.", dir=scratch_base())
    os.chmod(scratch, 0o711)
    p = None
    try:
        so = os.path.join(scratch, "vclock.so")
        for cc in ("gcc", "clang", "cc"):
            try:
                r = subprocess.run([cc, "-O2", "-shared", "-fPIC", "-w", "-o", so,
                                    os.path.join(LIB, "vclock.c")], capture_output=True)
            except OSError:
                continue
            if r.returncode == 0:
                break
        else:
            print("cannot compile the clock shim", file=sys.stderr)
            return 2
        env = {
            "PATH": os.environ.get("PATH", "/usr/local/bin:/usr/bin:/bin"),
            "LANG": "C.UTF-8", "TZ": "UTC", "HOME": os.path.join(scratch, "home"),
            "DSARI_HOME": os.path.join(scratch, "home", "dsari"),
            "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1",
            "PYTHONPYCACHEPREFIX": "/nonexistent/pycache",
            "LD_PRELOAD": so, "VCLOCK_SO": so, "VERIF_SCRATCH": scratch,
        }
        for k in ("VERIF_SEED", "VERIF_TIER", "VERIF_N", "VERIF_REPO", "VERIF_JOBS", "VERIF_VERBOSE"):
            if k in os.environ:
                env[k] = os.environ[k]
        os.makedirs(os.path.join(scratch, "home", "dsari"))
        p = subprocess.Popen([sys.executable, "-B", os.path.join(LIB, "worker.py")] + argv,
                             env=env, cwd=ROOT, start_new_session=True, stdin=subprocess.DEVNULL)

        def stop(n, f):
            raise KeyboardInterrupt

        signal.signal(signal.SIGTERM, stop)
        try:
            rc = p.wait(timeout=860)
        except subprocess.TimeoutExpired:
            print("the check did not finish in time", file=sys.stderr)
            rc = 2
        return rc if rc in (0, 1) else 2
    finally:
        if p is not None:
            for _ in range(50):
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    break
                try:
                    p.wait(timeout=0.1)
                except subprocess.TimeoutExpired:
                    pass
        for _ in range(20):
            shutil.rmtree(scratch, ignore_errors=True)
            if not os.path.exists(scratch):
                break
            time.sleep(0.1)


sys.exit(main())
