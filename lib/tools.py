"""Runs the command line tools in forked throw-away processes under a virtual clock."""
import io
import json
import os
import signal
import sys
import time
import traceback

import yaml

import simcore

NOW = 1700000000.0


class Result:
    def __init__(self, code, out, err, extra):
        self.code, self.out, self.err, self.extra = code, out, err, extra

    @property
    def text(self):
        return self.out.decode("utf-8")

    def json(self):
        return json.loads(self.text)

    def yaml(self):
        return yaml.safe_load(self.text)

    def __repr__(self):
        return "exit %r, output %r, error %r" % (self.code, self.out[-600:], self.err[-1500:])


def forked(root, f, now=None, tz="UTC", environ=None, cpu=30, tick_ns=1000):
    """Result of f() in a forked process that may only write below root."""
    out_p, err_p, x_p = (os.path.join(root, ".%s-%d" % (n, os.getpid())) for n in ("out", "err", "x"))
    sys.stdout.flush()
    sys.stderr.flush()
    pid = simcore.REAL["os.fork"]()
    if pid == 0:
        code = 70
        try:
            for fd, p in ((1, out_p), (2, err_p)):
                h = os.open(p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                os.dup2(h, fd)
                os.close(h)
            sys.stdout = io.TextIOWrapper(io.FileIO(1, "w", closefd=False), encoding="utf-8", write_through=False)
            sys.stderr = sys.__stderr__ = io.TextIOWrapper(io.FileIO(2, "w", closefd=False), encoding="utf-8", errors="backslashreplace",
                                                           write_through=True)
            os.environ["TZ"] = tz
            for k in ("LD_PRELOAD", "VCLOCK_SO", "COLUMNS"):
                os.environ.pop(k, None)
            for k, v in (environ or {}).items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v
            time.tzset()
            os.chdir(root)
            signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
            simcore.GUARD = simcore._Guard(root)
            c = simcore.clock()
            c.start(NOW if now is None else now, tick_ns)
            extra = None
            try:
                extra = f()
                code = 0
                if isinstance(extra, tuple) and len(extra) == 2 and extra[0] == "exit":
                    code, extra = extra[1], None
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                if isinstance(e.code, str):
                    sys.stderr.write(e.code)
            except BaseException:
                code = 1
                traceback.print_exc()
            c.stop()
            simcore.GUARD = None
            if extra is not None:
                with open(x_p, "w") as fh:
                    json.dump(extra, fh)
            sys.stdout.flush()
        except BaseException:
            code = 71
            try:
                simcore.clock().stop()
                simcore.GUARD = None
                traceback.print_exc()
            except BaseException:
                pass
        finally:
            os._exit(code if isinstance(code, int) and 0 <= code < 256 else 72)
    _, st = simcore.REAL["os.waitpid"](pid, 0)
    code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
    extra = None
    outs = []
    for p in (out_p, err_p, x_p):
        try:
            with open(p, "rb") as fh:
                outs.append(fh.read())
            os.unlink(p)
        except OSError:
            outs.append(b"")
    if outs[2]:
        extra = json.loads(outs[2])
    return Result(code, outs[0], outs[1].decode("utf-8", "replace"), extra)


def call(root, tool, argv, patch=None, **k):
    """Runs `dsari-<tool> argv`; tool: daemon, info, render, prometheus_exporter."""
    import importlib

    def f():
        mod = importlib.import_module("dsari." + tool)
        cfg = sys.modules.get("dsari.config")
        if hasattr(cfg, "DEFAULT_DATA_DIR"):
            cfg.DEFAULT_DATA_DIR = os.path.join(root, "default-var")
        sys.argv = ["dsari-" + tool.replace("_", "-")] + list(argv)
        if patch:
            patch(mod)
        r = mod.main()
        if isinstance(r, int) and not isinstance(r, bool):
            return ("exit", r)
        if isinstance(r, str):
            sys.exit(r)

    return forked(root, f, **k)


def info(root, conf, *argv, **k):
    return call(root, "info", ["-c", conf] + list(argv), **k)


def configure(root, files):
    """Writes configuration files below root/etc (@ROOT@ stands for root); returns its path."""
    conf = os.path.join(root, "etc")
    simcore.write_files(conf, files)
    return conf


def prepare(ctx):
    import dsari.info  # noqa: F401
    import dsari.render  # noqa: F401
