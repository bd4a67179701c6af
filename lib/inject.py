"""Signals at exact points of the daemon's execution.

A profile function counts the points at which CPython would really run a Python signal handler (entry of
a Python function, return from a call, next round of a loop) within the code under test.  In record mode it lists the
distinct points with their ordinals (and those at which triggers were taken); with {"at": n, "sigs": [...]} it
delivers signals at the n-th, with {"at": n, "trigger": {...}} it places a trigger file there.
"""
import os
import signal
import sys

HANDLED = (signal.SIGHUP, signal.SIGINT, signal.SIGTERM, signal.SIGQUIT, signal.SIGUSR1)


class Injector:
    def __init__(self, w, spec):
        self.w = w
        self.spec = spec
        self.at = spec.get("at")
        self.sigs = spec.get("sigs", ())
        self.n = 0
        self.trigger = spec.get("trigger")
        self.marks = []
        self.sites = {}
        self.prefix = os.path.realpath(spec["repo"]) + os.sep + "dsari" + os.sep
        self.ok = {}
        self.hit = None
        self.up = False

    def start(self):
        sys.setprofile(self)
        mon = getattr(sys, "monitoring", None)
        if mon is not None:  # Python 3.12
            mon.use_tool_id(4, "inject")
            mon.register_callback(4, mon.events.JUMP, self.jump)
            mon.set_events(4, mon.events.JUMP)

    def stop(self):
        sys.setprofile(None)
        mon = getattr(sys, "monitoring", None)
        if mon is not None and mon.get_tool(4) == "inject":
            mon.set_events(4, 0)
            mon.free_tool_id(4)

    def jump(self, code, offset, dest):
        """Back to the beginning of a loop."""
        ok = self.ok.get(code)
        if ok is None:
            ok = self.ok[code] = os.path.realpath(code.co_filename).startswith(self.prefix)
        if not ok:
            return sys.monitoring.DISABLE
        if dest < offset:
            self(sys._getframe(1), "loop", None)

    def __call__(self, frame, event, arg):
        if event == "c_call":
            return
        code = frame.f_code
        ok = self.ok.get(code)
        if ok is None:
            ok = self.ok[code] = os.path.realpath(code.co_filename).startswith(self.prefix)
        if not ok or self.w.in_child or self.w.trusted:
            return
        if not self.up:
            # from when on the daemon handles the signals; before, they simply end it
            t = self.w.table
            self.up = all(callable(t.get(int(x))) and t.get(int(x)) is not signal.default_int_handler
                          for x in HANDLED)
            if not self.up:
                return
        self.n += 1
        if self.at is None:
            k = (os.path.basename(code.co_filename), code.co_name, frame.f_lineno, event,
                 getattr(arg, "__name__", "") if event == "c_return" else "")
            s = self.sites.get(k)
            if s is None:
                self.sites[k] = [self.n, self.n, 1, self.w.clk.ns]
            else:
                s[2] += 1
                # a reservoir of one, by a cheap pseudo-random rule
                if (self.n * 2654435761 >> 7) % s[2] == 0:
                    s[1] = self.n
        elif self.n == self.at:
            self.hit = (os.path.basename(code.co_filename), code.co_name, frame.f_lineno, event,
                        getattr(arg, "__name__", "") if event == "c_return" else "")
            self.w.rec("injected", where="%s:%s:%d %s %s" % self.hit)
            for s in self.sigs:
                self.w.deliver(s)
            if self.trigger:
                self.w.write_trigger(dict(self.trigger))

    def report(self):
        return {"n": self.n, "sites": [(k, v[0], v[1], v[2]) for k, v in self.sites.items()], "hit": self.hit,
                "marks": self.marks}
