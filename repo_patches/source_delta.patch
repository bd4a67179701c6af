From c4efcf55d9120e063a9e66c896342480efc26025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 01/47] fix: H/n and H(a-b) schedule offsets stay within their
 step and range

---
 dsari/croniter_hash.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/dsari/croniter_hash.py b/dsari/croniter_hash.py
index a4ea118..aa929fb 100644
--- a/dsari/croniter_hash.py
+++ b/dsari/croniter_hash.py
@@ -30,9 +30,9 @@ class croniter_hash(croniter.croniter):
         return super(croniter_hash, self).__init__(expr_format, *args, **kwargs)
 
     def _hash_do(self, id, position, range_end=None, range_begin=None, hash_type="H"):
-        if not range_end:
+        if range_end is None:
             range_end = self.RANGES[position][1]
-        if not range_begin:
+        if range_begin is None:
             range_begin = self.RANGES[position][0]
         if hash_type == "R":
             crc = random.randint(0, 0xFFFFFFFF)
@@ -46,6 +46,17 @@ class croniter_hash(croniter.croniter):
             crc = binascii.crc32(id_bytes) & 0xFFFFFFFF
         return ((crc >> position) % (range_end - range_begin + 1)) + range_begin
 
+    def _hash_step(self, id, position, range_begin, range_end, step, hash_type="H"):
+        # The first of the steps is one of the first "step" values in the range
+        first = self._hash_do(
+            id,
+            position,
+            min(range_begin + max(step, 1) - 1, range_end),
+            range_begin,
+            hash_type=hash_type,
+        )
+        return "{}-{}/{}".format(first, range_end, step)
+
     def _hash_expand(self, expr_format, id):
         if expr_format == "@midnight":
             expr_format = "H H(0-2) * * * H"
@@ -74,11 +85,13 @@ class croniter_hash(croniter.croniter):
         # Example: H(30-59)/10 -> 34-59/10 (i.e. 34,44,54)
         m = re.match(r"^(H|R)\((\d+)-(\d+)\)\/(\d+)$", item)
         if m:
-            return "{}-{}/{}".format(
-                self._hash_do(id, idx, int(m.group(4)), hash_type=m.group(1))
-                + int(m.group(2)),
+            return self._hash_step(
+                id,
+                idx,
+                int(m.group(2)),
                 int(m.group(3)),
                 int(m.group(4)),
+                hash_type=m.group(1),
             )
 
         # Example: H(0-29) -> 12
@@ -93,10 +106,13 @@ class croniter_hash(croniter.croniter):
         # Example: H/15 -> 7-59/15 (i.e. 7,22,37,52)
         m = re.match(r"^(H|R)\/(\d+)$", item)
         if m:
-            return "{}-{}/{}".format(
-                self._hash_do(id, idx, int(m.group(2)), hash_type=m.group(1)),
+            return self._hash_step(
+                id,
+                idx,
+                self.RANGES[idx][0],
                 self.RANGES[idx][1],
                 int(m.group(2)),
+                hash_type=m.group(1),
             )
 
         # Everything else
-- 
2.43.0


From 07d91d72de76decdc3e45d52739d2f574867572d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 02/47] fix: exit code of a run which ended with a core dump

---
 dsari/daemon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 1f40463..c16745f 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -44,7 +44,8 @@ __version__ = dsari.__version__
 def wait_deadline(pid, options, deadline, interval=0.05):
     while True:
         (child_pid, child_exit, child_resource) = os.wait4(pid, options)
-        child_signal = child_exit % 256
+        # The 0x80 bit is not part of the signal, it is the core dump flag
+        child_signal = child_exit & 0x7F
         if child_signal > 0:
             child_exit = 128 + child_signal
         else:
-- 
2.43.0


From f37ef1b57e264b19e93f2a69c50682677de8c855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 03/47] fix: read a trigger's schedule_time in its
 schedule_timezone

---
 dsari/daemon.py | 17 ++++++++++++++++-
 dsari/utils.py  |  2 +-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index c16745f..6983337 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -22,8 +22,10 @@ except ImportError:
 
 try:
     import dateutil.parser as dateutil_parser
+    import dateutil.tz as dateutil_tz
 except ImportError as e:
     dateutil_parser = e
+    dateutil_tz = e
 
 import dsari
 import dsari.config
@@ -571,6 +573,17 @@ class Scheduler:
             )
             return
 
+        schedule_timezone = None
+        if j.get("schedule_timezone") and not isinstance(dateutil_tz, ImportError):
+            schedule_timezone = dateutil_tz.gettz(j["schedule_timezone"])
+            if schedule_timezone is None:
+                self.logger.error(
+                    '[{}] Invalid schedule_timezone "{}" for trigger'.format(
+                        job.name, j["schedule_timezone"]
+                    )
+                )
+                return
+
         if "schedule_time" in j:
             if type(j["schedule_time"]) in (int, float):
                 t = epoch_to_dt(float(j["schedule_time"]))
@@ -584,6 +597,8 @@ class Scheduler:
                         )
                     )
                     return
+                if t.tzinfo is None and schedule_timezone is not None:
+                    t = t.replace(tzinfo=schedule_timezone)
             else:
                 self.logger.error(
                     '[{}] Cannot parse schedule_time "{}" for trigger'.format(
@@ -591,7 +606,7 @@ class Scheduler:
                     )
                 )
                 return
-        t = dtlocalize(t, j.get("schedule_timezone"))
+        t = dtlocalize(t, schedule_timezone)
 
         if "environment" in j:
             try:
diff --git a/dsari/utils.py b/dsari/utils.py
index d1d9d90..13023fc 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -87,7 +87,7 @@ def dtlocalize(dt, tz=None):
         if isinstance(tz, datetime.tzinfo):
             return dt.astimezone(tz)
         elif not isinstance(dateutil_tz, ImportError):
-            dt.astimezone(dateutil_tz.gettz(tz))
+            return dt.astimezone(dateutil_tz.gettz(tz))
         else:
             return dt.astimezone()
     else:
-- 
2.43.0


From ab5dc40b22060af9121194b0c8a717841d5954b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 04/47] fix: a malformed trigger must not end the daemon

---
 dsari/daemon.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 6983337..c5a8161 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -6,6 +6,7 @@
 
 import argparse
 import copy
+import json
 import logging
 import math
 import os
@@ -528,7 +529,13 @@ class Scheduler:
         if self.shutdown:
             return
         for job in self.jobs:
-            self.process_trigger_job(job)
+            try:
+                self.process_trigger_job(job)
+            except Exception as e:
+                # Whatever is in a trigger file, it must not end the daemon
+                self.logger.error(
+                    "[{}] Cannot load trigger: {}: {}".format(job.name, type(e), str(e))
+                )
 
     def process_trigger_job(self, job):
         trigger_file = None
@@ -557,11 +564,6 @@ class Scheduler:
             # Likely during os.remove()
             # Return silently, otherwise we spam the log during each loop
             return
-        except ValueError as e:
-            self.logger.error(
-                "[{}] Cannot load trigger: {}".format(job.name, e.message)
-            )
-            return
         if type(j) != dict:
             self.logger.error(
                 "[{}] Cannot load trigger: Data must be a dict".format(job.name)
@@ -619,6 +621,9 @@ class Scheduler:
                 )
                 return
 
+        # The trigger data will be stored as JSON, make sure it can be
+        json.loads(json.dumps(j))
+
         run = dsari.Run(job)
         run.respawn = False
         run.trigger_type = "file"
-- 
2.43.0


From 3e2ebcbe1a8b536b91827e0170f77465685ea6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 05/47] fix: return data which cannot be stored must not end
 the daemon

---
 dsari/daemon.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index c5a8161..6d7f559 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -513,9 +513,12 @@ class Scheduler:
             break
         if return_data_file is not None:
             try:
-                run.run_data["return_data"] = load_structured_file(
+                return_data = load_structured_file(
                     return_data_file, file_type=return_data_file_type
                 )
+                # It will be stored as JSON, make sure it can be
+                json.loads(json.dumps({"return_data": return_data}))
+                run.run_data["return_data"] = return_data
             except Exception:
                 pass
 
-- 
2.43.0


From cc9315c0ea4581f7aed9e3ae8e51a8ed40c916a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 06/47] fix: template_dir made dsari-render fail

---
 dsari/render.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsari/render.py b/dsari/render.py
index 79727f7..6433649 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -94,8 +94,10 @@ class Renderer:
 
         if self.config.template_dir:
             loader = jinja2.ChoiceLoader(
-                jinja2.FileSystemLoader(self.config.template_dir),
-                jinja2.PackageLoader("dsari"),
+                [
+                    jinja2.FileSystemLoader(self.config.template_dir),
+                    jinja2.PackageLoader("dsari"),
+                ]
             )
         else:
             loader = jinja2.PackageLoader("dsari")
-- 
2.43.0


From 42b41d5a74fc7095b9736fb15742c8bd83fa580e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 07/47] fix: run output which is not UTF-8 made dsari-render
 and dsari-info fail

---
 dsari/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index 13023fc..07e942c 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -153,14 +153,16 @@ def json_pretty_print(v):
 def read_output(filename):
     if os.path.isfile(filename):
         with open(filename, "rb") as f:
-            return f.read().decode("utf-8")
+            return f.read().decode("utf-8", "replace")
     elif os.path.isfile("{}.gz".format(filename)):
         with gzip.open("{}.gz".format(filename), "rb") as f:
-            return f.read().decode("utf-8")
+            return f.read().decode("utf-8", "replace")
     elif (not isinstance(lzma, ImportError)) and os.path.isfile(
         "{}.xz".format(filename)
     ):
         with open("{}.xz".format(filename), "rb") as f:
-            return lzma.LZMADecompressor().decompress(f.read()).decode("utf-8")
+            return lzma.LZMADecompressor().decompress(f.read()).decode(
+                "utf-8", "replace"
+            )
     else:
         return None
-- 
2.43.0


From 34113ec9c5ae05614b2d8b52822319535b6cfb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 08/47] fix: run output within the report limits was shown
 truncated

---
 dsari/render.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/dsari/render.py b/dsari/render.py
index 6433649..002a7c3 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -170,11 +170,7 @@ class Renderer:
         if (
             (raw_output is not None)
             and (limit_start > 0 or limit_end > 0)
-            and (
-                raw_len > limit_combined
-                or (raw_len > limit_start and limit_start > 0)
-                or (raw_len > limit_end and limit_end > 0)
-            )
+            and raw_len > limit_combined
         ):
             run.output = ""
             if limit_start > 0:
-- 
2.43.0


From 5f6608bc59a8af883c73a7bab2a566d0ba89584d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 09/47] fix: names ending in a newline were accepted

---
 dsari/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsari/config.py b/dsari/config.py
index bc56e8b..7f45348 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -80,7 +80,7 @@ class ConfigLoader:
             return False
         if len(job_name) > 64:
             return False
-        if not re.search("^([- A-Za-z0-9_+.:@]+)$", job_name):
+        if not re.search(r"^([- A-Za-z0-9_+.:@]+)\Z", job_name):
             return False
         return True
 
-- 
2.43.0


From 2a5b6e7d046984401f3e99aa622aa7841450bb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 10/47] fix: a reload must not end the daemon if the new
 configuration is broken

---
 dsari/daemon.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 6d7f559..29e9ac7 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -199,7 +199,15 @@ class Scheduler:
             self.begin_shutdown()
         elif signum == signal.SIGHUP:
             self.logger.info("SIGHUP received, reloading")
-            self.load_config()
+            try:
+                self.load_config()
+            except Exception as e:
+                self.logger.error(
+                    "Cannot reload, keeping the previous configuration: {}: {}".format(
+                        type(e), str(e)
+                    )
+                )
+                return
             self.reset_jobs()
         elif signum == signal.SIGQUIT:
             self.sigquit_status()
-- 
2.43.0


From 51e81c8f2eb5b26868e9447b9f402bd8c5871bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 11/47] fix: runs in progress still occupy a concurrency group
 which comes back

---
 dsari/daemon.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 29e9ac7..e26a421 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -301,17 +301,15 @@ class Scheduler:
                 # Job disappeared from config during SIGHUP
                 run.respawn = False
             if run.concurrency_group:
-                if run.concurrency_group.name in self.config.concurrency_groups:
-                    concurrency_group = self.config.concurrency_groups[
-                        run.concurrency_group.name
-                    ]
-                    run.concurrency_group = concurrency_group
-                    if concurrency_group not in self.running_groups:
-                        self.running_groups[concurrency_group] = []
-                    self.running_groups[concurrency_group].append(run)
-                else:
-                    # Concurrency group disappeared from config during SIGHUP
-                    run.concurrency_group = None
+                # If the concurrency group disappeared from config during SIGHUP,
+                # still keep account of it, it may be back with the next SIGHUP
+                concurrency_group = self.config.concurrency_groups.get(
+                    run.concurrency_group.name, run.concurrency_group
+                )
+                run.concurrency_group = concurrency_group
+                if concurrency_group not in self.running_groups:
+                    self.running_groups[concurrency_group] = []
+                self.running_groups[concurrency_group].append(run)
 
     def process_run_execution_time(self, run):
         job = run.job
-- 
2.43.0


From f747935a8f2546fc5fc9cdc2f0aeeadec652ffde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 12/47] fix: a reload must not apply changed limits to runs in
 progress

---
 dsari/daemon.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index e26a421..8687c7b 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -292,12 +292,11 @@ class Scheduler:
             run.schedule_time = t
             self.scheduled_runs.append(run)
 
-        # Regenerate running runs' jobs and concurrency groups
+        # Regenerate running runs' concurrency groups
         self.running_groups = {}
         for run in self.running_runs:
-            if run.job.name in self.config.jobs:
-                run.job = self.config.jobs[run.job.name]
-            else:
+            # A run keeps the job (max_execution etc) it was started with
+            if run.job.name not in self.config.jobs:
                 # Job disappeared from config during SIGHUP
                 run.respawn = False
             if run.concurrency_group:
@@ -671,7 +670,9 @@ class Scheduler:
         if run.schedule_time > now:
             self.wakeups.append(run.schedule_time)
             return
-        if (not job.concurrent_runs) and (job in [x.job for x in self.running_runs]):
+        if (not job.concurrent_runs) and (
+            job.name in [x.job.name for x in self.running_runs]
+        ):
             self.wakeups.append(now + backoff(run.schedule_time, now))
             return
         run.concurrency_group = None
-- 
2.43.0


From fb6cd185a1e9360771e3d9d8af4b557504acad83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 13/47] fix: RRULE schedules with UNTIL, with or without a
 timezone

---
 dsari/utils.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index 07e942c..a58d956 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -120,7 +120,7 @@ def validate_environment_dict(env_in):
 
 def get_next_schedule_time(schedule, job_name, start_time=None):
     if start_time is None:
-        start_time = datetime.datetime.now()
+        start_time = dtnow()
     crc = binascii.crc32(job_name.encode("utf-8")) & 0xFFFFFFFF
     subsecond_offset = seconds_to_td(float(crc) / float(0xFFFFFFFF))
     if schedule.upper().startswith("RRULE:"):
@@ -129,7 +129,18 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
         hashed_epoch = start_time - seconds_to_td(
             ((dt_to_epoch(start_time) - crc) % 86400)
         )
-        t = dateutil_rrule.rrulestr(schedule, dtstart=hashed_epoch).after(start_time)
+        try:
+            t = dateutil_rrule.rrulestr(schedule, dtstart=hashed_epoch).after(
+                start_time
+            )
+        except ValueError:
+            # An UNTIL without a timezone is relative to the schedule's timezone,
+            # but not allowed together with a timezone-aware dtstart
+            t = dateutil_rrule.rrulestr(
+                schedule, dtstart=hashed_epoch.replace(tzinfo=None)
+            ).after(start_time.replace(tzinfo=None))
+            if t is not None:
+                t = t.replace(tzinfo=start_time.tzinfo)
         if t is not None:
             t = t + subsecond_offset
         return t
-- 
2.43.0


From 91998848fe8441b038592390c6f45120dcece6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 14/47] fix: a compiled configuration dump could not be loaded,
 and lost timezones

---
 dsari/__init__.py |  1 +
 dsari/config.py   | 14 +++++++++-----
 dsari/info.py     |  1 +
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/dsari/__init__.py b/dsari/__init__.py
index be07f6a..1d11016 100644
--- a/dsari/__init__.py
+++ b/dsari/__init__.py
@@ -31,6 +31,7 @@ class Job(object):
         self.command = []
         self.schedule = None
         self.schedule_timezone = utils.dtnow().tzinfo
+        self.schedule_timezone_name = None
         self.concurrency_groups = []
         self.max_execution = None
         self.max_execution_grace = utils.seconds_to_td(60.0)
diff --git a/dsari/config.py b/dsari/config.py
index 7f45348..4d1215e 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -132,6 +132,9 @@ class ConfigLoader:
                         level, k, repr(type(v)), repr(valid_values[k])
                     )
                 )
+            if v is None:
+                # Not set, keep the default
+                continue
             if k in value_transforms:
                 try:
                     v = value_transforms[k](v)
@@ -147,12 +150,12 @@ class ConfigLoader:
     def build_base(self, config):
         valid_values = {
             "data_dir": (str,),
-            "template_dir": (str,),
+            "template_dir": (type(None), str),
             "report_html_gz": (bool,),
             "report_run_output_start": (int,),
             "report_run_output_end": (int,),
             "shutdown_kill_runs": (bool,),
-            "shutdown_kill_grace": (int, float),
+            "shutdown_kill_grace": (type(None), int, float),
             "environment": (dict,),
             "database": (dict,),
         }
@@ -216,14 +219,14 @@ class ConfigLoader:
         valid_values = {
             "command": (list, str),
             "schedule": (type(None),) + (str,),
-            "schedule_timezone": (str,),
-            "max_execution": (int, float),
+            "schedule_timezone": (type(None), str),
+            "max_execution": (type(None), int, float),
             "max_execution_grace": (int, float),
             "environment": (dict,),
             "render_reports": (bool,),
             "command_append_run": (bool,),
             "jenkins_environment": (bool,),
-            "job_group": (str,),
+            "job_group": (type(None), str),
             "concurrent_runs": (bool,),
         }
         value_transforms = {
@@ -243,6 +246,7 @@ class ConfigLoader:
         self.populate_object(
             job, "Job {}".format(job_name), job_dict, valid_values, value_transforms
         )
+        job.schedule_timezone_name = job_dict.get("schedule_timezone")
         if job.schedule is not None:
             try:
                 utils.get_next_schedule_time(job.schedule, job.name)
diff --git a/dsari/info.py b/dsari/info.py
index eeaf0a7..dcdab2d 100644
--- a/dsari/info.py
+++ b/dsari/info.py
@@ -310,6 +310,7 @@ class Info:
                 "command": job.command,
                 "command_append_run": job.command_append_run,
                 "schedule": job.schedule,
+                "schedule_timezone": job.schedule_timezone_name,
                 "next_scheduled_run": (
                     get_next_schedule_time(
                         job.schedule, job.name, start_time=dtnow(job.schedule_timezone)
-- 
2.43.0


From 7a48955b114571f1ce6f37af19663491da08f9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 15/47] fix: a repeated shutdown request must not extend the
 kill grace

---
 dsari/daemon.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 8687c7b..209261a 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -148,6 +148,9 @@ class Scheduler:
         self.logger.info("Scheduler running")
 
     def begin_shutdown(self):
+        if self.shutdown:
+            # Already in progress, do not start the grace period over
+            return
         self.shutdown = True
         self.shutdown_begin = dtnow()
         self.scheduled_runs = []
-- 
2.43.0


From ef8f61fbe21e02cb39073ef229528be38e0fea6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 16/47] fix: handle signals in the main loop, not in between
 any two operations

---
 dsari/daemon.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 209261a..d0f0bef 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -55,7 +55,7 @@ def wait_deadline(pid, options, deadline, interval=0.05):
             child_exit = child_exit >> 8
         if child_pid != 0:
             return (child_pid, child_exit, child_resource)
-        if dtnow() >= deadline:
+        if dtnow() >= deadline():
             return (child_pid, child_exit, child_resource)
         time.sleep(interval)
 
@@ -128,6 +128,7 @@ class Scheduler:
         self.running_groups = {}
 
         self.wakeups = []
+        self.pending_signals = []
         self.next_wakeup = dtnow() + seconds_to_td(60.0)
 
         self.db = dsari.database.get_database(self.config)
@@ -193,7 +194,16 @@ class Scheduler:
             run.kill_sent = True
 
     def signal_handler(self, signum, frame):
+        # This may run in the middle of anything, so just make a note, end the
+        # current wait and let the main loop do the work
+        self.pending_signals.append(signum)
         self.next_wakeup = dtnow()
+
+    def process_signals(self):
+        while len(self.pending_signals) > 0:
+            self.process_signal(self.pending_signals.pop(0))
+
+    def process_signal(self, signum):
         if signum in (signal.SIGINT, signal.SIGTERM):
             if signum == signal.SIGINT:
                 self.logger.info("SIGINT received, beginning shutdown")
@@ -484,7 +494,7 @@ class Scheduler:
             "Waiting up to {} for running jobs".format(self.next_wakeup - dtnow())
         )
         (child_pid, child_exit, child_resource) = wait_deadline(
-            -1, os.WNOHANG, self.next_wakeup
+            -1, os.WNOHANG, lambda: self.next_wakeup
         )
         if child_pid == 0:
             return child_pid
@@ -540,6 +550,8 @@ class Scheduler:
         if self.shutdown:
             return
         for job in self.jobs:
+            if len(self.pending_signals) > 0:
+                return
             try:
                 self.process_trigger_job(job)
             except Exception as e:
@@ -764,19 +776,26 @@ class Scheduler:
             )
 
     def process_wakeups(self):
-        self.next_wakeup = dtnow() + seconds_to_td(60.0)
+        next_wakeup = dtnow() + seconds_to_td(60.0)
         for wakeup in self.wakeups:
-            if wakeup < self.next_wakeup:
-                self.next_wakeup = wakeup
+            if wakeup < next_wakeup:
+                next_wakeup = wakeup
+        self.next_wakeup = next_wakeup
+        if len(self.pending_signals) > 0:
+            # Arrived since the loop began
+            self.next_wakeup = dtnow()
 
     def loop(self):
         while True:
             self.wakeups = []
+            self.process_signals()
             self.process_triggers()
 
             scheduled_runs = copy.copy(self.scheduled_runs)
             random.shuffle(scheduled_runs)
             for run in scheduled_runs:
+                if len(self.pending_signals) > 0:
+                    break
                 self.process_scheduled_run(run)
 
             for run in self.running_runs:
-- 
2.43.0


From 502f6c7d0f1c1745ff2ccfb1ceb07b439ef43619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:17 +0000
Subject: [PATCH 17/47] fix: a run scheduled at the start of the previous one
 was not woken up for

---
 dsari/daemon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index d0f0bef..1ef0ad1 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -769,6 +769,8 @@ class Scheduler:
             run.trigger_type = "schedule"
             run.schedule_time = t
             self.scheduled_runs.append(run)
+            # Not part of the current pass over the scheduled runs
+            self.wakeups.append(t)
             self.logger.debug(
                 "[{} {}] Next scheduled run: {} ({})".format(
                     job.name, run.id, t, (t - now)
-- 
2.43.0


From bae8c44e70f15dda885c7d849b4c2e43feddac06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 18/47] fix: each wakeup during the SIGTERM grace put off the
 SIGKILL

---
 dsari/daemon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 1ef0ad1..0e69d2a 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -350,7 +350,7 @@ class Scheduler:
                 )
                 os.kill(run.pid, signal.SIGTERM)
                 run.term_sent = True
-            self.wakeups.append(now + sigterm_grace)
+            self.wakeups.append(run.start_time + job.max_execution + sigterm_grace)
         else:
             self.wakeups.append(run.start_time + job.max_execution)
 
-- 
2.43.0


From cd9ed09873c8cefb18417bcfba2c94d86c2da73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 19/47] fix: a schedule_time at the limits of datetime ended
 the daemon when it was read back

---
 dsari/daemon.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 0e69d2a..9146a4c 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -644,6 +644,11 @@ class Scheduler:
                 )
                 return
 
+        # The schedule time will be stored as an epoch and read back in any
+        # timezone, make sure it can be
+        for margin in (-86400, 86400):
+            epoch_to_dt(dt_to_epoch(t) + margin).astimezone()
+
         # The trigger data will be stored as JSON, make sure it can be
         json.loads(json.dumps(j))
 
-- 
2.43.0


From a79c2f74f7cdcfe6adabb2af8f366a070bd95262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 20/47] fix: concurrency_groups and job_names given as text
 were taken as lists of single letters

---
 dsari/config.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dsari/config.py b/dsari/config.py
index 4d1215e..4d28059 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -207,6 +207,10 @@ class ConfigLoader:
                 raise ConfigError(
                     "Job group {}: job_names required".format(job_group_name)
                 )
+            if type(job_template["job_names"]) != list:
+                raise ConfigError(
+                    "Job group {}: job_names must be a list".format(job_group_name)
+                )
             for job_name in job_template["job_names"]:
                 jobs[job_name] = copy.deepcopy(job_template)
                 jobs[job_name]["job_group"] = job_group_name
@@ -262,6 +266,10 @@ class ConfigLoader:
     def build_job_concurrency_groups(self, job, job_dict):
         if "concurrency_groups" not in job_dict:
             return
+        if type(job_dict["concurrency_groups"]) != list:
+            raise ConfigError(
+                "Job {}: concurrency_groups must be a list".format(job.name)
+            )
         for concurrency_group_name in job_dict["concurrency_groups"]:
             if concurrency_group_name in self.config.concurrency_groups:
                 concurrency_group = self.config.concurrency_groups[
-- 
2.43.0


From e4765ee8935e5cd7d86c4e620a841d0a3cf59cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 21/47] fix: a database array without a type did not default to
 SQLite 3

---
 dsari/database.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsari/database.py b/dsari/database.py
index 4773ae9..4dfc306 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -13,11 +13,12 @@ from dsari.utils import dt_to_epoch, epoch_to_dt
 
 
 def get_database(config):
-    if config.database["type"] == "postgresql":
+    database_type = config.database.get("type")
+    if database_type == "postgresql":
         return PostgreSQLDatabase(config)
-    elif config.database["type"] == "mysql":
+    elif database_type == "mysql":
         return MySQLDatabase(config)
-    elif config.database["type"] == "mongodb":
+    elif database_type == "mongodb":
         return MongoDBDatabase(config)
     else:
         return SQLite3Database(config)
-- 
2.43.0


From 95fe94e7937089069f45fcefd4d82fe3348dfcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:51 +0000
Subject: [PATCH 22/47] fix: day of week 7 (Sunday) was rejected, since a
 seconds field is always added

---
 dsari/croniter_hash.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dsari/croniter_hash.py b/dsari/croniter_hash.py
index aa929fb..e9e38f6 100644
--- a/dsari/croniter_hash.py
+++ b/dsari/croniter_hash.py
@@ -74,7 +74,12 @@ class croniter_hash(croniter.croniter):
         expr_expanded = []
         for item in expr_format.split(" "):
             idx = len(expr_expanded)
-            expr_expanded.append(self._hash_expand_item(item, id, idx))
+            item = self._hash_expand_item(item, id, idx)
+            if idx == 4:
+                # Sunday is 0 or 7, but croniter only takes 7 if there is no
+                # seconds field
+                item = re.sub(r"(?<![/#\d])7(?!\d)", "0", item)
+            expr_expanded.append(item)
         return " ".join(expr_expanded)
 
     def _hash_expand_item(self, item, id, idx):
-- 
2.43.0


From 5598c52a3ed97286c713a80d5f56df8e4c49535b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 23/47] fix: steps of a hashed field were wrong if only its
 last value was left

---
 dsari/croniter_hash.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsari/croniter_hash.py b/dsari/croniter_hash.py
index e9e38f6..d60a71d 100644
--- a/dsari/croniter_hash.py
+++ b/dsari/croniter_hash.py
@@ -55,6 +55,9 @@ class croniter_hash(croniter.croniter):
             range_begin,
             hash_type=hash_type,
         )
+        if first == range_end and step:
+            # croniter would take a range of one as the whole range
+            return str(first)
         return "{}-{}/{}".format(first, range_end, step)
 
     def _hash_expand(self, expr_format, id):
-- 
2.43.0


From 7cba3dc7d87b9bea14d340d96f90ee14bea19517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 24/47] fix: a hashed day and month could make up a date which
 does not exist

---
 dsari/croniter_hash.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dsari/croniter_hash.py b/dsari/croniter_hash.py
index d60a71d..6e80c58 100644
--- a/dsari/croniter_hash.py
+++ b/dsari/croniter_hash.py
@@ -74,8 +74,9 @@ class croniter_hash(croniter.croniter):
         elif expr_format == "@yearly" or expr_format == "@annually":
             expr_format = "H H H H * H"
 
+        items = expr_format.split(" ")
         expr_expanded = []
-        for item in expr_format.split(" "):
+        for item in items:
             idx = len(expr_expanded)
             item = self._hash_expand_item(item, id, idx)
             if idx == 4:
@@ -83,6 +84,10 @@ class croniter_hash(croniter.croniter):
                 # seconds field
                 item = re.sub(r"(?<![/#\d])7(?!\d)", "0", item)
             expr_expanded.append(item)
+        if len(items) > 3 and items[2] in ("H", "R") and expr_expanded[3].isdigit():
+            # The day must exist in the month
+            days = {2: 28, 4: 30, 6: 30, 9: 30, 11: 30}.get(int(expr_expanded[3]), 31)
+            expr_expanded[2] = str(min(int(expr_expanded[2]), days))
         return " ".join(expr_expanded)
 
     def _hash_expand_item(self, item, id, idx):
-- 
2.43.0


From f06cc88a3f0879346760b90b0767cdb2bed6b58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:08 +0000
Subject: [PATCH 25/47] fix: links to jobs with a colon or other special
 characters in the name led elsewhere

---
 dsari/templates/index.html | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsari/templates/index.html b/dsari/templates/index.html
index 214902a..bb09f85 100644
--- a/dsari/templates/index.html
+++ b/dsari/templates/index.html
@@ -21,7 +21,7 @@
 </tr>
 {% for run in failed_runs %}
 <tr{% if run.exit_code != 0 %} class="danger"{% endif %}>
-    <td><a href="{{ run.job.name }}/{{ run.id }}/">{{ strip_ms(run.stop_time) }}</a></td>
+    <td><a href="{{ run.job.name|urlencode }}/{{ run.id }}/">{{ strip_ms(run.stop_time) }}</a></td>
     <td>{{ run.job.name }}</td>
     <td>{{ strip_ms(run.stop_time - run.start_time) }}</td>
     <td>{{ run.exit_code }}</td>
@@ -38,7 +38,7 @@
 </tr>
 {% for run in runs %}
 <tr{% if run.exit_code != 0 %} class="danger"{% endif %}>
-    <td><a href="{{ run.job.name }}/{{ run.id }}/">{{ strip_ms(run.stop_time) }}</a></td>
+    <td><a href="{{ run.job.name|urlencode }}/{{ run.id }}/">{{ strip_ms(run.stop_time) }}</a></td>
     <td>{{ run.job.name }}</td>
     <td>{{ strip_ms(run.stop_time - run.start_time) }}</td>
     <td>{{ run.exit_code }}</td>
@@ -55,7 +55,7 @@
 </tr>
 {% for job in jobs %}
 <tr{% if job.last_run.start_time != job.last_successful_run.start_time %} class="danger"{% endif %}>
-    <td><a href="{{ job.name }}/">{{ job.name }}</a></td>
+    <td><a href="{{ job.name|urlencode }}/">{{ job.name }}</a></td>
     <td>{{ strip_ms(job.last_run.start_time) }}</td>
     <td>{% if job.last_run.start_time %}{{ strip_ms(job.last_run.stop_time - job.last_run.start_time) }}{% endif %}</td>
     <td>{{ strip_ms(job.last_successful_run.start_time) }}</td>
-- 
2.43.0


From a6194951cfa48118110a8fea341a217182f1d453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:13 +0000
Subject: [PATCH 26/47] fix: a lone surrogate in trigger data made all report
 rendering fail

---
 dsari/render.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsari/render.py b/dsari/render.py
index 002a7c3..3f49ba2 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -66,12 +66,14 @@ def parse_args():
 
 
 def write_html_file(filename, content):
+    # Trigger data (JSON) may contain lone surrogates
+    content = content.encode("utf-8", "replace")
     if filename.endswith(".gz"):
         with gzip.open(filename, "wb") as f:
-            f.write(content.encode("utf-8"))
+            f.write(content)
     else:
         with open(filename, "wb") as f:
-            f.write(content.encode("utf-8"))
+            f.write(content)
 
 
 class Renderer:
-- 
2.43.0


From e321b76b16044bcb57c1297ffd8c0046edeb6d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:25 +0000
Subject: [PATCH 27/47] fix: a SIGHUP during a scrape failed the scrape or was
 lost to the cache

---
 dsari/prometheus_exporter.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dsari/prometheus_exporter.py b/dsari/prometheus_exporter.py
index 3bc4504..7b01531 100644
--- a/dsari/prometheus_exporter.py
+++ b/dsari/prometheus_exporter.py
@@ -125,9 +125,15 @@ class Prometheus:
 
     def load_config(self):
         self.config = dsari.config.get_config(self.args.config_dir)
+        self.reloaded_configs = []
         self.job_cache = None
         self.job_cache_time = None
 
+    def reload_config(self):
+        # Called from a signal handler, possibly during a scrape, so only
+        # the next scrape uses it
+        self.reloaded_configs.append(dsari.config.get_config(self.args.config_dir))
+
     def build_metrics_text(self, metrics):
         output = ""
         for k in sorted(metrics):
@@ -345,6 +351,10 @@ class Prometheus:
         exporter_start = dtnow()
         metrics = {}
 
+        while self.reloaded_configs:
+            self.config = self.reloaded_configs.pop(0)
+            self.job_cache = None
+
         if (self.job_cache is None) or (
             (self.job_cache_time + seconds_to_td(self.args.job_cache_time)) < dtnow()
         ):
@@ -396,7 +406,7 @@ class PrometheusHandler:
     def signal_handler(self, signum, frame):
         if signum == signal.SIGHUP:
             self.logger.info("SIGHUP received, reloading")
-            self.prom.load_config()
+            self.prom.reload_config()
 
     def __call__(self, environ, start_response):
         self.environ = environ
-- 
2.43.0


From e893b9bd16be8418923523ab314996885e564110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:25 +0000
Subject: [PATCH 28/47] fix: a reload with a broken configuration ended the
 exporter

---
 dsari/prometheus_exporter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsari/prometheus_exporter.py b/dsari/prometheus_exporter.py
index 7b01531..4806832 100644
--- a/dsari/prometheus_exporter.py
+++ b/dsari/prometheus_exporter.py
@@ -406,7 +406,10 @@ class PrometheusHandler:
     def signal_handler(self, signum, frame):
         if signum == signal.SIGHUP:
             self.logger.info("SIGHUP received, reloading")
-            self.prom.reload_config()
+            try:
+                self.prom.reload_config()
+            except Exception as e:
+                self.logger.exception(e)
 
     def __call__(self, environ, start_response):
         self.environ = environ
-- 
2.43.0


From 475d88dbe9f4c55661f2e5a465cee31fff3a739a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:51 +0000
Subject: [PATCH 29/47] fix: runs were started with SIGXFSZ ignored, as left by
 the Python interpreter

---
 dsari/daemon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 9146a4c..ea63310 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -457,6 +457,7 @@ class Scheduler:
 
         # Set STDIN to /dev/null, and STDOUT/STDERR to the output file
         signal.signal(signal.SIGPIPE, signal.SIG_DFL)
+        signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
         out_f = open(
             os.path.join(self.config.data_dir, "runs", job.name, run.id, "output.txt"),
             "w",
-- 
2.43.0


From e398303aadd9ebd77064996c10284e5a5661708b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:22 +0000
Subject: [PATCH 30/47] fix: times in PostgreSQL, MySQL and MongoDB were off by
 time zone offsets

psycopg2 and pymongo convert aware times to another zone and mysqlclient
drops the zone; all return naive times, which were then taken for local
ones (or failed to be compared to aware ones).  Store and read UTC.
---
 dsari/database.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/dsari/database.py b/dsari/database.py
index 4dfc306..d0b2ab7 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -5,6 +5,7 @@
 # SPDX-License-Identifier: MPL-2.0
 
 import copy
+import datetime
 import json
 import os
 
@@ -12,6 +13,13 @@ import dsari
 from dsari.utils import dt_to_epoch, epoch_to_dt
 
 
+def naive_to_local(t):
+    # Databases which do not store a time zone have times in UTC
+    if t is not None and t.tzinfo is None:
+        t = t.replace(tzinfo=datetime.timezone.utc)
+    return t if t is None else t.astimezone()
+
+
 def get_database(config):
     database_type = config.database.get("type")
     if database_type == "postgresql":
@@ -67,7 +75,9 @@ class BaseSQLDatabase(BaseDatabase):
     def _build_insert(self, pairs):
         out = []
         for (k, v) in pairs:
-            if k in ("trigger_data", "run_data"):
+            if k in ("schedule_time", "start_time", "stop_time"):
+                out.append(v.astimezone(datetime.timezone.utc).replace(tzinfo=None))
+            elif k in ("trigger_data", "run_data"):
                 out.append(json.dumps(v))
             else:
                 out.append(v)
@@ -81,7 +91,7 @@ class BaseSQLDatabase(BaseDatabase):
             if type(f[k]) in (int, float):
                 setattr(run, k, epoch_to_dt(f[k]).astimezone())
             else:
-                setattr(run, k, f[k])
+                setattr(run, k, naive_to_local(f[k]))
         if "exit_code" in f.keys():
             run.exit_code = f["exit_code"]
         run.trigger_type = f["trigger_type"]
@@ -616,7 +626,10 @@ class MongoDBDatabase(BaseDatabase):
         ):
             if k not in f:
                 continue
-            setattr(run, k, f[k])
+            if k in ("schedule_time", "start_time", "stop_time"):
+                setattr(run, k, naive_to_local(f[k]))
+            else:
+                setattr(run, k, f[k])
         return run
 
     def get_previous_runs(self, job):
-- 
2.43.0


From b2c4fe35420ad184bba3a2b6fc3cdcb28f89de9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:22 +0000
Subject: [PATCH 31/47] fix: PostgreSQL and MySQL failed when asked for the
 runs of no jobs

---
 dsari/database.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsari/database.py b/dsari/database.py
index d0b2ab7..bae9e70 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -292,6 +292,9 @@ class BaseSQLDatabase(BaseDatabase):
         else:
             where = None
             where_in = []
+        if (where is not None) and (len(where_in) == 0):
+            # Only SQLite accepts "in ()"
+            return []
         if runs_running:
             table_name = "runs_running"
         else:
-- 
2.43.0


From 0382e5a73909f188474b93049424a4508e55cdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:22 +0000
Subject: [PATCH 32/47] fix: the exporter never saw new runs in MySQL, reading
 in an endless transaction

---
 dsari/database.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsari/database.py b/dsari/database.py
index bae9e70..912145a 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -187,6 +187,7 @@ class BaseSQLDatabase(BaseDatabase):
             previous_bad_run = self._build_run_from_result(job, f)
         else:
             previous_bad_run = None
+        self.db_conn.commit()
 
         return (previous_run, previous_good_run, previous_bad_run)
 
@@ -332,6 +333,8 @@ class BaseSQLDatabase(BaseDatabase):
                 fake_jobs[db_result["job_name"]] = job
             runs.append(self._build_run_from_result(job, db_result))
         cur.close()
+        # End the transaction, or later reads may see the same old snapshot
+        self.db_conn.commit()
         return runs
 
 
-- 
2.43.0


From da52a8e3b7646d941525c839822549efdfcf75d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:22 +0000
Subject: [PATCH 33/47] fix: MySQL mixed up jobs whose names differ in case
 only

This applies to newly created tables.
---
 dsari/database.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsari/database.py b/dsari/database.py
index 912145a..cda8137 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -446,7 +446,8 @@ class MySQLDatabase(BaseSQLDatabase):
         if not runs_exists:
             sql_statement = """
                 CREATE TABLE runs (
-                    job_name varchar(255) NOT NULL,
+                    job_name varchar(255)
+                        CHARACTER SET utf8mb4 COLLATE utf8mb4_bin NOT NULL,
                     run_id char(36) PRIMARY KEY,
                     schedule_time datetime(6) NOT NULL,
                     start_time datetime(6) NOT NULL,
@@ -480,7 +481,8 @@ class MySQLDatabase(BaseSQLDatabase):
         if not runs_running_exists:
             sql_statement = """
                 CREATE TABLE runs_running (
-                    job_name varchar(255) NOT NULL,
+                    job_name varchar(255)
+                        CHARACTER SET utf8mb4 COLLATE utf8mb4_bin NOT NULL,
                     run_id char(36) PRIMARY KEY,
                     schedule_time datetime(6) NOT NULL,
                     start_time datetime(6) NOT NULL,
-- 
2.43.0


From bc0a9d64df88d7b21fa60c66f3cef9fdd2d8582c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:22 +0000
Subject: [PATCH 34/47] fix: dsari-info failed with PostgreSQL for a run which
 is not a UUID

---
 dsari/database.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/dsari/database.py b/dsari/database.py
index cda8137..68fe271 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -8,6 +8,7 @@ import copy
 import datetime
 import json
 import os
+import uuid
 
 import dsari
 from dsari.utils import dt_to_epoch, epoch_to_dt
@@ -20,6 +21,13 @@ def naive_to_local(t):
     return t if t is None else t.astimezone()
 
 
+def is_uuid(text):
+    try:
+        return str(uuid.UUID(text)) == text
+    except ValueError:
+        return False
+
+
 def get_database(config):
     database_type = config.database.get("type")
     if database_type == "postgresql":
@@ -415,6 +423,14 @@ class PostgreSQLDatabase(BaseSQLDatabase):
             cur.close()
             self.db_conn.commit()
 
+    def get_runs(self, job_names=None, run_ids=None, runs_running=False):
+        if run_ids is not None:
+            # PostgreSQL fails on anything which is not a UUID
+            run_ids = [run_id for run_id in run_ids if is_uuid(run_id)]
+        return super().get_runs(
+            job_names=job_names, run_ids=run_ids, runs_running=runs_running
+        )
+
 
 class MySQLDatabase(BaseSQLDatabase):
     def __init__(self, config):
-- 
2.43.0


From eceb407bcbb0f18567a784d7d0ff58c618e1b616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:22 +0000
Subject: [PATCH 35/47] fix: last runs on the report's index depended on the
 order of database rows

---
 dsari/render.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsari/render.py b/dsari/render.py
index 3f49ba2..22dbf54 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -140,7 +140,8 @@ class Renderer:
     def render_runs(self):
         self.run_template = self.templates.get_template("run.html")
         runs = self.db.get_runs(job_names=[job.name for job in self.jobs])
-        for run in runs:
+        # Not all databases return runs in the order in which they ended
+        for run in sorted(runs, key=lambda run: run.stop_time):
             self.render_run(run)
 
     def render_run(self, run):
-- 
2.43.0


From d685859e1a763ad2844ce47862bc308303125a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:57 +0000
Subject: [PATCH 36/47] fix: a trigger put in place while another one was being
 taken could be lost

---
 dsari/daemon.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index ea63310..f926e2f 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -575,13 +575,19 @@ class Scheduler:
             break
         if trigger_file is None:
             return
-        t = dtlocalize(epoch_to_dt(os.path.getmtime(trigger_file)))
+        if not os.path.isfile(trigger_file) or not os.access(trigger_file, os.R_OK):
+            # Return silently, otherwise we spam the log during each loop
+            return
+        # Take it away first, another trigger may be put in its place any time
+        taken_file = "{}.taken".format(trigger_file)
         try:
+            os.rename(trigger_file, taken_file)
+            t = dtlocalize(epoch_to_dt(os.path.getmtime(taken_file)))
             j = load_structured_file(
-                trigger_file, file_type=trigger_file_type, delete_during=True
+                taken_file, file_type=trigger_file_type, delete_during=True
             )
         except IOError:
-            # Likely during open()
+            # Likely during os.rename() or open()
             # Return silently, otherwise we spam the log during each loop
             return
         except OSError:
-- 
2.43.0


From efcd2abe7f4034dd7cc9461ff5553c1fc263be9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:08 +0000
Subject: [PATCH 37/47] fix: an RRULE with an INTERVAL of zero hung the
 configuration check and the daemon forever

---
 dsari/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dsari/utils.py b/dsari/utils.py
index a58d956..ad231af 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -10,6 +10,7 @@ import datetime
 import gzip
 import json
 import os
+import re
 
 try:
     import dateutil.rrule as dateutil_rrule
@@ -126,6 +127,10 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
     if schedule.upper().startswith("RRULE:"):
         if isinstance(dateutil_rrule, ImportError):
             raise ImportError("dateutil not available, manual triggers only")
+        for param in re.split(r"[\s:;]+", schedule.upper()):
+            # dateutil would search for a next occurrence forever
+            if param.startswith("INTERVAL=") and int(param[9:]) < 1:
+                raise ValueError("invalid 'INTERVAL': {}".format(param[9:]))
         hashed_epoch = start_time - seconds_to_td(
             ((dt_to_epoch(start_time) - crc) % 86400)
         )
-- 
2.43.0


From 1636b6c7f62c1c2abd6f0eeb45c1ae3697675429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:24 +0000
Subject: [PATCH 38/47] fix: a random (R) range exceeding its field was
 accepted or rejected at random, and could end the daemon later

---
 dsari/croniter_hash.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dsari/croniter_hash.py b/dsari/croniter_hash.py
index 6e80c58..8e67648 100644
--- a/dsari/croniter_hash.py
+++ b/dsari/croniter_hash.py
@@ -35,6 +35,14 @@ class croniter_hash(croniter.croniter):
         if range_begin is None:
             range_begin = self.RANGES[position][0]
         if hash_type == "R":
+            if (
+                range_begin < self.RANGES[position][0]
+                or range_end > self.RANGES[position][1]
+            ):
+                # Some values would be acceptable, others not
+                raise ValueError(
+                    "Random range {}-{} is out of range".format(range_begin, range_end)
+                )
             crc = random.randint(0, 0xFFFFFFFF)
         else:
             if isinstance(id, bytes):
-- 
2.43.0


From f6278930bf5bedb74119bfe92d996d271bfb67dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:15 +0000
Subject: [PATCH 39/47] fix: random (R) days and months making up a date that
 does not exist were an error, also at run time, where they ended the daemon

---
 dsari/utils.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index ad231af..3a0f2df 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -153,13 +153,18 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
         raise ImportError("croniter not available, manual triggers only")
     if len(schedule.split(" ")) == 5:
         schedule = schedule + " H"
-    t = (
-        croniter_hash.croniter_hash(
-            schedule, start_time=start_time, hash_id=job_name
-        ).get_next(datetime.datetime)
-        + subsecond_offset
-    )
-    return t
+    for tries_left in reversed(range(100)):
+        try:
+            t = croniter_hash.croniter_hash(
+                schedule, start_time=start_time, hash_id=job_name
+            ).get_next(datetime.datetime)
+            break
+        except croniter_hash.croniter.CroniterBadDateError:
+            # Random (R) positions may happen to be a date which does not exist,
+            # such as February 30
+            if not tries_left or "R" not in schedule.upper():
+                raise
+    return t + subsecond_offset
 
 
 def json_pretty_print(v):
-- 
2.43.0


From 883056d5cd34aa8c2e7e6385ef704424afc117d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:27 +0000
Subject: [PATCH 40/47] fix: reading a large SQLite history no longer blocks
 the daemon until it fails

---
 dsari/database.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsari/database.py b/dsari/database.py
index 68fe271..4de5fe4 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -331,7 +331,8 @@ class BaseSQLDatabase(BaseDatabase):
         # Fake up a stub job object if the job has disappeared from
         # the config.
         fake_jobs = {}
-        for db_result in cur:
+        # Fetch all at once, SQLite can't write while there is more to read
+        for db_result in cur.fetchall():
             if db_result["job_name"] in self.config.jobs:
                 job = self.config.jobs[db_result["job_name"]]
             elif db_result["job_name"] in fake_jobs:
@@ -527,7 +528,7 @@ class SQLite3Database(BaseSQLDatabase):
         if not os.path.exists(db_dir):
             os.makedirs(db_dir)
         self.config = config
-        self.db_conn = sqlite3.connect(config.database["file"])
+        self.db_conn = sqlite3.connect(config.database["file"], timeout=60.0)
         self.db_conn.row_factory = sqlite3.Row
         self.populate_schema()
 
-- 
2.43.0


From 3cf32d981fe4cd217f4d954059f3941e2ae01139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:27 +0000
Subject: [PATCH 41/47] fix: a run which ends while runs are being listed is no
 longer missing

---
 dsari/info.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dsari/info.py b/dsari/info.py
index dcdab2d..ebf7369 100644
--- a/dsari/info.py
+++ b/dsari/info.py
@@ -421,9 +421,15 @@ class Info:
     def cmd_list_runs(self):
         job_names = self.args.job
         run_ids = self.args.run
+        # Runs may be completed in the meantime, so ask for the running ones first
+        runs_running = self.db.get_runs(
+            job_names=job_names, run_ids=run_ids, runs_running=True
+        )
         runs = self.db.get_runs(
             job_names=job_names, run_ids=run_ids, runs_running=False
-        ) + self.db.get_runs(job_names=job_names, run_ids=run_ids, runs_running=True)
+        )
+        completed = {run.id for run in runs}
+        runs += [run for run in runs_running if run.id not in completed]
         if self.args.format in ("json", "yaml"):
             out = {}
             for run in runs:
@@ -535,9 +541,10 @@ class Info:
 
     def cmd_get_run_output(self):
         run_id = self.args.run
-        runs = self.db.get_runs(run_ids=[run_id])
+        # The run may be completed in the meantime, so ask for running runs first
+        runs = self.db.get_runs(run_ids=[run_id], runs_running=True)
         if len(runs) == 0:
-            runs = self.db.get_runs(run_ids=[run_id], runs_running=True)
+            runs = self.db.get_runs(run_ids=[run_id])
             if len(runs) == 0:
                 self.args.parser.error("Cannot find run ID {}".format(run_id))
         run = runs[0]
-- 
2.43.0


From c707518ddf4445fd9ab82038f36716025bfc46b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:27 +0000
Subject: [PATCH 42/47] fix: variables announced by the shell without IPython

---
 dsari/info.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dsari/info.py b/dsari/info.py
index ebf7369..7f153a4 100644
--- a/dsari/info.py
+++ b/dsari/info.py
@@ -613,9 +613,8 @@ class Info:
             class DsariConsole(code.InteractiveConsole):
                 pass
 
-            console_vars = vars.copy().update(
-                {"__name__": "__console__", "__doc__": None}
-            )
+            console_vars = vars.copy()
+            console_vars.update({"__name__": "__console__", "__doc__": None})
             print(banner, end="")
             DsariConsole(locals=console_vars).interact()
 
-- 
2.43.0


From b44942202877736f932ea71d517bfccfe91fc75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:34 +0000
Subject: [PATCH 43/47] fix: jobs without a timezone follow the local timezone
 across DST changes

---
 dsari/__init__.py |  2 +-
 dsari/utils.py    | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/dsari/__init__.py b/dsari/__init__.py
index 1d11016..6b521b7 100644
--- a/dsari/__init__.py
+++ b/dsari/__init__.py
@@ -30,7 +30,7 @@ class Job(object):
         self.name = name
         self.command = []
         self.schedule = None
-        self.schedule_timezone = utils.dtnow().tzinfo
+        self.schedule_timezone = utils.local_timezone()
         self.schedule_timezone_name = None
         self.concurrency_groups = []
         self.max_execution = None
diff --git a/dsari/utils.py b/dsari/utils.py
index 3a0f2df..25cdc93 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -99,6 +99,16 @@ def dtnow(tz=None):
     return dtlocalize(datetime.datetime.now(), tz)
 
 
+def local_timezone():
+    # The local timezone itself, rather than only its current UTC offset
+    now = dtnow()
+    if not isinstance(dateutil_tz, ImportError):
+        for tz in (dateutil_tz.gettz(), dateutil_tz.tzlocal()):
+            if tz is not None and dtlocalize(now, tz).utcoffset() == now.utcoffset():
+                return tz
+    return now.tzinfo
+
+
 def validate_environment_dict(env_in):
     env_out = {}
     for k in env_in:
-- 
2.43.0


From edb71cd0c5fc289d7d06a2379a07930e3177e24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:54 +0000
Subject: [PATCH 44/47] fix: read xz-compressed outputs of more than one stream
 in full

---
 dsari/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index 25cdc93..8a77043 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -191,9 +191,7 @@ def read_output(filename):
     elif (not isinstance(lzma, ImportError)) and os.path.isfile(
         "{}.xz".format(filename)
     ):
-        with open("{}.xz".format(filename), "rb") as f:
-            return lzma.LZMADecompressor().decompress(f.read()).decode(
-                "utf-8", "replace"
-            )
+        with lzma.open("{}.xz".format(filename), "rb") as f:
+            return f.read().decode("utf-8", "replace")
     else:
         return None
-- 
2.43.0


From fb7d4c16ae9b882e85ae30d498347883fba225ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:54 +0000
Subject: [PATCH 45/47] fix: fit tables to the terminal they are written to,
 not to standard input's

---
 dsari/info.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dsari/info.py b/dsari/info.py
index 7f153a4..1163ee2 100644
--- a/dsari/info.py
+++ b/dsari/info.py
@@ -259,9 +259,7 @@ class Info:
         columns = 1000
         if sys.stdout.isatty():
             try:
-                columns = int(
-                    subprocess.check_output(["stty", "size"]).decode().split()[1]
-                )
+                columns = os.get_terminal_size(sys.stdout.fileno()).columns
             except Exception:
                 pass
         try:
-- 
2.43.0


From 96bba5d3a7b601d131ab26a79f1dd8331532087b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:20 +0000
Subject: [PATCH 46/47] fix: MySQL took run IDs which differ in case only for
 the same

---
 dsari/database.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsari/database.py b/dsari/database.py
index 4de5fe4..ccb31f8 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -465,7 +465,8 @@ class MySQLDatabase(BaseSQLDatabase):
                 CREATE TABLE runs (
                     job_name varchar(255)
                         CHARACTER SET utf8mb4 COLLATE utf8mb4_bin NOT NULL,
-                    run_id char(36) PRIMARY KEY,
+                    run_id char(36)
+                        CHARACTER SET utf8mb4 COLLATE utf8mb4_bin PRIMARY KEY,
                     schedule_time datetime(6) NOT NULL,
                     start_time datetime(6) NOT NULL,
                     stop_time datetime(6) NOT NULL,
@@ -500,7 +501,8 @@ class MySQLDatabase(BaseSQLDatabase):
                 CREATE TABLE runs_running (
                     job_name varchar(255)
                         CHARACTER SET utf8mb4 COLLATE utf8mb4_bin NOT NULL,
-                    run_id char(36) PRIMARY KEY,
+                    run_id char(36)
+                        CHARACTER SET utf8mb4 COLLATE utf8mb4_bin PRIMARY KEY,
                     schedule_time datetime(6) NOT NULL,
                     start_time datetime(6) NOT NULL,
                     trigger_type varchar(127) NOT NULL,
-- 
2.43.0


From 081a3c11a2a60d63ba41a354b65c5174271a5c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:22 +0000
Subject: [PATCH 47/47] fix: run without croniter and dateutil, for manual
 triggers only

---
 dsari/config.py |  5 ++++-
 dsari/daemon.py | 14 +++++++++-----
 dsari/info.py   | 17 ++++++++++-------
 dsari/utils.py  |  6 ++++++
 4 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/dsari/config.py b/dsari/config.py
index 4d28059..932546c 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -234,7 +234,7 @@ class ConfigLoader:
             "concurrent_runs": (bool,),
         }
         value_transforms = {
-            "schedule_timezone": utils.dateutil_tz.gettz,
+            "schedule_timezone": utils.get_timezone,
             "max_execution": utils.seconds_to_td,
             "max_execution_grace": utils.seconds_to_td,
             "environment": lambda x: utils.validate_environment_dict(copy.deepcopy(x)),
@@ -254,6 +254,9 @@ class ConfigLoader:
         if job.schedule is not None:
             try:
                 utils.get_next_schedule_time(job.schedule, job.name)
+            except ImportError:
+                # Schedule cannot be used, manual triggers only
+                pass
             except Exception as e:
                 raise ConfigError(
                     "Job {}: Invalid schedule ({}): {}: {}".format(
diff --git a/dsari/daemon.py b/dsari/daemon.py
index f926e2f..14601ac 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -282,11 +282,15 @@ class Scheduler:
                     "[{}] No schedule defined, manual triggers only".format(job.name)
                 )
                 continue
-            t = get_next_schedule_time(
-                job.schedule,
-                job.name,
-                start_time=dtlocalize(now, job.schedule_timezone),
-            )
+            try:
+                t = get_next_schedule_time(
+                    job.schedule,
+                    job.name,
+                    start_time=dtlocalize(now, job.schedule_timezone),
+                )
+            except ImportError as e:
+                self.logger.warning("[{}] {}".format(job.name, str(e)))
+                continue
             if t is None:
                 self.logger.debug(
                     "[{}] Schedule {} does not produce a future run, skipping".format(
diff --git a/dsari/info.py b/dsari/info.py
index 1163ee2..f74ac6f 100644
--- a/dsari/info.py
+++ b/dsari/info.py
@@ -304,18 +304,21 @@ class Info:
         for job in self.config.jobs.values():
             if filter is not None and job.name not in filter:
                 continue
+            next_scheduled_run = None
+            if job.schedule:
+                try:
+                    next_scheduled_run = get_next_schedule_time(
+                        job.schedule, job.name, start_time=dtnow(job.schedule_timezone)
+                    )
+                except ImportError:
+                    # Schedule cannot be used, manual triggers only
+                    pass
             jobs[job.name] = {
                 "command": job.command,
                 "command_append_run": job.command_append_run,
                 "schedule": job.schedule,
                 "schedule_timezone": job.schedule_timezone_name,
-                "next_scheduled_run": (
-                    get_next_schedule_time(
-                        job.schedule, job.name, start_time=dtnow(job.schedule_timezone)
-                    )
-                    if job.schedule
-                    else None
-                ),
+                "next_scheduled_run": next_scheduled_run,
                 "environment": job.environment,
                 "max_execution": job.max_execution,
                 "max_execution_grace": job.max_execution_grace,
diff --git a/dsari/utils.py b/dsari/utils.py
index 8a77043..3b75d51 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -109,6 +109,12 @@ def local_timezone():
     return now.tzinfo
 
 
+def get_timezone(name):
+    if isinstance(dateutil_tz, ImportError):
+        return local_timezone()
+    return dateutil_tz.gettz(name)
+
+
 def validate_environment_dict(env_in):
     env_out = {}
     for k in env_in:
-- 
2.43.0

