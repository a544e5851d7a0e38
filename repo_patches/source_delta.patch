From 327f96c6618050030d08c5365c09ea4d11387ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 01/30] fix: do not count the core dump flag in a run's exit
 code

The low byte of a wait status is the terminating signal plus 0x80 when a
core was dumped; a dumping SIGSEGV was recorded as 267 instead of 139.
---
 dsari/daemon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 1f40463..64a4684 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -44,7 +44,7 @@ __version__ = dsari.__version__
 def wait_deadline(pid, options, deadline, interval=0.05):
     while True:
         (child_pid, child_exit, child_resource) = os.wait4(pid, options)
-        child_signal = child_exit % 256
+        child_signal = child_exit & 0x7F
         if child_signal > 0:
             child_exit = 128 + child_signal
         else:
-- 
2.43.0


From 403d2268c4ee845ab785179ba912da615fcd3f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 02/30] fix: reject job and group names ending in a newline

'$' also matches before a trailing newline.
---
 dsari/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsari/config.py b/dsari/config.py
index bc56e8b..7f45348 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -80,7 +80,7 @@ class ConfigLoader:
             return False
         if len(job_name) > 64:
             return False
-        if not re.search("^([- A-Za-z0-9_+.:@]+)$", job_name):
+        if not re.search(r"^([- A-Za-z0-9_+.:@]+)\Z", job_name):
             return False
         return True
 
-- 
2.43.0


From ebdf9241c5787ead4da6963bad7607400e71b20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 03/30] fix: make template_dir usable

jinja2.ChoiceLoader takes a list of loaders; dsari-render failed with a
TypeError whenever template_dir was set.
---
 dsari/render.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsari/render.py b/dsari/render.py
index 79727f7..6433649 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -94,8 +94,10 @@ class Renderer:
 
         if self.config.template_dir:
             loader = jinja2.ChoiceLoader(
-                jinja2.FileSystemLoader(self.config.template_dir),
-                jinja2.PackageLoader("dsari"),
+                [
+                    jinja2.FileSystemLoader(self.config.template_dir),
+                    jinja2.PackageLoader("dsari"),
+                ]
             )
         else:
             loader = jinja2.PackageLoader("dsari")
-- 
2.43.0


From e83f6ede962f8df0eae0e82464557ace80957f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 04/30] fix: read run output which is not valid UTF-8

A run may write any bytes (or a character may be cut off while the run is
in progress); dsari-render and dsari-info failed on such output.
---
 dsari/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index d1d9d90..6c55daf 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -153,14 +153,14 @@ def json_pretty_print(v):
 def read_output(filename):
     if os.path.isfile(filename):
         with open(filename, "rb") as f:
-            return f.read().decode("utf-8")
+            return f.read().decode("utf-8", "replace")
     elif os.path.isfile("{}.gz".format(filename)):
         with gzip.open("{}.gz".format(filename), "rb") as f:
-            return f.read().decode("utf-8")
+            return f.read().decode("utf-8", "replace")
     elif (not isinstance(lzma, ImportError)) and os.path.isfile(
         "{}.xz".format(filename)
     ):
         with open("{}.xz".format(filename), "rb") as f:
-            return lzma.LZMADecompressor().decompress(f.read()).decode("utf-8")
+            return lzma.LZMADecompressor().decompress(f.read()).decode("utf-8", "replace")
     else:
         return None
-- 
2.43.0


From 5fcb381683233e6672334a80677ee2c4ce6cf829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 05/30] fix: keep hashed cron positions within their range

H(0-0) hashed over the whole field, H/15 could hash to 15 (so a quarter
of an hour was skipped every hour), and H(0-5)/10 could start beyond 5.
---
 dsari/croniter_hash.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/dsari/croniter_hash.py b/dsari/croniter_hash.py
index a4ea118..f116bc6 100644
--- a/dsari/croniter_hash.py
+++ b/dsari/croniter_hash.py
@@ -30,7 +30,7 @@ class croniter_hash(croniter.croniter):
         return super(croniter_hash, self).__init__(expr_format, *args, **kwargs)
 
     def _hash_do(self, id, position, range_end=None, range_begin=None, hash_type="H"):
-        if not range_end:
+        if range_end is None:
             range_end = self.RANGES[position][1]
         if not range_begin:
             range_begin = self.RANGES[position][0]
@@ -75,8 +75,13 @@ class croniter_hash(croniter.croniter):
         m = re.match(r"^(H|R)\((\d+)-(\d+)\)\/(\d+)$", item)
         if m:
             return "{}-{}/{}".format(
-                self._hash_do(id, idx, int(m.group(4)), hash_type=m.group(1))
-                + int(m.group(2)),
+                self._hash_do(
+                    id,
+                    idx,
+                    min(int(m.group(2)) + int(m.group(4)) - 1, int(m.group(3))),
+                    int(m.group(2)),
+                    hash_type=m.group(1),
+                ),
                 int(m.group(3)),
                 int(m.group(4)),
             )
@@ -94,7 +99,14 @@ class croniter_hash(croniter.croniter):
         m = re.match(r"^(H|R)\/(\d+)$", item)
         if m:
             return "{}-{}/{}".format(
-                self._hash_do(id, idx, int(m.group(2)), hash_type=m.group(1)),
+                self._hash_do(
+                    id,
+                    idx,
+                    min(
+                        self.RANGES[idx][0] + int(m.group(2)) - 1, self.RANGES[idx][1]
+                    ),
+                    hash_type=m.group(1),
+                ),
                 self.RANGES[idx][1],
                 int(m.group(2)),
             )
-- 
2.43.0


From 91e13ccabfbe925520b88d513721a413ee4dead4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 06/30] fix: return the converted time when a timezone name is
 given

dtlocalize() returned None for named timezones, so a trigger with
schedule_timezone stopped the daemon.
---
 dsari/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index 6c55daf..22a5fbd 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -87,7 +87,7 @@ def dtlocalize(dt, tz=None):
         if isinstance(tz, datetime.tzinfo):
             return dt.astimezone(tz)
         elif not isinstance(dateutil_tz, ImportError):
-            dt.astimezone(dateutil_tz.gettz(tz))
+            return dt.astimezone(dateutil_tz.gettz(tz))
         else:
             return dt.astimezone()
     else:
-- 
2.43.0


From da0eab7d487d3399e2cd641ca9ba62913dfa66ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 07/30] fix: read every stream of xz-compressed run output

LZMADecompressor stops at the end of the first stream.
---
 dsari/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index 22a5fbd..2d4bdfa 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -161,6 +161,6 @@ def read_output(filename):
         "{}.xz".format(filename)
     ):
         with open("{}.xz".format(filename), "rb") as f:
-            return lzma.LZMADecompressor().decompress(f.read()).decode("utf-8", "replace")
+            return lzma.decompress(f.read()).decode("utf-8", "replace")
     else:
         return None
-- 
2.43.0


From 481e54b65677f90b974d868becf99cd3c1010c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 08/30] fix: do not stop the daemon on a malformed trigger file

Python 3 exceptions have no message attribute, and YAML errors are not
ValueErrors, so an unparseable trigger ended dsari-daemon.
---
 dsari/daemon.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 64a4684..8ca937f 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -554,10 +554,8 @@ class Scheduler:
             # Likely during os.remove()
             # Return silently, otherwise we spam the log during each loop
             return
-        except ValueError as e:
-            self.logger.error(
-                "[{}] Cannot load trigger: {}".format(job.name, e.message)
-            )
+        except Exception as e:
+            self.logger.error("[{}] Cannot load trigger: {}".format(job.name, str(e)))
             return
         if type(j) != dict:
             self.logger.error(
-- 
2.43.0


From 6f6f4bfc125429077e874be0b65f5ecb10136518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 09/30] fix: reject triggers whose schedule time cannot be
 used, honor their timezone

An out-of-range or non-string schedule_time or an unusable
schedule_timezone ended dsari-daemon; an ISO 8601 time was taken as local
time even if schedule_timezone named another zone.
---
 dsari/daemon.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 8ca937f..fe527f0 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -25,6 +25,11 @@ try:
 except ImportError as e:
     dateutil_parser = e
 
+try:
+    import dateutil.tz as dateutil_tz
+except ImportError as e:
+    dateutil_tz = e
+
 import dsari
 import dsari.config
 import dsari.database
@@ -570,11 +575,24 @@ class Scheduler:
 
         if "schedule_time" in j:
             if type(j["schedule_time"]) in (int, float):
-                t = epoch_to_dt(float(j["schedule_time"]))
+                try:
+                    t = epoch_to_dt(float(j["schedule_time"]))
+                except Exception:
+                    self.logger.error(
+                        '[{}] Invalid schedule_time "{}" for trigger'.format(
+                            job.name, j["schedule_time"]
+                        )
+                    )
+                    return
             elif not isinstance(dateutil_parser, ImportError):
                 try:
-                    t = dateutil_parser.parse(j["schedule_time"])
-                except ValueError:
+                    # YAML may already have made a date or datetime of it
+                    t = dateutil_parser.parse(str(j["schedule_time"]))
+                    if t.tzinfo is None and j.get("schedule_timezone"):
+                        t = t.replace(
+                            tzinfo=dateutil_tz.gettz(j["schedule_timezone"])
+                        )
+                except Exception:
                     self.logger.error(
                         '[{}] Invalid schedule_time "{}" for trigger'.format(
                             job.name, j["schedule_time"]
@@ -588,7 +606,11 @@ class Scheduler:
                     )
                 )
                 return
-        t = dtlocalize(t, j.get("schedule_timezone"))
+        try:
+            t = dtlocalize(t, j.get("schedule_timezone"))
+        except Exception as e:
+            self.logger.error("[{}] Cannot load trigger: {}".format(job.name, str(e)))
+            return
 
         if "environment" in j:
             try:
-- 
2.43.0


From fa6434da3ec96e5477e4fdfd89747a54b7c6e719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 10/30] fix: do not stop the daemon when a trigger file
 vanishes

The file may be withdrawn between the check for it and reading its mtime.
---
 dsari/daemon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index fe527f0..bc882d8 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -546,8 +546,8 @@ class Scheduler:
             break
         if trigger_file is None:
             return
-        t = dtlocalize(epoch_to_dt(os.path.getmtime(trigger_file)))
         try:
+            t = dtlocalize(epoch_to_dt(os.path.getmtime(trigger_file)))
             j = load_structured_file(
                 trigger_file, file_type=trigger_file_type, delete_during=True
             )
-- 
2.43.0


From e2d4e1d71dd988cb28fbc7aafc2894d1d07a529b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 11/30] fix: record trigger and return data which is YAML but
 not JSON

A YAML timestamp in a trigger or in return_data.yaml could not be stored as
JSON and ended the daemon, losing the outcome of the run. Store such values
as strings, and ignore data which cannot be stored at all.
---
 dsari/daemon.py   | 13 ++++++++++++-
 dsari/database.py |  4 ++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index bc882d8..74339bb 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -6,6 +6,7 @@
 
 import argparse
 import copy
+import json
 import logging
 import math
 import os
@@ -514,9 +515,12 @@ class Scheduler:
             break
         if return_data_file is not None:
             try:
-                run.run_data["return_data"] = load_structured_file(
+                return_data = load_structured_file(
                     return_data_file, file_type=return_data_file_type
                 )
+                # Make sure it can be recorded
+                json.dumps(return_data, default=str)
+                run.run_data["return_data"] = return_data
             except Exception:
                 pass
 
@@ -623,6 +627,13 @@ class Scheduler:
                 )
                 return
 
+        try:
+            # Make sure it can be recorded
+            json.dumps(j, default=str)
+        except Exception as e:
+            self.logger.error("[{}] Cannot load trigger: {}".format(job.name, str(e)))
+            return
+
         run = dsari.Run(job)
         run.respawn = False
         run.trigger_type = "file"
diff --git a/dsari/database.py b/dsari/database.py
index 4773ae9..39321b1 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -67,7 +67,7 @@ class BaseSQLDatabase(BaseDatabase):
         out = []
         for (k, v) in pairs:
             if k in ("trigger_data", "run_data"):
-                out.append(json.dumps(v))
+                out.append(json.dumps(v, default=str))
             else:
                 out.append(v)
         return out
@@ -572,7 +572,7 @@ class SQLite3Database(BaseSQLDatabase):
             if k in ("schedule_time", "start_time", "stop_time"):
                 out.append(dt_to_epoch(v))
             elif k in ("trigger_data", "run_data"):
-                out.append(json.dumps(v))
+                out.append(json.dumps(v, default=str))
             else:
                 out.append(v)
         return out
-- 
2.43.0


From 0c23291b4de9ffd4b88c2b46c1841fde69600cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 12/30] fix: reject commands with non-string arguments

'command: [sleep, 90]' was accepted, and the daemon then died with a
TypeError just after starting the first run.
---
 dsari/config.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsari/config.py b/dsari/config.py
index 7f45348..d882429 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -239,6 +239,10 @@ class ConfigLoader:
             raise ConfigError("Job {}: command required".format(job_name))
         if type(job_dict["command"]) == str:
             job_dict["command"] = shlex.split(job_dict["command"])
+        if type(job_dict["command"]) == list and not all(
+            type(arg) == str for arg in job_dict["command"]
+        ):
+            raise ConfigError("Job {}: command must be strings".format(job_name))
         job = dsari.Job(job_name)
         self.populate_object(
             job, "Job {}".format(job_name), job_dict, valid_values, value_transforms
-- 
2.43.0


From 9ebeef425269f8037755d665563615e855d26664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 13/30] fix: accept empty configuration files

A YAML file which is empty or all comments replaced everything merged so far
by None. Refuse files which hold anything other than a dict.
---
 dsari/config.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/dsari/config.py b/dsari/config.py
index d882429..32527fd 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -84,19 +84,23 @@ class ConfigLoader:
             return False
         return True
 
+    def merge_file(self, config, file, file_type):
+        try:
+            file_config = utils.load_structured_file(file, file_type=file_type)
+        except (ValueError, ImportError) as e:
+            raise ConfigError(e)
+        if file_config is None:
+            # An empty YAML file, or one of comments only
+            file_config = {}
+        if type(file_config) != dict:
+            raise ConfigError("{}: Configuration must be a dict".format(file))
+        return utils.dict_merge(config, file_config)
+
     def load_dir(self, config_dir=DEFAULT_CONFIG_DIR):
         config = {}
         for fn, fn_type in [("dsari.yaml", "yaml"), ("dsari.json", "json")]:
             if os.path.exists(os.path.join(config_dir, fn)):
-                try:
-                    config = utils.dict_merge(
-                        config,
-                        utils.load_structured_file(
-                            os.path.join(config_dir, fn), file_type=fn_type
-                        ),
-                    )
-                except (ValueError, ImportError) as e:
-                    raise ConfigError(e)
+                config = self.merge_file(config, os.path.join(config_dir, fn), fn_type)
         self.config.config_d = os.path.join(config_dir, "config.d")
         if "config_d" in config:
             self.config.config_d = config["config_d"]
@@ -113,12 +117,7 @@ class ConfigLoader:
                 ]
                 config_files.sort()
                 for file in config_files:
-                    try:
-                        config = utils.dict_merge(
-                            config, utils.load_structured_file(file, file_type=fn_type)
-                        )
-                    except (ValueError, ImportError) as e:
-                        raise ConfigError(e)
+                    config = self.merge_file(config, file, fn_type)
 
         self.load(config)
 
-- 
2.43.0


From 0b7c6131f11581285978440e982636e12ecddd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 14/30] fix: act on signals while waiting for a running run

Signal handlers move next_wakeup, but the wait had its own copy of it: with
a run in progress, a reload, a trigger announced by SIGUSR1 or the SIGKILL
after shutdown_kill_grace were up to a minute late.
---
 dsari/daemon.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 74339bb..223221e 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -57,7 +57,8 @@ def wait_deadline(pid, options, deadline, interval=0.05):
             child_exit = child_exit >> 8
         if child_pid != 0:
             return (child_pid, child_exit, child_resource)
-        if dtnow() >= deadline:
+        # The deadline may be moved up by a signal handler while waiting
+        if dtnow() >= deadline():
             return (child_pid, child_exit, child_resource)
         time.sleep(interval)
 
@@ -478,7 +479,7 @@ class Scheduler:
             "Waiting up to {} for running jobs".format(self.next_wakeup - dtnow())
         )
         (child_pid, child_exit, child_resource) = wait_deadline(
-            -1, os.WNOHANG, self.next_wakeup
+            -1, os.WNOHANG, lambda: self.next_wakeup
         )
         if child_pid == 0:
             return child_pid
-- 
2.43.0


From 0e3c783ff9d3207805f174e8cd046d2dccfe50c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 15/30] fix: handle signals between scheduling steps

The handlers changed the lists of jobs and runs at arbitrary points. A
shutdown or reload signalled while a run was being started ended the daemon
with a ValueError, leaving the new run behind; one signalled just after a
run was reaped ended it with a ProcessLookupError.
---
 dsari/daemon.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 223221e..135df80 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -132,6 +132,7 @@ class Scheduler:
 
         self.wakeups = []
         self.next_wakeup = dtnow() + seconds_to_td(60.0)
+        self.pending_signals = []
 
         self.db = dsari.database.get_database(self.config)
         self.logger.debug("Database in use: {}".format(repr(self.db)))
@@ -193,7 +194,16 @@ class Scheduler:
             run.kill_sent = True
 
     def signal_handler(self, signum, frame):
+        # Jobs and runs may be half way through an update here, so only note
+        # the signal and wake up the loop
+        self.pending_signals.append(signum)
         self.next_wakeup = dtnow()
+
+    def process_signals(self):
+        while len(self.pending_signals) > 0:
+            self.process_signal(self.pending_signals.pop(0))
+
+    def process_signal(self, signum):
         if signum in (signal.SIGINT, signal.SIGTERM):
             if signum == signal.SIGINT:
                 self.logger.info("SIGINT received, beginning shutdown")
@@ -766,10 +776,13 @@ class Scheduler:
         for wakeup in self.wakeups:
             if wakeup < self.next_wakeup:
                 self.next_wakeup = wakeup
+        if len(self.pending_signals) > 0:
+            self.next_wakeup = dtnow()
 
     def loop(self):
         while True:
             self.wakeups = []
+            self.process_signals()
             self.process_triggers()
 
             scheduled_runs = copy.copy(self.scheduled_runs)
-- 
2.43.0


From e17a6563215d44a9e67392e08412c20d0c9979a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 16/30] fix: keep running when a reloaded configuration is
 invalid

The daemon ended, leaving its running runs unrecorded.
---
 dsari/daemon.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 135df80..bbc3a6e 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -212,7 +212,13 @@ class Scheduler:
             self.begin_shutdown()
         elif signum == signal.SIGHUP:
             self.logger.info("SIGHUP received, reloading")
-            self.load_config()
+            try:
+                self.load_config()
+            except Exception as e:
+                self.logger.error(
+                    "Cannot reload, keeping current configuration: {}".format(str(e))
+                )
+                return
             self.reset_jobs()
         elif signum == signal.SIGQUIT:
             self.sigquit_status()
-- 
2.43.0


From 5a9471049ff6a46b09f0e788cad7e98d10f48122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 17/30] fix: send SIGTERM before SIGKILL, and SIGKILL when it
 is due

A run already past its limit and grace period when it was looked at (a
grace period of 0, a lowered limit, a suspended daemon) was killed without a
SIGTERM.  The wakeup for the SIGKILL was counted from each look at the run
rather than from the SIGTERM, so it could be late by the grace period.
---
 dsari/daemon.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index bbc3a6e..79deba5 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -170,6 +170,7 @@ class Scheduler:
                 )
                 os.kill(run.pid, signal.SIGTERM)
                 run.term_sent = True
+                run.term_time = self.shutdown_begin
         elif len(self.running_runs) > 0:
             self.logger.info("Shutdown will proceed after runs have completed")
 
@@ -332,7 +333,11 @@ class Scheduler:
         sigkill_grace = seconds_to_td(5.0)
         now = dtnow()
         delta = now - run.start_time
-        if delta > (job.max_execution + sigterm_grace):
+        if (
+            delta > (job.max_execution + sigterm_grace)
+            and run.term_sent
+            and now > (run.term_time + sigterm_grace)
+        ):
             if not run.kill_sent:
                 self.logger.warning(
                     "[{} {}] SIGTERM grace ({}) exceeded, sending SIGKILL to {}".format(
@@ -351,7 +356,10 @@ class Scheduler:
                 )
                 os.kill(run.pid, signal.SIGTERM)
                 run.term_sent = True
-            self.wakeups.append(now + sigterm_grace)
+                run.term_time = now
+            self.wakeups.append(
+                max(run.start_time + job.max_execution, run.term_time) + sigterm_grace
+            )
         else:
             self.wakeups.append(run.start_time + job.max_execution)
 
-- 
2.43.0


From a7be69aabab654a515e221bff81123c591136c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 18/30] fix: keep a run's execution limits across a reload

dsari-daemon(1): if a job's configuration changes while a run is in
progress, its changes will take effect once the run is complete.
---
 dsari/daemon.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 79deba5..719f10c 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -327,14 +327,14 @@ class Scheduler:
 
     def process_run_execution_time(self, run):
         job = run.job
-        if not job.max_execution:
+        if not run.max_execution:
             return
-        sigterm_grace = job.max_execution_grace
+        sigterm_grace = run.max_execution_grace
         sigkill_grace = seconds_to_td(5.0)
         now = dtnow()
         delta = now - run.start_time
         if (
-            delta > (job.max_execution + sigterm_grace)
+            delta > (run.max_execution + sigterm_grace)
             and run.term_sent
             and now > (run.term_time + sigterm_grace)
         ):
@@ -347,21 +347,21 @@ class Scheduler:
                 os.kill(run.pid, signal.SIGKILL)
                 run.kill_sent = True
             self.wakeups.append(now + sigkill_grace)
-        elif delta > job.max_execution:
+        elif delta > run.max_execution:
             if not run.term_sent:
                 self.logger.warning(
                     "[{} {}] Max execution ({}) exceeded, sending SIGTERM to {}".format(
-                        job.name, run.id, job.max_execution, run.pid
+                        job.name, run.id, run.max_execution, run.pid
                     )
                 )
                 os.kill(run.pid, signal.SIGTERM)
                 run.term_sent = True
                 run.term_time = now
             self.wakeups.append(
-                max(run.start_time + job.max_execution, run.term_time) + sigterm_grace
+                max(run.start_time + run.max_execution, run.term_time) + sigterm_grace
             )
         else:
-            self.wakeups.append(run.start_time + job.max_execution)
+            self.wakeups.append(run.start_time + run.max_execution)
 
     def run_child_executor(self, run):
         # Reset all handled signals to default
@@ -742,6 +742,9 @@ class Scheduler:
             os.makedirs(os.path.join(self.config.data_dir, "runs", job.name, run.id))
 
         run.start_time = now
+        # A reload does not change the limits of a run in progress
+        run.max_execution = job.max_execution
+        run.max_execution_grace = job.max_execution_grace
         run.term_sent = False
         run.kill_sent = False
 
-- 
2.43.0


From 678513f9ceedcd8b2720c70e80970ecefe525f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 19/30] fix: accept a local UNTIL time in RRULE schedules

The daemon passes a timezone-aware start time, with which dateutil insists
on UNTIL in UTC: a schedule with the documented local UNTIL passed the
configuration check and then stopped the daemon.
---
 dsari/utils.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index 2d4bdfa..c8b6b1b 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -10,6 +10,7 @@ import datetime
 import gzip
 import json
 import os
+import re
 
 try:
     import dateutil.rrule as dateutil_rrule
@@ -120,7 +121,7 @@ def validate_environment_dict(env_in):
 
 def get_next_schedule_time(schedule, job_name, start_time=None):
     if start_time is None:
-        start_time = datetime.datetime.now()
+        start_time = dtnow()
     crc = binascii.crc32(job_name.encode("utf-8")) & 0xFFFFFFFF
     subsecond_offset = seconds_to_td(float(crc) / float(0xFFFFFFFF))
     if schedule.upper().startswith("RRULE:"):
@@ -129,6 +130,18 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
         hashed_epoch = start_time - seconds_to_td(
             ((dt_to_epoch(start_time) - crc) % 86400)
         )
+        if start_time.tzinfo is not None:
+            # dateutil requires UTC here, a local time is in the job's timezone
+            schedule = re.sub(
+                r"(?<=UNTIL=)(\d{8})(T\d{6})?(?=;|\s|$)",
+                lambda m: datetime.datetime.strptime(
+                    m.group(1) + (m.group(2) or "T000000"), "%Y%m%dT%H%M%S"
+                )
+                .replace(tzinfo=start_time.tzinfo)
+                .astimezone(datetime.timezone.utc)
+                .strftime("%Y%m%dT%H%M%SZ"),
+                schedule.upper(),
+            )
         t = dateutil_rrule.rrulestr(schedule, dtstart=hashed_epoch).after(start_time)
         if t is not None:
             t = t + subsecond_offset
-- 
2.43.0


From 6d2db5629220306f19e3b16bca30b00fbe30052a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 20/30] fix: report the latest run as a job's last run

The database returns runs in no particular order.
---
 dsari/render.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dsari/render.py b/dsari/render.py
index 6433649..383455d 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -145,8 +145,13 @@ class Renderer:
         job = run.job
         self.job_runs[job.name].append(run)
         self.runs.append(run)
-        job.last_run = run
-        if run.exit_code == 0:
+        # Runs come in no particular order
+        if job.last_run is None or run.stop_time >= job.last_run.stop_time:
+            job.last_run = run
+        if run.exit_code == 0 and (
+            job.last_successful_run is None
+            or run.stop_time >= job.last_successful_run.stop_time
+        ):
             job.last_successful_run = run
         run_html_filename = os.path.join(
             self.config.data_dir, "html", job.name, run.id, "index.html"
-- 
2.43.0


From 78e9be82ad3b287a9c273f6cfd6de937672ceb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 21/30] fix: do not crash on a run whose output is gone

---
 dsari/info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsari/info.py b/dsari/info.py
index eeaf0a7..e2cc737 100644
--- a/dsari/info.py
+++ b/dsari/info.py
@@ -544,7 +544,7 @@ class Info:
             self.config.data_dir, "runs", run.job.name, run.id, "output.txt"
         )
         with AutoPager() as pager:
-            pager.write(dsari.utils.read_output(fn))
+            pager.write(dsari.utils.read_output(fn) or "")
 
     def cmd_tail_run_output(self):
         while True:
-- 
2.43.0


From 130384612e2199f9c0c924aa4e9fe7802b5e8f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 22/30] fix: wake up for the next run of a job just started

The successor of a recurring run is queued during the pass over the pending
runs and was not considered for the next wake-up, so it could start up to a
minute late while another run was in progress.
---
 dsari/daemon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 719f10c..6907d12 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -782,6 +782,7 @@ class Scheduler:
             run.trigger_type = "schedule"
             run.schedule_time = t
             self.scheduled_runs.append(run)
+            self.wakeups.append(t)
             self.logger.debug(
                 "[{} {}] Next scheduled run: {} ({})".format(
                     job.name, run.id, t, (t - now)
-- 
2.43.0


From e4240b97fa4982802caa0fb49b08d9b9696633da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:09 +0000
Subject: [PATCH 23/30] fix: a reload during shutdown changed the kill grace
 and data directory of the shutdown in progress

---
 dsari/daemon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 6907d12..30f8957 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -211,6 +211,8 @@ class Scheduler:
             elif signum == signal.SIGTERM:
                 self.logger.info("SIGTERM received, beginning shutdown")
             self.begin_shutdown()
+        elif signum == signal.SIGHUP and self.shutdown:
+            self.logger.info("SIGHUP received, not reloading during shutdown")
         elif signum == signal.SIGHUP:
             self.logger.info("SIGHUP received, reloading")
             try:
-- 
2.43.0


From 7f835002f3b08e3a44abb649e8cc3a8912599f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:55 +0000
Subject: [PATCH 24/30] fix: an unknown timezone named by a trigger is an
 error, not local time

---
 dsari/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index c8b6b1b..28e1a2b 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -88,7 +88,10 @@ def dtlocalize(dt, tz=None):
         if isinstance(tz, datetime.tzinfo):
             return dt.astimezone(tz)
         elif not isinstance(dateutil_tz, ImportError):
-            return dt.astimezone(dateutil_tz.gettz(tz))
+            tzinfo = dateutil_tz.gettz(tz)
+            if tzinfo is None:
+                raise ValueError("Unknown timezone: {}".format(tz))
+            return dt.astimezone(tzinfo)
         else:
             return dt.astimezone()
     else:
-- 
2.43.0


From b2fdc31066a1ac9bf77edb9335f315cd7bcc711e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:57 +0000
Subject: [PATCH 25/30] fix: an unknown schedule_timezone is a configuration
 error, not local time

---
 dsari/config.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dsari/config.py b/dsari/config.py
index 32527fd..de8ff30 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -84,6 +84,12 @@ class ConfigLoader:
             return False
         return True
 
+    def get_timezone(self, name):
+        tz = utils.dateutil_tz.gettz(name)
+        if tz is None:
+            raise ValueError("Unknown timezone: {}".format(name))
+        return tz
+
     def merge_file(self, config, file, file_type):
         try:
             file_config = utils.load_structured_file(file, file_type=file_type)
@@ -226,7 +232,7 @@ class ConfigLoader:
             "concurrent_runs": (bool,),
         }
         value_transforms = {
-            "schedule_timezone": utils.dateutil_tz.gettz,
+            "schedule_timezone": self.get_timezone,
             "max_execution": utils.seconds_to_td,
             "max_execution_grace": utils.seconds_to_td,
             "environment": lambda x: utils.validate_environment_dict(copy.deepcopy(x)),
-- 
2.43.0


From 7f7a456b26284070e13a008440eeed0ae271a858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:20 +0000
Subject: [PATCH 26/30] fix: report malformed configurations of every kind as
 configuration errors

---
 dsari/config.py | 53 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 9 deletions(-)

diff --git a/dsari/config.py b/dsari/config.py
index de8ff30..b372106 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -74,6 +74,8 @@ class ConfigLoader:
         self.config = config
 
     def is_valid_name(self, job_name):
+        if type(job_name) != str:
+            return False
         if "/" in job_name:
             return False
         if job_name in (".", ".."):
@@ -84,6 +86,14 @@ class ConfigLoader:
             return False
         return True
 
+    def check_type(self, level, value, valid_type):
+        if type(value) != valid_type:
+            raise ConfigError(
+                "{}: Invalid value {} (expected {})".format(
+                    level, repr(type(value)), repr(valid_type)
+                )
+            )
+
     def get_timezone(self, name):
         tz = utils.dateutil_tz.gettz(name)
         if tz is None:
@@ -93,8 +103,8 @@ class ConfigLoader:
     def merge_file(self, config, file, file_type):
         try:
             file_config = utils.load_structured_file(file, file_type=file_type)
-        except (ValueError, ImportError) as e:
-            raise ConfigError(e)
+        except Exception as e:
+            raise ConfigError("{}: {}".format(file, e))
         if file_config is None:
             # An empty YAML file, or one of comments only
             file_config = {}
@@ -109,6 +119,8 @@ class ConfigLoader:
                 config = self.merge_file(config, os.path.join(config_dir, fn), fn_type)
         self.config.config_d = os.path.join(config_dir, "config.d")
         if "config_d" in config:
+            if config["config_d"] is not None:
+                self.check_type("Config: config_d", config["config_d"], str)
             self.config.config_d = config["config_d"]
         if self.config.config_d and os.path.isdir(self.config.config_d):
             config_d = self.config.config_d
@@ -176,6 +188,7 @@ class ConfigLoader:
         valid_values = {"max": (int,)}
         value_transforms = {}
 
+        self.check_type("concurrency_groups", config["concurrency_groups"], dict)
         for concurrency_group_name, concurrency_group_dict in config[
             "concurrency_groups"
         ].items():
@@ -183,6 +196,11 @@ class ConfigLoader:
                 raise ConfigError(
                     "Concurrency group {}: Invalid name".format(concurrency_group_name)
                 )
+            self.check_type(
+                "Concurrency group {}".format(concurrency_group_name),
+                concurrency_group_dict,
+                dict,
+            )
             concurrency_group = dsari.ConcurrencyGroup(concurrency_group_name)
             self.populate_object(
                 concurrency_group,
@@ -197,19 +215,29 @@ class ConfigLoader:
         jobs = {}
         if "jobs" in config:
             jobs = config["jobs"]
+            self.check_type("jobs", jobs, dict)
         job_groups = {}
         if "job_groups" in config:
             job_groups = config["job_groups"]
+            self.check_type("job_groups", job_groups, dict)
 
         for job_group_name, job_group_dict in job_groups.items():
             if not self.is_valid_name(job_group_name):
                 raise ConfigError("Job group {}: Invalid name".format(job_group_name))
+            self.check_type("Job group {}".format(job_group_name), job_group_dict, dict)
             job_template = copy.deepcopy(job_group_dict)
             if "job_names" not in job_template:
                 raise ConfigError(
                     "Job group {}: job_names required".format(job_group_name)
                 )
+            self.check_type(
+                "Job group {}: job_names".format(job_group_name),
+                job_template["job_names"],
+                list,
+            )
             for job_name in job_template["job_names"]:
+                if not self.is_valid_name(job_name):
+                    raise ConfigError("Job {}: Invalid name".format(job_name))
                 jobs[job_name] = copy.deepcopy(job_template)
                 jobs[job_name]["job_group"] = job_group_name
                 del jobs[job_name]["job_names"]
@@ -240,10 +268,14 @@ class ConfigLoader:
 
         if not self.is_valid_name(job_name):
             raise ConfigError("Job {}: Invalid name".format(job_name))
+        self.check_type("Job {}".format(job_name), job_dict, dict)
         if "command" not in job_dict:
             raise ConfigError("Job {}: command required".format(job_name))
         if type(job_dict["command"]) == str:
-            job_dict["command"] = shlex.split(job_dict["command"])
+            try:
+                job_dict["command"] = shlex.split(job_dict["command"])
+            except ValueError as e:
+                raise ConfigError("Job {}: command: {}".format(job_name, str(e)))
         if type(job_dict["command"]) == list and not all(
             type(arg) == str for arg in job_dict["command"]
         ):
@@ -267,18 +299,21 @@ class ConfigLoader:
     def build_job_concurrency_groups(self, job, job_dict):
         if "concurrency_groups" not in job_dict:
             return
+        self.check_type(
+            "Job {}: concurrency_groups".format(job.name),
+            job_dict["concurrency_groups"],
+            list,
+        )
         for concurrency_group_name in job_dict["concurrency_groups"]:
+            if not self.is_valid_name(concurrency_group_name):
+                raise ConfigError(
+                    "Concurrency group {}: Invalid name".format(concurrency_group_name)
+                )
             if concurrency_group_name in self.config.concurrency_groups:
                 concurrency_group = self.config.concurrency_groups[
                     concurrency_group_name
                 ]
             else:
-                if not self.is_valid_name(concurrency_group_name):
-                    raise ConfigError(
-                        "Concurrency group {}: Invalid name".format(
-                            concurrency_group_name
-                        )
-                    )
                 concurrency_group = dsari.ConcurrencyGroup(concurrency_group_name)
                 self.config.concurrency_groups[
                     concurrency_group.name
-- 
2.43.0


From 704e421ac185e4e7bf3b151f7b0158f2548b7c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:20 +0000
Subject: [PATCH 27/30] fix: sqlite3 is the default type of a configured
 database, as documented

---
 dsari/database.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsari/database.py b/dsari/database.py
index 39321b1..8a76eb3 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -13,11 +13,12 @@ from dsari.utils import dt_to_epoch, epoch_to_dt
 
 
 def get_database(config):
-    if config.database["type"] == "postgresql":
+    database_type = config.database.get("type")
+    if database_type == "postgresql":
         return PostgreSQLDatabase(config)
-    elif config.database["type"] == "mysql":
+    elif database_type == "mysql":
         return MySQLDatabase(config)
-    elif config.database["type"] == "mongodb":
+    elif database_type == "mongodb":
         return MongoDBDatabase(config)
     else:
         return SQLite3Database(config)
-- 
2.43.0


From 2c3fda0b2c7030b8af913998d9e004d237bbb27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:34 +0000
Subject: [PATCH 28/30] fix: a cron schedule whose years are over has no next
 run instead of ending the daemon

---
 dsari/utils.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index 28e1a2b..f810cdd 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -153,13 +153,13 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
         raise ImportError("croniter not available, manual triggers only")
     if len(schedule.split(" ")) == 5:
         schedule = schedule + " H"
-    t = (
-        croniter_hash.croniter_hash(
-            schedule, start_time=start_time, hash_id=job_name
-        ).get_next(datetime.datetime)
-        + subsecond_offset
-    )
-    return t
+    c = croniter_hash.croniter_hash(schedule, start_time=start_time, hash_id=job_name)
+    try:
+        t = c.get_next(datetime.datetime)
+    except croniter_hash.croniter.CroniterBadDateError:
+        # The years given are over
+        return None
+    return t + subsecond_offset
 
 
 def json_pretty_print(v):
-- 
2.43.0


From efa58e040b7fff50adb2fccff03387a74ff7814b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:00 +0000
Subject: [PATCH 29/30] fix: a hashed step whose start is the end of its range
 means that one value

croniter takes a stepped range of a single value to be the whole field.
---
 dsari/croniter_hash.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dsari/croniter_hash.py b/dsari/croniter_hash.py
index f116bc6..e382192 100644
--- a/dsari/croniter_hash.py
+++ b/dsari/croniter_hash.py
@@ -66,6 +66,13 @@ class croniter_hash(croniter.croniter):
             expr_expanded.append(self._hash_expand_item(item, id, idx))
         return " ".join(expr_expanded)
 
+    def _hash_step(self, start, end, step):
+        # croniter takes a range of a single value (e.g. 59-59/10) to be
+        # the whole field
+        if start == end:
+            return str(start)
+        return "{}-{}/{}".format(start, end, step)
+
     def _hash_expand_item(self, item, id, idx):
         # Example: H -> 32
         if item in ("H", "R"):
@@ -74,7 +81,7 @@ class croniter_hash(croniter.croniter):
         # Example: H(30-59)/10 -> 34-59/10 (i.e. 34,44,54)
         m = re.match(r"^(H|R)\((\d+)-(\d+)\)\/(\d+)$", item)
         if m:
-            return "{}-{}/{}".format(
+            return self._hash_step(
                 self._hash_do(
                     id,
                     idx,
@@ -98,7 +105,7 @@ class croniter_hash(croniter.croniter):
         # Example: H/15 -> 7-59/15 (i.e. 7,22,37,52)
         m = re.match(r"^(H|R)\/(\d+)$", item)
         if m:
-            return "{}-{}/{}".format(
+            return self._hash_step(
                 self._hash_do(
                     id,
                     idx,
-- 
2.43.0


From cc83defff3e28e8237ab353baa1c624047001483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:01 +0000
Subject: [PATCH 30/30] fix: merging a list over a dict shares no part of the
 merged-in value

---
 dsari/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index f810cdd..8d1869e 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -41,7 +41,7 @@ except ImportError as e:
 def dict_merge(s, m):
     """Recursively merge one dict into another."""
     if not isinstance(m, dict):
-        return m
+        return copy.deepcopy(m)
     out = copy.deepcopy(s)
     for k, v in m.items():
         if k in out and isinstance(out[k], dict):
-- 
2.43.0

