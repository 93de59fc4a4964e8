From 3857e5250524b2790dfd89af9ff2a61195c75e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 01/29] fix: fork must not count a finished worker's EOF more
 than once

A worker that finished early reported EOF each time it was visited, so that fork stopped
before slower workers were drained, losing their output.
---
 marcel/op/forkmanager.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/marcel/op/forkmanager.py b/marcel/op/forkmanager.py
index 1ba4e30..53eedec 100644
--- a/marcel/op/forkmanager.py
+++ b/marcel/op/forkmanager.py
@@ -100,14 +100,11 @@ class ForkManager(object):
         for worker in self.workers:
             worker.start()
             dump(f'{self} started {worker}')
-        completed = 0
-        w = 0
-        while completed < len(self.workers):
-            more = self.workers[w].consume_input()
-            if not more:
-                completed += 1
-            w = (w + 1) % len(self.workers)
-            dump(f'completed: {completed}')
+        # Visit the workers in turn. A worker that has reached EOF must not be visited again: it would report EOF again.
+        active = list(self.workers)
+        while len(active) > 0:
+            active = [worker for worker in active if worker.consume_input()]
+            dump(f'active: {len(active)}')
         for worker in self.workers:
             worker.close()
 
-- 
2.43.0


From 01f13371ede468af44fe8eca2aef878221b8f8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 02/29] fix: death of a fork worker must not affect the other
 workers

A worker dying while sending raises OSError in the parent, which ended the whole command. And under the
fork start method, the writer of each worker's pipe was inherited by the other workers, so the parent could
wait forever for a dead worker's EOF.
---
 marcel/op/forkmanager.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/marcel/op/forkmanager.py b/marcel/op/forkmanager.py
index 53eedec..71650c7 100644
--- a/marcel/op/forkmanager.py
+++ b/marcel/op/forkmanager.py
@@ -114,11 +114,9 @@ class ForkWorker(object):
         self.env = env
         self.thread_id = thread_id
         self.op = fork_manager.op
-        # duplex=False: child writes to parent when function completes execution.
-        # No need to communicate in the other direction
+        self.reader = None
+        self.writer = None
         # Extending pipeline, as Ops do in customize_pipelines
-        self.reader, self.writer = mp.Pipe(duplex=False)
-        dump(f'{self} init writer {id(self.writer)}')
         pipeline = (fork_customizer(env, fork_manager.pipeline, thread_id)
                     if fork_customizer else
                     fork_manager.pipeline)
@@ -146,6 +144,12 @@ class ForkWorker(object):
 
     def start(self):
         dump(f'{self} start_process {self.pipeline}')
+        # duplex=False: child writes to parent when function completes execution.
+        # No need to communicate in the other direction.
+        # The pipe is created just before the child, so that, under the fork start method, no other child inherits
+        # this worker's writer. If one did, then the death of this worker would not result in EOF.
+        self.reader, self.writer = mp.Pipe(duplex=False)
+        dump(f'{self} start writer {id(self.writer)}')
         self.process = mp.Process(target=run_pipeline_in_child,
                                   args=(self.env, dill.dumps(self.pipeline), self.thread_id, self.writer))
         dump(f'{self} created {self.process}')
@@ -171,7 +175,8 @@ class ForkWorker(object):
                 x = dill.loads(input)
                 dump(f'{self} consume_input receive {x}')
                 self.op.send(self.env, x)
-        except EOFError:
+        except (EOFError, OSError):
+            # OSError: The worker died while sending.
             dump(f'{self} consume_input EOF')
             self.writer.close()
             more = False
-- 
2.43.0


From a0f1f20f8121c4dd7ddb003b791ff7c5fef6a9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 03/29] fix: ctrl-Z while a job starts must not suspend the
 shell

---
 marcel/job.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/marcel/job.py b/marcel/job.py
index 0fd5e3e..c246abd 100644
--- a/marcel/job.py
+++ b/marcel/job.py
@@ -62,6 +62,12 @@ def debug(message):
 
 def run_command_in_child(env, command, writer):
     debug(f'running: {command.source}')
+    # Process handling needed by a job:
+    # - ctrl-c / SIGINT: Ignore, since this should only kill the foreground process.
+    # - ctrl-z / SIGTSTP: Default handling (pause).
+    signal.signal(signal.SIGINT, signal.SIG_IGN)
+    signal.signal(signal.SIGTSTP, signal.SIG_DFL)
+    signal.pthread_sigmask(signal.SIG_UNBLOCK, {signal.SIGTSTP})
     child_namespace_changes = None
     try:
         command.ensure_functions_compiled(env)
@@ -175,11 +181,11 @@ class Job:
         self.process = mp.Process(target=run_command_in_child, args=(self.env, self.command, writer))
         self.process.daemon = False
         try:
-            # Set up process handling as it should exist in the child process.
-            # - ctrl-c / SIGINT: Ignore, since this should only kill the foreground process.
-            # - ctrl-z / SIGTSTP: Default handling (pause).
+            # The child process inherits what is set here, see run_command_in_child. SIGTSTP must keep its handler, or
+            # ctrl-z at this moment would suspend the console process. The child must not run that handler, so it starts
+            # with SIGTSTP blocked.
             signal.signal(signal.SIGINT, signal.SIG_IGN)
-            signal.signal(signal.SIGTSTP, signal.SIG_DFL)
+            signal.pthread_sigmask(signal.SIG_BLOCK, {signal.SIGTSTP})
 
             # import marcel.util
             # marcel.util.PickleDebugger().check(self.process, debug=True)
@@ -188,8 +194,8 @@ class Job:
             writer.close()  # See topmost comment
         finally:
             # Restore process handling needed by the console process.
+            signal.pthread_sigmask(signal.SIG_UNBLOCK, {signal.SIGTSTP})
             signal.signal(signal.SIGINT, JobControl.only.ctrl_c_handler)
-            signal.signal(signal.SIGTSTP, JobControl.only.ctrl_z_handler)
         debug(f'Started process {self.process.pid}')
 
     def check_alive(self):
-- 
2.43.0


From b40ff59dee871e290a1096b97c629e1f3cda883f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 04/29] fix: a job ending at any moment must not break job
 control

---
 marcel/job.py     | 48 +++++++++++++++++++++++++++++------------------
 marcel/op/jobs.py |  6 +++++-
 2 files changed, 35 insertions(+), 19 deletions(-)

diff --git a/marcel/job.py b/marcel/job.py
index c246abd..713932d 100644
--- a/marcel/job.py
+++ b/marcel/job.py
@@ -115,43 +115,47 @@ class Job:
                 f'job(-----({self.state_symbol()}): {self.command.source}')
 
     def kill(self):
-        if self.state != Job.DEAD:
+        process = self.process
+        if self.state != Job.DEAD and process is not None:
             debug(f'kill {self}')
             self.state = Job.DEAD
             try:
-                os.kill(self.process.pid, signal.SIGTERM)
-                self.process.join(Job.JOIN_DELAY_SEC)
-                if self.process.is_alive():
-                    os.kill(self.process.pid, signal.SIGKILL)
-                    self.process.join(Job.JOIN_DELAY_SEC)
-                    if self.process.is_alive():
+                os.kill(process.pid, signal.SIGTERM)
+                process.join(Job.JOIN_DELAY_SEC)
+                if process.is_alive():
+                    os.kill(process.pid, signal.SIGKILL)
+                    process.join(Job.JOIN_DELAY_SEC)
+                    if process.is_alive():
                         print(f'Unable to kill {self}', file=sys.stderr)
                     else:
                         self.process = None
             except ProcessLookupError:
                 pass
 
+    # The job may end at any time. And a signal handler may discover that it has ended, (setting self.process to None),
+    # at any time.
     def signal(self, signal):
         debug(f'signal {self} {signal}')
-        try:
-            os.kill(self.process.pid, signal)
-        except ProcessLookupError:
-            pass
+        process = self.process
+        if process is not None:
+            try:
+                os.kill(process.pid, signal)
+            except ProcessLookupError:
+                pass
 
     # ctrl-z
     def pause(self):
         debug(f'pause {self}')
         if self.state not in (Job.RUNNING_PAUSED, Job.DEAD):
-            debug(f'sending SIGTSTP to {self.process.pid}')
             self.state = Job.RUNNING_PAUSED
-            os.kill(self.process.pid, signal.SIGTSTP)
+            self.signal(signal.SIGTSTP)
 
     # bg
     def run_in_background(self):
         debug(f'run_in_background {self}')
         if self.state != Job.DEAD:
             self.state = Job.RUNNING_BACKGROUND
-            os.kill(self.process.pid, signal.SIGCONT)
+            self.signal(signal.SIGCONT)
 
     # fg
     def run_in_foreground(self):
@@ -161,8 +165,10 @@ class Job:
         elif self.state == Job.RUNNING_BACKGROUND:
             self.state = Job.RUNNING_FOREGROUND
         elif self.state == Job.RUNNING_PAUSED:
+            # Resume before changing state. In the other order, ctrl-z in between would leave the job running, and
+            # recorded as paused.
+            self.signal(signal.SIGCONT)
             self.state = Job.RUNNING_FOREGROUND
-            os.kill(self.process.pid, signal.SIGCONT)
         elif self.state == Job.DEAD:
             raise marcel.exception.KillCommandException('Cannot foreground killed job')
 
@@ -198,8 +204,12 @@ class Job:
             signal.signal(signal.SIGINT, JobControl.only.ctrl_c_handler)
         debug(f'Started process {self.process.pid}')
 
+    def is_alive(self):
+        process = self.process
+        return process is not None and process.is_alive()
+
     def check_alive(self):
-        if self.process is None or not self.process.is_alive():
+        if not self.is_alive():
             self.state = Job.DEAD
             self.process = None
 
@@ -300,7 +310,9 @@ class JobControl:
         # TODO: but that would preclude Python 3.6.
         foreground = self.foreground()
         while foreground and foreground.state != Job.DEAD:
-            foreground.process.join(0.1)
+            process = foreground.process
+            if process is not None:
+                process.join(0.1)
             foreground = self.foreground()
         debug(f'idle')
 
@@ -328,7 +340,7 @@ class JobControl:
     def remove_completed(self):
         new_jobs = []
         for job in self._jobs:
-            if job.process is not None and job.process.is_alive():
+            if job.is_alive():
                 new_jobs.append(job)
         self._jobs = new_jobs
 
diff --git a/marcel/op/jobs.py b/marcel/op/jobs.py
index 1c3d0b6..d92b358 100644
--- a/marcel/op/jobs.py
+++ b/marcel/op/jobs.py
@@ -58,7 +58,11 @@ class Jobs(marcel.core.Op):
         job_id = 0
         for job in marcel.job.JobControl.only.jobs():
             # TODO: If job were a marcel.renderable.Renderable, then it would have render_compact/full methods.
-            description = f'{job_id}({job.state_symbol()}): {job.process.pid}  {job.command.source}'
+            process = job.process
+            if process is None:
+                # Ended just now
+                continue
+            description = f'{job_id}({job.state_symbol()}): {process.pid}  {job.command.source}'
             self.send(env, description)
             job_id += 1
 
-- 
2.43.0


From 646172fca4dc0d4a48c2a4f0c3cbdde6e93a851f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:07 +0000
Subject: [PATCH 05/29] fix: effects of jobs must be applied by the main
 thread, before the next command

---
 marcel/job.py  | 76 +++++++++++++++++++++++++++++++++++++++-----------
 marcel/main.py |  1 +
 2 files changed, 61 insertions(+), 16 deletions(-)

diff --git a/marcel/job.py b/marcel/job.py
index 713932d..46abb2e 100644
--- a/marcel/job.py
+++ b/marcel/job.py
@@ -13,6 +13,7 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
+import collections
 import os
 import multiprocessing as mp
 import multiprocessing.connection as mpc
@@ -107,6 +108,7 @@ class Job:
         self.command = command
         self.state = Job.RUNNING_FOREGROUND
         self.process = None
+        self.results = None
         self.start_process()
 
     def __repr__(self):
@@ -182,7 +184,7 @@ class Job:
         # other direction
         debug(f'About to spawn process for {self.command.source}')
         reader, writer = mp.Pipe(duplex=False)
-        JobControl.only.child_listener.add_listener(reader)
+        self.results = JobControl.only.child_listener.add_listener(reader)
         debug('Job.start_process')
         self.process = mp.Process(target=run_command_in_child, args=(self.env, self.command, writer))
         self.process.daemon = False
@@ -214,30 +216,60 @@ class Job:
             self.process = None
 
 
+# What one job reports, (on completion).
+class JobResults:
+
+    def __init__(self, reader):
+        self.reader = reader
+        self.lock = threading.Lock()
+        self.received = collections.deque()
+        self.done = False
+
+    def fileno(self):
+        return self.reader.fileno()
+
+    # Called by the ChildListener, and also by the main thread, which needs to have all the results of a completed job.
+    def receive(self):
+        with self.lock:
+            try:
+                while not self.done and self.reader.poll():
+                    self.received.append(self.reader.recv())
+            except (EOFError, OSError):
+                # No more input, or the job died while sending
+                self.done = True
+
+    # Main thread only: Environment is not thread-safe.
+    def apply(self, child_completion_handler):
+        while self.received:
+            input = self.received.popleft()
+            try:
+                if input is not None:
+                    child_completion_handler(dill.loads(input))
+            except Exception as e:
+                print(f'Unable to process results of job: {e}', file=sys.stderr)
+
+
 class ChildListener(threading.Thread):
 
-    def __init__(self, child_completion_handler):
+    def __init__(self):
         super().__init__()
         self.daemon = True
-        self.child_completion_handler = child_completion_handler
         self.waiter = threading.Condition()
         self.listeners = []
         self.stop = False
 
-    def add_listener(self, listener):
+    def add_listener(self, reader):
+        listener = JobResults(reader)
         self.waiter.acquire()
         self.listeners.append(listener)
         self.waiter.notify()
         self.waiter.release()
+        return listener
 
     def run(self):
-        to_remove = []
         while True:
             self.waiter.acquire()
-            # Remove any listeners that threw EOFError in a previous iteration
-            for listener in to_remove:
-                self.listeners.remove(listener)
-            to_remove.clear()
+            self.listeners = [listener for listener in self.listeners if not listener.done]
             # Wait until a listener has something
             while not self.stop and len(self.listeners) == 0:
                 self.waiter.wait(1)
@@ -247,12 +279,7 @@ class ChildListener(threading.Thread):
             self.waiter.release()
             # Process the listeners that are ready
             for listener in mpc.wait(listeners, 0.1):
-                try:
-                    input = listener.recv()
-                    if input is not None:
-                        self.child_completion_handler(dill.loads(input))
-                except EOFError:
-                    to_remove.append(listener)
+                listener.receive()
 
     def stop_listening(self):
         self.stop = True
@@ -266,7 +293,9 @@ class JobControl:
     def __init__(self, env, child_completion_handler):
         self.env = env
         self._jobs = []
-        self.child_listener = ChildListener(child_completion_handler)
+        self._reporting = []  # Jobs whose results may not have been applied yet
+        self.child_completion_handler = child_completion_handler
+        self.child_listener = ChildListener()
         self.child_listener.start()
         signal.signal(signal.SIGINT, self.ctrl_c_handler)
         signal.signal(signal.SIGTSTP, self.ctrl_z_handler)
@@ -275,6 +304,7 @@ class JobControl:
         debug('Shutting down job control')
         job_control = JobControl.only
         JobControl.only = None
+        self.apply_results()
         for job in self._jobs:
             job.kill()
         job_control.child_listener.stop_listening()
@@ -282,6 +312,7 @@ class JobControl:
     def create_job(self, command):
         job = Job(self.env, command)
         self._jobs.append(job)
+        self._reporting.append(job)
 
     def jobs(self):
         self.remove_completed()
@@ -314,8 +345,21 @@ class JobControl:
             if process is not None:
                 process.join(0.1)
             foreground = self.foreground()
+        self.apply_results()
         debug(f'idle')
 
+    # Apply the effects of completed jobs, so that the next command sees them.
+    def apply_results(self):
+        reporting = []
+        for job in self._reporting:
+            completed = not job.is_alive()
+            if completed:
+                job.results.receive()
+            job.results.apply(self.child_completion_handler)
+            if not completed:
+                reporting.append(job)
+        self._reporting = reporting
+
     def ctrl_c_handler(self, signum, frame):
         debug(f'ctrl c handler')
         assert signum == signal.SIGINT
diff --git a/marcel/main.py b/marcel/main.py
index d79147b..7898fdb 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -228,6 +228,7 @@ class MainInteractive(MainScript):
                                       else input())
                     # else: Restarted main, and self.input was from the previous incarnation.
                     self.check_for_config_update()
+                    self.job_control.apply_results()
                     self.parse_and_run_command(self.input)
                     self.input = None
                     self.job_control.wait_for_idle_foreground()
-- 
2.43.0


From 2f6dc99b2f2b51eac2f695f47d5c4152216a188c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:49 +0000
Subject: [PATCH 06/29] fix: a deleted variable must not come back when its
 workspace is opened again, or in jobs

---
 marcel/object/workspace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 74d5c10..35e7ded 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -149,7 +149,8 @@ class VarHandler(object):
         self.check_mutability(var)
         if var in self.namespace:
             self.vars_written.discard(var)
-            value = self.namespace.pop(var)
+            value = self.namespace[var]
+            del self.namespace[var]
             if type(value) is marcel.reservoir.Reservoir:
                 value.ensure_deleted()
             return value
-- 
2.43.0


From 794eaedcabfd741d0751408e832b850e8ddac3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:57 +0000
Subject: [PATCH 07/29] fix: an unexpected exception of a command must not end
 the session

---
 marcel/main.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/marcel/main.py b/marcel/main.py
index 7898fdb..7e041d0 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -208,6 +208,13 @@ class MainInteractive(MainScript):
 
     # MainScript
 
+    def parse_and_run_command(self, text):
+        try:
+            super().parse_and_run_command(text)
+        except Exception:
+            # Unexpected, e.g. a variable whose value cannot be transmitted to a job. Don't lose the session.
+            marcel.util.print_stack_of_current_exception()
+
     def execute_command(self, command, pipeline):
         if self.testing or pipeline.run_in_main_process():
             command.execute(self.env)
-- 
2.43.0


From 7e71f28095f8d96802f4e6e45ca83377caaf92db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:05 +0000
Subject: [PATCH 08/29] fix: jobs and fork workers must use the topmost
 process's files and locks, and exactly its variables

---
 marcel/env.py              | 12 ++++++++----
 marcel/locations.py        |  9 +++++----
 marcel/object/workspace.py | 11 +++++------
 3 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/marcel/env.py b/marcel/env.py
index f07fad7..27dd279 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -101,12 +101,15 @@ class Environment(object):
 
     def __getstate__(self):
         return {'usage': self.usage,
+                'pid': self.locations.pid,
                 'trace': self.trace,
                 'workspace': None if self.workspace.is_default() else self.workspace.name,
                 'namespace': self.workspace.vars().to_persistent_state()}
 
     def __setstate__(self, state):
+        from marcel.locations import Locations
         from marcel.object.workspace import Workspace
+        Locations.TOPMOST_PID = state['pid']
         usage = state['usage']
         trace = state['trace']
         workspace_name = state['workspace']
@@ -116,9 +119,9 @@ class Environment(object):
             import marcel.api
             marcel.api.INITIALIZATION.ensure_initialized()
             env = marcel.api._ENV
+            env.workspace.namespace.from_persistent_state(env, namespace)
         else:
-            env = Environment.create(workspace=workspace, usage=usage)
-        env.workspace.namespace.from_persistent_state(env, namespace)
+            env = Environment.create(workspace=workspace, usage=usage, persistent_state=namespace)
         env.trace = trace
         self.__dict__ = env.__dict__
 
@@ -250,7 +253,8 @@ class Environment(object):
                workspace=None,
                globals=None,
                trace=None,
-               usage='script'):
+               usage='script',
+               persistent_state=None):
         assert usage in ('script', 'api'), usage
         # Don't use a default value for workspace. Default value expressions are evaluted
         # on import, which may be too early. Discovered this gotcha on a unit test. Unit tests
@@ -261,7 +265,7 @@ class Environment(object):
             workspace = marcel.object.workspace.Workspace.default()
         env = cls(workspace=workspace, trace=trace, usage=usage)
         initial_namespace = env.initial_namespace()
-        workspace.open(env, initial_namespace)
+        workspace.open(env, initial_namespace, persistent_state)
         assert (usage == 'api') == (globals is not None), f'usage: {usage}, globals: {"..." if globals else None}'
         if globals is not None:
             workspace.namespace.update_permanent(globals)
diff --git a/marcel/locations.py b/marcel/locations.py
index e765814..190d879 100644
--- a/marcel/locations.py
+++ b/marcel/locations.py
@@ -58,6 +58,10 @@ class Locations(object):
     BROKEN_WORKSPACE_DIR_NAME = 'broken'
     DEFAULT_WORKSPACE_DIR_NAME = '__DEFAULT__'
 
+    # Process spawning creates children with different pids, but when a pid shows up in a filename, we want the pid
+    # of the topmost process. A forked child inherits it. A spawned child gets it with the Environment.
+    TOPMOST_PID = os.getpid()
+
     def __init__(self):
         self.home = Locations.normalize_dir(
             'home directory',
@@ -71,10 +75,7 @@ class Locations(object):
             'application data directory (e.g. XDG_DATA_HOME)',
             os.environ.get('XDG_DATA_HOME', None),
             self.home / '.local' / 'share')
-        # Record the pid. Process spawning creates children with different pids, but when a pid shows up in
-        # a filename, we want the pid of the topmost process.
-        self.pid = os.getpid()
-        self.ppid = os.getppid()
+        self.pid = Locations.TOPMOST_PID
 
     def config(self):
         return Locations.ensure_dir_exists(self.config_base /
diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 35e7ded..ec804c6 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -240,7 +240,8 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         initial_config_contents = self.locations.config_ws_startup(Workspace.default()).read_text()
         self.create_on_disk(initial_config_contents)
 
-    def open(self, env, initial_namespace=None):
+    # If persistent_state is provided then use that instead of the saved environment.
+    def open(self, env, initial_namespace=None, persistent_state=None):
         if self.exists():
             if self.lock_workspace():  # Always granted for default workspace
                 self.read_properties()  # Noop for default workspace
@@ -251,7 +252,8 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
                 for var, value in config_dict.items():
                     self.namespace.assign_permanent(var, value)
                 self.add_immutable_vars(config_dict.keys())
-                persistent_state = self.read_environment()
+                if persistent_state is None:
+                    persistent_state = self.read_environment()
                 self.namespace.from_persistent_state(env, persistent_state)
             else:
                 self.cannot_lock_workspace()
@@ -390,10 +392,7 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             self.marker.unowned().rename(owned_marker_path)
             return owned_marker_path.exists()
         elif owner == self.locations.pid:
-            # Already locked
-            return True
-        elif owner == self.locations.ppid:
-            # Locked by parent. This process must be owned by a job executing on behalf of the parent.
+            # Already locked, by this process, or by the topmost process on whose behalf this process is running.
             return True
         else:
             # Locked by another process
-- 
2.43.0


From bb56389ed15090ab27dd123d3d68c85beebe8592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:58 +0000
Subject: [PATCH 09/29] fix: saving a workspace must not lose what was saved
 before, and must always unlock it

---
 marcel/main.py             |  4 +--
 marcel/object/workspace.py | 67 +++++++++++++++++++++++++-------------
 2 files changed, 46 insertions(+), 25 deletions(-)

diff --git a/marcel/main.py b/marcel/main.py
index 7e041d0..f7d863d 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -74,8 +74,8 @@ class Main(object):
                 pass
         try:
             self.env.workspace.close(self.env, restart)
-        except:
-            pass
+        except BaseException as e:
+            print(f'Unable to save workspace: {e}', file=sys.stderr)
         # If we're shutting down for real (not restarting) then the default workspace needs to be closed too.
         if not restart:
             try:
diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index ec804c6..4a4e210 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -263,20 +263,22 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
     def close(self, env, restart):
         # Relocking is okay, so this is a convenient way to test that the workspace is locked.
         if self.lock_workspace():
-            # Properties
-            self.write_properties()
-            # Reservoirs
-            for var, reservoir in self.reservoirs():
-                assert type(reservoir) is marcel.reservoir.Reservoir
-                reservoir.close()
-            # Environment
-            self.write_environment(self.persistent_state())
-            # Mark this workspace object as closed
-            self.properties = None
-            # Discard workspace
-            self.namespace = None
-            # Unlock
-            self.unlock_workspace()
+            try:
+                # Reservoirs
+                for var, reservoir in self.reservoirs():
+                    assert type(reservoir) is marcel.reservoir.Reservoir
+                    reservoir.close()
+                # Environment
+                self.write_environment(env, self.persistent_state())
+                # Properties
+                self.write_properties()
+            finally:
+                # Mark this workspace object as closed
+                self.properties = None
+                # Discard workspace
+                self.namespace = None
+                # Unlock
+                self.unlock_workspace()
         else:
             assert False, self
 
@@ -366,7 +368,7 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         self.create_dir(locations.data_ws(self))
         self.create_dir(locations.data_ws_res(self))
         # Environment: Write empty persistent env state
-        self.write_environment({})
+        self.write_environment(None, {})
         if not self.is_default():
             self.properties = WorkspaceProperties()
             self.write_properties()
@@ -432,20 +434,39 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
     def write_properties(self):
         assert not self.is_default()
         self.properties.update_save_time()
-        with open(self.locations.data_ws_prop(self), 'wb') as properties_file:
-            pickler = dill.Pickler(properties_file)
-            pickler.dump(self.properties.to_persistent_state())
+        self.replace_file(self.locations.data_ws_prop(self), dill.dumps(self.properties.to_persistent_state()))
 
     def read_environment(self):
             with open(self.locations.data_ws_env(self), 'rb') as environment_file:
                 unpickler = dill.Unpickler(environment_file)
                 return unpickler.load()
 
-    def write_environment(self, persistent_state):
+    def write_environment(self, env, persistent_state):
         assert persistent_state is not None
-        with open(self.locations.data_ws_env(self), 'wb') as environment_file:
-            pickler = dill.Pickler(environment_file)
-            pickler.dump(persistent_state)
+        try:
+            contents = dill.dumps(persistent_state)
+        except Exception:
+            # There is a variable that cannot be pickled. Save the others.
+            savable = {}
+            for var, value in persistent_state.items():
+                try:
+                    dill.dumps(value)
+                    savable[var] = value
+                except Exception as e:
+                    marcel.util.print_to_stderr(env, f'Variable {var} cannot be saved: {e}')
+            contents = dill.dumps(savable)
+        self.replace_file(self.locations.data_ws_env(self), contents)
+
+    # If interrupted at any point, path has either its old contents or the new contents. The temporary file is not
+    # in a workspace directory, because files that don't belong there are regarded as damage.
+    def replace_file(self, path, contents):
+        temp_path = self.locations.data() / f'{self.locations.pid}.tmp'
+        try:
+            temp_path.write_bytes(contents)
+            temp_path.replace(path)
+        except BaseException:
+            temp_path.unlink(missing_ok=True)
+            raise
 
     # Return pid of owning process, or None if unowned.
     def owner(self):
@@ -531,7 +552,7 @@ class WorkspaceDefault(Workspace):
                 if not restart:
                     reservoir.ensure_deleted()
         if restart:
-            self.write_environment(self.persistent_state())
+            self.write_environment(env, self.persistent_state())
         else:
             self.locations.data_ws_env(self).unlink(missing_ok=True)
 
-- 
2.43.0


From d58bef5a98e114ec95b7a85896218494d567db21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:02 +0000
Subject: [PATCH 10/29] fix: owning, creating and deleting a workspace must be
 safe when several processes do it at once

The marker file is renamed atomically from unowned or from a dead owner, is never deleted, and is found by one listing
of the directory. Creation, deletion and validation of workspaces exclude each other.
---
 marcel/locations.py        |  21 ++++-
 marcel/main.py             |   3 +-
 marcel/object/workspace.py | 161 +++++++++++++++++++------------------
 3 files changed, 106 insertions(+), 79 deletions(-)

diff --git a/marcel/locations.py b/marcel/locations.py
index 190d879..7eb5686 100644
--- a/marcel/locations.py
+++ b/marcel/locations.py
@@ -13,6 +13,8 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
+import contextlib
+import fcntl
 import os
 import pathlib
 
@@ -77,6 +79,22 @@ class Locations(object):
             self.home / '.local' / 'share')
         self.pid = Locations.TOPMOST_PID
 
+    # Held while the set of workspaces is created, checked or changed, so that no other process sees it half done.
+    # (Not needed while using a workspace, which is protected by its marker file.) The lock goes away with its owner.
+    @contextlib.contextmanager
+    def lock(self):
+        self.config_base.mkdir(exist_ok=True, parents=True)
+        fd = os.open(self.config_base, os.O_RDONLY)
+        try:
+            try:
+                fcntl.flock(fd, fcntl.LOCK_EX)
+            except OSError:
+                # Locking isn't supported by this filesystem.
+                pass
+            yield
+        finally:
+            os.close(fd)
+
     def config(self):
         return Locations.ensure_dir_exists(self.config_base /
                                            Locations.MARCEL_DIR_NAME)
@@ -154,7 +172,8 @@ class Locations(object):
             if not dir.is_dir():
                 raise marcel.exception.KillShellException(f'Not a directory: {dir}')
         else:
-            dir.mkdir(exist_ok=False, parents=True)
+            # Another process may be doing the same thing.
+            dir.mkdir(exist_ok=True, parents=True)
         return dir
 
     @staticmethod
diff --git a/marcel/main.py b/marcel/main.py
index f7d863d..cb8de9a 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -102,7 +102,8 @@ class MainScript(Main):
         self.testing = testing
         self.config_time = time.time()
         self.needs_restart = False
-        marcel.persistence.persistence.validate_all(self.handle_persistence_validation_errors)
+        with env.locations.lock():
+            marcel.persistence.persistence.validate_all(self.handle_persistence_validation_errors)
 
     # Main
 
diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 4a4e210..b835e5e 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -53,6 +53,18 @@ class Marker(object):
             pid = self.workspace.locations.pid
         return self.workspace.locations.config_ws(self.workspace) / f'{Marker.FILENAME_ROOT}.{pid}'
 
+    # pids of processes owning the workspace. There should be at most one.
+    def owners(self):
+        pids = []
+        try:
+            for file in self.workspace.locations.config_ws(self.workspace).iterdir():
+                if file.name.startswith(f'{Marker.FILENAME_ROOT}.'):
+                    pids.append(int(file.name[file.name.rfind('.') + 1:]))
+        except FileNotFoundError:
+            # The workspace has been deleted.
+            pass
+        return pids
+
     def ensure_exists(self):
         self.unowned().touch(mode=0o000, exist_ok=True)
 
@@ -236,9 +248,12 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         return self.marker.exists()
 
     def create(self):
-        assert not self.exists()
-        initial_config_contents = self.locations.config_ws_startup(Workspace.default()).read_text()
-        self.create_on_disk(initial_config_contents)
+        with self.locations.lock():
+            # Another process may have just created it.
+            if self.exists():
+                raise marcel.exception.KillCommandException(f'Workspace {self.name} already exists.')
+            initial_config_contents = self.locations.config_ws_startup(Workspace.default()).read_text()
+            self.create_on_disk(initial_config_contents)
 
     # If persistent_state is provided then use that instead of the saved environment.
     def open(self, env, initial_namespace=None, persistent_state=None):
@@ -288,29 +303,14 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         self.write_properties()
 
     def delete(self, env):
-        if self.exists():
-            if self.lock_workspace():
-                locations = self.locations
-                # config directory
-                owned_marker_path = self.marker.owned()
-                assert owned_marker_path is not None, self
-                owned_marker_path.unlink(missing_ok=False)
-                # Use missing_ok=True to enable deletion of damaged workspaces, missing files.
-                locations.config_ws_startup(self).unlink(missing_ok=True)
-                locations.config_ws(self).rmdir()
-                # data directory
-                locations.data_ws_hist(self).unlink(missing_ok=True)
-                locations.data_ws_prop(self).unlink(missing_ok=True)
-                locations.data_ws_env(self).unlink(missing_ok=True)
-                reservoir_dir = locations.data_ws_res(self)
-                for reservoir_file in reservoir_dir.iterdir():
-                    reservoir_file.unlink()
-                reservoir_dir.rmdir()
-                locations.data_ws(self).rmdir()
+        with self.locations.lock():
+            if self.exists():
+                if self.lock_workspace():
+                    self.delete_on_disk()
+                else:
+                    self.cannot_lock_workspace()
             else:
-                self.cannot_lock_workspace()
-        else:
-            self.does_not_exist()
+                self.does_not_exist()
 
     def home(self):
         # Older workspaces won't have a home property
@@ -374,6 +374,25 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             self.write_properties()
         locations.data_ws_hist(self).touch(mode=0o600, exist_ok=True)
 
+    def delete_on_disk(self):
+        locations = self.locations
+        # config directory
+        owned_marker_path = self.marker.owned()
+        assert owned_marker_path is not None, self
+        owned_marker_path.unlink(missing_ok=False)
+        # Use missing_ok=True to enable deletion of damaged workspaces, missing files.
+        locations.config_ws_startup(self).unlink(missing_ok=True)
+        locations.config_ws(self).rmdir()
+        # data directory
+        locations.data_ws_hist(self).unlink(missing_ok=True)
+        locations.data_ws_prop(self).unlink(missing_ok=True)
+        locations.data_ws_env(self).unlink(missing_ok=True)
+        reservoir_dir = locations.data_ws_res(self)
+        for reservoir_file in reservoir_dir.iterdir():
+            reservoir_file.unlink()
+        reservoir_dir.rmdir()
+        locations.data_ws(self).rmdir()
+
     def create_dir(self, dir):
         try:
             dir.mkdir(parents=True)
@@ -386,27 +405,28 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
 
     def lock_workspace(self):
         assert not self.is_default()
-        owner = self.owner()
-        if owner is None:
-            # Lock the file by renaming it. Check for success, to guard against another process trying to
-            # lock the same workspace.
-            owned_marker_path = self.marker.owned()
-            self.marker.unowned().rename(owned_marker_path)
-            return owned_marker_path.exists()
-        elif owner == self.locations.pid:
-            # Already locked, by this process, or by the topmost process on whose behalf this process is running.
-            return True
-        else:
-            # Locked by another process
-            if marcel.util.process_exists(owner):
+        while True:
+            owner = self.owner()
+            if owner is None:
+                marker_path = self.marker.unowned()
+            elif owner == self.locations.pid:
+                # Already locked, by this process, or by the topmost process on whose behalf this process is running.
+                return True
+            elif marcel.util.process_exists(owner):
+                # Locked by another process
                 return False
             else:
                 # Owner disappeared. Steal the marker file.
-                abandoned_marker_path = self.marker.owned(owner)
-                owned_marker_path = self.marker.owned()
-                abandoned_marker_path.rename(owned_marker_path)
-                # If owned_marker_path doesn't exist, another process was stealing the file at exactly the same time?!
-                return owned_marker_path.exists()
+                marker_path = self.marker.owned(owner)
+            # Lock the workspace by renaming the marker file. If other processes are trying to do this at the same time,
+            # this succeeds for one of them only.
+            try:
+                marker_path.rename(self.marker.owned())
+                return True
+            except FileNotFoundError:
+                if not self.exists():
+                    self.does_not_exist()
+                # Another process renamed the marker file. Try again.
 
     def unlock_workspace(self):
         assert not self.is_default()
@@ -472,22 +492,12 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
     def owner(self):
         # Should only need this for named workspaces.
         assert not self.is_default()
-        if self.marker.unowned().exists():
-            return None
-        if not self.locations.config_ws(self).exists():
-            return None
-        # First get rid of any markers from processes that don't exist. Shouldn't happen, but still.
-        self.delete_abandoned_markers()
-        # Now find the marker. Something is very wrong if there is anything other than one.
-        marker_filename = None
-        for file in self.locations.config_ws(self).iterdir():
-            if file.name.startswith(Marker.FILENAME_ROOT):
-                if marker_filename is None:
-                    marker_filename = file.name
-                else:
-                    assert False, f'Multiple marker files in {self.locations.config_ws_startup(self)}'
-        assert marker_filename is not None
-        return Workspace.marker_filename_pid(marker_filename)
+        owner = None
+        for pid in self.marker.owners():
+            owner = pid
+            if marcel.util.process_exists(pid):
+                break
+        return owner
 
     def validate(self):
         return WorkspaceValidater(self).validate()
@@ -504,12 +514,14 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             data_target = locations.data_bws(self, now)
             shutil.move(data_source, data_target)
 
-    def delete_abandoned_markers(self):
-        for file in self.locations.config_ws(self).iterdir():
-            if file.name.startswith(Marker.FILENAME_ROOT) and len(file.name) > len(Marker.FILENAME_ROOT):
-                pid = Workspace.marker_filename_pid(file.name)
-                if not marcel.util.process_exists(pid):
-                    file.unlink()
+    def release_abandoned_markers(self):
+        for pid in self.marker.owners():
+            if not marcel.util.process_exists(pid):
+                try:
+                    self.marker.owned(pid).rename(self.marker.unowned())
+                except FileNotFoundError:
+                    # Another process took over the marker.
+                    pass
 
     def cannot_lock_workspace(self):
         raise marcel.exception.KillCommandException(f'Workspace {self.name} is in use by another process.')
@@ -520,11 +532,6 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         else:
             raise marcel.exception.KillCommandException(f'There is no workspace named {self.name}.')
 
-    @staticmethod
-    def marker_filename_pid(marker_filename):
-        assert marker_filename.startswith(Marker.FILENAME_ROOT)
-        return int(marker_filename[marker_filename.rfind('.') + 1:])
-
 
 class WorkspaceDefault(Workspace):
 
@@ -605,11 +612,8 @@ class WorkspaceValidater(object):
         # exist in this dir.
         # Config dir has marker file.
         config_dir_path = locations.config_ws(workspace)
-        # Workspace.owner() gets rid of unowned marker files.
-        self.workspace.delete_abandoned_markers()
+        self.workspace.release_abandoned_markers()
         if not self.workspace.marker.exists():
-            # Could happen if Workspace.owner() deleted the marker, because it was owned by
-            # a process that no longer exists. Create a new marker.
             self.workspace.marker.ensure_exists()
         # Config dir has startup.py.
         if not locations.config_ws_startup(workspace).exists():
@@ -668,13 +672,17 @@ class WorkspaceDefaultValidater(WorkspaceValidater):
 
     def validate(self):
         def delete_abandoned(dir, suffix):
-            for file in dir.iterdir():
+            files = list(dir.iterdir())
+            # Find out what processes exist after listing the files. Otherwise, a file could belong to a process started
+            # in between.
+            pids = set(psutil.pids())
+            for file in files:
                 if file.name.endswith(suffix):
                     dot = file.name.find('.')
                     try:
                         file_pid = int(file.name[:dot])
                         if file_pid not in pids:
-                            file.unlink()
+                            file.unlink(missing_ok=True)
                     except ValueError:
                         self.errors.append(
                             WorkspaceValidater.Error(self.workspace.name,
@@ -683,7 +691,6 @@ class WorkspaceDefaultValidater(WorkspaceValidater):
         # Delete abandoned files: associated with processes no longer running.
         locations = self.locations
         workspace = self.workspace
-        pids = set(psutil.pids())
         delete_abandoned(locations.data_ws(workspace), '.env.pickle')
         delete_abandoned(locations.data_ws_res(workspace), '.pickle')
         return super().validate()
-- 
2.43.0


From 12533819d4b9e9fbbb0ec362b90ee1bbad86f937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:59 +0000
Subject: [PATCH 11/29] fix: failure to open a workspace, e.g. one in use, must
 not end the session, or leave the workspace locked, and a bad startup script
 must be reported once

---
 marcel/main.py             | 18 ++++++++++--------
 marcel/object/workspace.py | 35 ++++++++++++++++++++++++-----------
 2 files changed, 34 insertions(+), 19 deletions(-)

diff --git a/marcel/main.py b/marcel/main.py
index cb8de9a..cf82d14 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -292,21 +292,15 @@ def main_interactive_run():
         raise marcel.exception.ReconfigureException(Workspace.default())
 
     def env_and_main(old_env, old_main, workspace):
+        env = None
         try:
             env = marcel.env.EnvironmentInteractive.create(workspace=workspace, trace=trace)
-        except Exception as e:
-            # Something ws-related? Try starting in default
-            marcel.util.print_to_stderr(
-                old_env,
-                f'Caught {type(e)} during startup. Starting in default workspace. {str(e)}')
-            return env_and_main(old_env, old_main, Workspace.default())
-        assert env is not None
-        try:
             main = MainInteractive(old_main, env)
             main.run_startup_scripts()
             return env, main
         except marcel.exception.StartupScriptException as e:
             if workspace.is_default():
+                print(str(e), file=sys.stderr)
                 marcel.util.print_to_stderr(env, 'Error in startup script for default workspace.')
                 marcel.util.print_to_stderr(env, 'Fix the startup script and try again.')
                 sys.exit(1)
@@ -314,6 +308,14 @@ def main_interactive_run():
                 print(str(e), file=sys.stderr)
                 marcel.util.print_to_stderr(env, 'Trying default workspace ...')
                 return env_and_main(old_env, old_main, Workspace.default())
+        except (Exception, marcel.exception.KillCommandException) as e:
+            # E.g. the workspace is in use by another process. Try starting in default.
+            if env is not None or workspace.is_default():
+                raise
+            marcel.util.print_to_stderr(
+                old_env,
+                f'Caught {type(e)} during startup. Starting in default workspace. {str(e)}')
+            return env_and_main(old_env, old_main, Workspace.default())
 
     main = None
     trace = None
diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index b835e5e..331e3d7 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -258,18 +258,24 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
     # If persistent_state is provided then use that instead of the saved environment.
     def open(self, env, initial_namespace=None, persistent_state=None):
         if self.exists():
+            already_locked = self.is_locked()
             if self.lock_workspace():  # Always granted for default workspace
-                self.read_properties()  # Noop for default workspace
-                self.namespace = marcel.nestednamespace.NestedNamespace(env)
-                if initial_namespace:
-                    initial_namespace.add_to_namespace(self.namespace, env)
-                config_dict = self.config_script.run()
-                for var, value in config_dict.items():
-                    self.namespace.assign_permanent(var, value)
-                self.add_immutable_vars(config_dict.keys())
-                if persistent_state is None:
-                    persistent_state = self.read_environment()
-                self.namespace.from_persistent_state(env, persistent_state)
+                try:
+                    self.read_properties()  # Noop for default workspace
+                    self.namespace = marcel.nestednamespace.NestedNamespace(env)
+                    if initial_namespace:
+                        initial_namespace.add_to_namespace(self.namespace, env)
+                    config_dict = self.config_script.run()
+                    for var, value in config_dict.items():
+                        self.namespace.assign_permanent(var, value)
+                    self.add_immutable_vars(config_dict.keys())
+                    if persistent_state is None:
+                        persistent_state = self.read_environment()
+                    self.namespace.from_persistent_state(env, persistent_state)
+                except BaseException:
+                    if not already_locked:
+                        self.unlock_workspace()
+                    raise
             else:
                 self.cannot_lock_workspace()
         else:
@@ -428,6 +434,10 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
                     self.does_not_exist()
                 # Another process renamed the marker file. Try again.
 
+    # Is the workspace locked by this process (or by the topmost process)?
+    def is_locked(self):
+        return self.owner() == self.locations.pid
+
     def unlock_workspace(self):
         assert not self.is_default()
         owner = self.owner()
@@ -586,6 +596,9 @@ class WorkspaceDefault(Workspace):
     def lock_workspace(self):
         return True
 
+    def is_locked(self):
+        return True
+
 
 class WorkspaceValidater(object):
     class Error(object):
-- 
2.43.0


From f20304557b753193680fbd7ddf3c595fdb22c95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:32 +0000
Subject: [PATCH 12/29] fix: initialization and migration of config and data
 must survive interruption and concurrent starts

Each step can be repeated, the last one makes the new layout match, and an empty history is not an old one.
---
 marcel/object/workspace.py          |  6 +-
 marcel/persistence/storagelayout.py | 90 +++++++++++++++++------------
 2 files changed, 56 insertions(+), 40 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 331e3d7..1b9d7d2 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -366,9 +366,6 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         # config
         config_dir = locations.config_ws(self)
         self.create_dir(config_dir)
-        config_file_path = locations.config_ws_startup(self)
-        config_file_path.write_text(initial_config_contents)
-        config_file_path.chmod(0o600)
         self.marker.ensure_exists()
         # data
         self.create_dir(locations.data_ws(self))
@@ -379,6 +376,9 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             self.properties = WorkspaceProperties()
             self.write_properties()
         locations.data_ws_hist(self).touch(mode=0o600, exist_ok=True)
+        # config file comes last. If it is missing, then creation is incomplete.
+        self.replace_file(locations.config_ws_startup(self), initial_config_contents.encode())
+        locations.config_ws_startup(self).chmod(0o600)
 
     def delete_on_disk(self):
         locations = self.locations
diff --git a/marcel/persistence/storagelayout.py b/marcel/persistence/storagelayout.py
index 832e0ed..fdf1bad 100644
--- a/marcel/persistence/storagelayout.py
+++ b/marcel/persistence/storagelayout.py
@@ -75,22 +75,28 @@ def ensure_current(testing=False, initial_config=None):
         Workspace.default().create_on_disk(initial_config)
 
     locations = marcel.locations.Locations()
-    layout = storage_layout()
-    if layout is None:
-        if initial_config is None:
-            initial_config = default_initial_config()
-        initialize_persistent_config_and_data(initial_config)
-    else:
-        if not testing:
-            while layout is not None:
-                before = layout.layout()
-                layout = layout.migrate()
-                after = layout.layout() if layout else None
-                if before == after:
-                    raise marcel.exception.KillShellException(f'Migration from {before} failed to advance.')
-    # Write version file
-    if installed_version() < marcel.version.VERSION:
-        write_version(marcel.version.VERSION)
+    # Several processes may be starting at the same time.
+    with locations.lock():
+        layout = storage_layout()
+        if layout is None:
+            if initial_config is None:
+                initial_config = default_initial_config()
+            initialize_persistent_config_and_data(initial_config)
+        else:
+            if not testing:
+                while layout is not None:
+                    before = layout.layout()
+                    layout = layout.migrate()
+                    after = layout.layout() if layout else None
+                    if before == after:
+                        raise marcel.exception.KillShellException(f'Migration from {before} failed to advance.')
+        # Write version file
+        if installed_version() < marcel.version.VERSION:
+            write_version(marcel.version.VERSION)
+
+
+# A migration can be interrupted at any point, and is then started again. So each step has to be repeatable. What makes
+# the new layout match has to be the last step.
 
 
 class StorageLayout(object):
@@ -123,6 +129,12 @@ class StorageLayout(object):
             raise marcel.exception.KillShellException(
                 f'Migration({type(self)}) error: {path} should not exist: {info}')
 
+    # Does nothing if source was moved already.
+    @staticmethod
+    def move(source, target):
+        if source.exists():
+            shutil.move(source, target)
+
     @staticmethod
     def subdirs(dir):
         workspace_dirs = []
@@ -144,15 +156,16 @@ class StorageLayoutOriginal(StorageLayout):
     def migrate(self):
         self.config.mkdir(parents=True, exist_ok=True)
         self.data.mkdir(parents=True, exist_ok=True)
-        shutil.move(self.home / '.marcel.py', self.config / 'startup.py')
-        shutil.move(self.home / '.marcel_history', self.data / 'history')
+        StorageLayout.move(self.home / '.marcel_history', self.data / 'history')
+        StorageLayout.move(self.home / '.marcel.py', self.config / 'startup.py')
         layout = storage_layout()
         assert layout
         assert layout.layout() == 'xdg'
         return layout
 
     def match(self):
-        match = ((self.home / '.marcel.py').exists() and (self.home / '.marcel_history').exists())
+        match = ((self.home / '.marcel.py').exists() and
+                 ((self.home / '.marcel_history').exists() or (self.data / 'history').exists()))
         return match
 
 
@@ -163,15 +176,16 @@ class StorageLayoutXDG(StorageLayout):
         return 'xdg'
 
     def migrate(self):
-        (self.config / '.WORKSPACE').touch(mode=0o000)
+        (self.data / 'history').touch(mode=0o600)
         (self.data / 'reservoirs').mkdir(exist_ok=True)
+        (self.config / '.WORKSPACE').touch(mode=0o000)
         layout = storage_layout()
         assert layout
         assert layout.layout() == 'ws1'
         return layout
 
     def match(self):
-        return (self.config.exists() and
+        return ((self.config / 'startup.py').exists() and
                 self.data.exists())
 
 
@@ -186,11 +200,11 @@ class StorageLayoutWS1(StorageLayout):
             new_default_workspace_dir = base_dir / '__DEFAULT_WORKSPACE__'
             new_default_workspace_dir.mkdir(parents=True, exist_ok=True)
             for filename in filenames:
-                shutil.move(base_dir / filename, new_default_workspace_dir)
+                StorageLayout.move(base_dir / filename, new_default_workspace_dir / filename)
 
         # Move default workspace files to __DEFAULT_WORKSPACE__ directory
-        fix_default_workspace(self.config, '.WORKSPACE', 'startup.py')
         fix_default_workspace(self.data, 'history', 'reservoirs')
+        fix_default_workspace(self.config, 'startup.py', '.WORKSPACE')
         layout = storage_layout()
         assert layout
         assert layout.layout() == 'ws2'
@@ -210,7 +224,8 @@ class StorageLayoutWS2(StorageLayout):
     def migrate(self):
         def move_workspace_dirs(workspace_dirs, new_workspace_base):
             for workspace_dir in workspace_dirs:
-                if workspace_dir.name != marcel.locations.Locations.WORKSPACE_DIR_NAME:
+                if workspace_dir.name not in (marcel.locations.Locations.WORKSPACE_DIR_NAME,
+                                              '__DEFAULT_WORKSPACE__'):
                     moved_dir = shutil.move(workspace_dir, new_workspace_base)
                     if moved_dir:
                         self.should_exist(pathlib.Path(moved_dir), f'Tried to move workspace dir {workspace_dir}')
@@ -225,16 +240,14 @@ class StorageLayoutWS2(StorageLayout):
             # Move workspace directories
             old_workspace_dirs = StorageLayout.subdirs(base_dir)
             move_workspace_dirs(old_workspace_dirs, new_workspace_dir)
-            # Rename __DEFAULT_WORKSPACE__ to __DEFAULT__
-            old_default_workspace_dir = new_workspace_dir / '__DEFAULT_WORKSPACE__'
-            new_default_workspace_dir = new_workspace_dir / '__DEFAULT__'
-            old_default_workspace_dir.rename(new_default_workspace_dir)
-            # Create dir for broken workspaces
-            new_broken_dir = base_dir / 'broken'
-            new_broken_dir.mkdir(parents=False, exist_ok=False)
+            # Move __DEFAULT_WORKSPACE__ to __DEFAULT__
+            StorageLayout.move(base_dir / '__DEFAULT_WORKSPACE__', new_workspace_dir / '__DEFAULT__')
 
-        fix_dirs(self.config)
         fix_dirs(self.data)
+        fix_dirs(self.config)
+        # Create dirs for broken workspaces
+        (self.data / 'broken').mkdir(exist_ok=True)
+        (self.config / 'broken').mkdir(exist_ok=True)
         layout = storage_layout()
         assert layout
         assert layout.layout() == 'ws3'
@@ -242,7 +255,7 @@ class StorageLayoutWS2(StorageLayout):
 
     def match(self):
         return (self.config.exists() and
-                (self.config / '__DEFAULT_WORKSPACE__').exists())
+                (self.config / '__DEFAULT_WORKSPACE__' / '.WORKSPACE').exists())
 
 
 # Version >= 0.28.0. Separate broken and valid workspaces.
@@ -256,7 +269,7 @@ class StorageLayoutWS3(StorageLayout):
         layout = None
         for workspace_dir in StorageLayout.subdirs(self.data / 'workspace'):
             history_file = workspace_dir / 'history'
-            history_file.unlink()
+            history_file.unlink(missing_ok=True)
             # Write something that looks like a prompt_toolkit history file
             with open(history_file, 'w') as f:
                 f.write('\n')
@@ -271,7 +284,7 @@ class StorageLayoutWS3(StorageLayout):
     def match(self):
         return (self.config.exists() and
                 (self.config / 'workspace').exists() and
-                (self.config / 'workspace' / '__DEFAULT__').exists())
+                (self.config / 'workspace' / '__DEFAULT__' / 'startup.py').exists())
 
 # Version >= 0.32.0. Switch from readline history format to that of prompt_toolkit.
 class StorageLayoutPromptToolkit(StorageLayout):
@@ -292,10 +305,13 @@ class StorageLayoutPromptToolkit(StorageLayout):
 
         if not (self.config.exists() and
                 (self.config / 'workspace').exists() and
-                (self.config / 'workspace' / '__DEFAULT__').exists()):
+                (self.config / 'workspace' / '__DEFAULT__' / 'startup.py').exists()):
             return False
         history_file = self.data / 'workspace' / '__DEFAULT__' / 'history'
-        if history_file.exists():
+        if not history_file.exists() or history_file.stat().st_size == 0:
+            # Nothing to migrate. There was no interactive command yet.
+            return True
+        else:
             with open(history_file) as f:
                 l1 = f.readline().strip()
                 l2 = f.readline().strip()
-- 
2.43.0


From cb0bb38539becc02a9498fdd5700572e8f06bce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:35 +0000
Subject: [PATCH 13/29] fix: a damaged default workspace must not take all the
 other workspaces with it

---
 marcel/main.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/marcel/main.py b/marcel/main.py
index cf82d14..229418f 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -144,12 +144,18 @@ class MainScript(Main):
                                         f'\n    {broken_ws_config}'
                                         f'\n    {broken_ws_data}')
             started_in_broken_ws = False
+            default_broken = False
             for validation_error in errors:
                 marcel.util.print_to_stderr(self.env, str(validation_error))
                 ws_name = validation_error.workspace_name
-                broken_ws = Workspace (ws_name)
-                started_in_broken_ws = started_in_broken_ws or (self.env.workspace.name == ws_name)
+                broken_ws = (Workspace.default()
+                             if ws_name in ('', marcel.locations.Locations.DEFAULT_WORKSPACE_DIR_NAME) else
+                             Workspace(ws_name))
+                started_in_broken_ws = started_in_broken_ws or (self.env.workspace.name == broken_ws.name)
+                default_broken = default_broken or broken_ws.is_default()
                 broken_ws.mark_broken(now)
+            if default_broken:
+                Workspace.default().create_on_disk(marcel.persistence.storagelayout.default_initial_config())
             if started_in_broken_ws:
                 # This marks this MainScript object as needing a restart. Don't want to continue with a broken
                 # workspace, but throwing a ReconfigureException right now (during MainScript.__init__)
-- 
2.43.0


From 241d8e0a2e1ada242e1b62d45770b91769786348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:35 +0000
Subject: [PATCH 14/29] fix: prompt and startup scripts must come from the
 current startup script, not from the one run before

---
 marcel/builtin.py      |  3 ++-
 marcel/configscript.py | 10 ++++++++++
 marcel/env.py          |  6 ++++--
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/marcel/builtin.py b/marcel/builtin.py
index 47c7b6e..b0e373c 100644
--- a/marcel/builtin.py
+++ b/marcel/builtin.py
@@ -30,7 +30,8 @@ from marcel.jsonutil import JSONUtil as _JSONUtil
 _JSON_UTIL = _JSONUtil()
 
 STARTUP_SCRIPTS = []
-PROMPT = '$ '
+_DEFAULT_PROMPT = '$ '
+PROMPT = _DEFAULT_PROMPT
 # DB_DEFAULT = None
 
 
diff --git a/marcel/configscript.py b/marcel/configscript.py
index ef381b0..3976539 100644
--- a/marcel/configscript.py
+++ b/marcel/configscript.py
@@ -13,6 +13,7 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
+import marcel.builtin
 import marcel.env
 import marcel.exception
 import marcel.locations
@@ -52,9 +53,18 @@ class ConfigScript(object):
         # Execute the config file. Imported and newly-defined symbols go into locals, which
         # will then be added to self.namespace, for use in the execution of op functions.
         locals = dict()
+        # set_prompt() and run_on_startup() set these variables of marcel.builtin. Don't leave what was set by an earlier
+        # run of a config script, and (below) don't miss what is set by this one.
+        default_prompt = marcel.builtin._DEFAULT_PROMPT
+        marcel.builtin.PROMPT = default_prompt
+        marcel.builtin.STARTUP_SCRIPTS = []
         try:
             exec(config_source, self.workspace.namespace, locals)
         except Exception as e:
             marcel.util.print_stack_of_current_exception()
             raise marcel.exception.StartupScriptException(self.workspace, e)
+        if marcel.builtin.PROMPT is not default_prompt:
+            locals['PROMPT'] = marcel.builtin.PROMPT
+        if marcel.builtin.STARTUP_SCRIPTS:
+            locals['STARTUP_SCRIPTS'] = marcel.builtin.STARTUP_SCRIPTS
         return locals
diff --git a/marcel/env.py b/marcel/env.py
index 27dd279..ba367f4 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -150,7 +150,6 @@ class Environment(object):
         perm['WORKSPACE'] = lambda env: self.workspace.name
         perm['pos'] = lambda env: lambda: self.current_op.pos()
         perm['o'] = lambda env: marcel.structish.o
-        perm['PROMPT'] = lambda env: [EnvironmentInteractive.DEFAULT_PROMPT]
         perm['BOLD'] = lambda env: marcel.object.color.Color.BOLD
         perm['ITALIC'] = lambda env: marcel.object.color.Color.ITALIC
         perm['COLOR_SCHEME'] = lambda env: marcel.object.color.ColorScheme()
@@ -158,7 +157,10 @@ class Environment(object):
         perm['set_db_default'] = lambda env: lambda db: env.workspace.setvar('DB_DEFAULT', db)
         for key, value in marcel.builtin.__dict__.items():
             if not key.startswith('_'):
-                perm[key] = lambda env: value
+                perm[key] = lambda env, value=value: value
+        # The values in marcel.builtin are from an earlier run of a startup script, possibly for a different workspace.
+        perm['PROMPT'] = lambda env: [EnvironmentInteractive.DEFAULT_PROMPT]
+        perm['STARTUP_SCRIPTS'] = lambda env: []
         return perm
 
     def assign_permanent(self, var, value):
-- 
2.43.0


From 6edb5b3a2c8198fd4958a0b3c1fc48304b2433cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:05 +0000
Subject: [PATCH 15/29] fix: a history file whose first entry is incomplete
 must not prevent marcel from starting

---
 marcel/persistence/storagelayout.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/marcel/persistence/storagelayout.py b/marcel/persistence/storagelayout.py
index fdf1bad..5eba756 100644
--- a/marcel/persistence/storagelayout.py
+++ b/marcel/persistence/storagelayout.py
@@ -315,13 +315,8 @@ class StorageLayoutPromptToolkit(StorageLayout):
             with open(history_file) as f:
                 l1 = f.readline().strip()
                 l2 = f.readline().strip()
-                if (len(l1) == 0 and len(l2) > 0 and
-                    l2[:3] == '# 2' and
-                    l2[6] == '-' and
-                    l2[9] == '-' and
-                    l2[12] == ' ' and
-                    l2[15] == ':' and
-                    l2[18] == ':' and
-                    l2[21] == '.'):
+                # If marcel was killed while writing its first command, then l2 may be incomplete.
+                pattern = {0: '#', 1: ' ', 2: '2', 6: '-', 9: '-', 12: ' ', 15: ':', 18: ':', 21: '.'}
+                if len(l1) == 0 and all(l2[i] == c for i, c in pattern.items() if i < len(l2)):
                     return True
         return False
\ No newline at end of file
-- 
2.43.0


From e1a41783d43c6280fb12748b900c7da7b5e65752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:44 +0000
Subject: [PATCH 16/29] fix: ctrl-C while ctrl-Z is being handled must not end
 the shell

---
 marcel/job.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/marcel/job.py b/marcel/job.py
index 46abb2e..d16f443 100644
--- a/marcel/job.py
+++ b/marcel/job.py
@@ -112,8 +112,9 @@ class Job:
         self.start_process()
 
     def __repr__(self):
-        return (f'job({self.process.pid}({self.state_symbol()}): {self.command.source}'
-                if self.process else
+        process = self.process  # A signal handler may set self.process to None at any time
+        return (f'job({process.pid}({self.state_symbol()}): {self.command.source}'
+                if process else
                 f'job(-----({self.state_symbol()}): {self.command.source}')
 
     def kill(self):
-- 
2.43.0


From e6cbb12f234f1b39d9d037f7c17d0d35c3580764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:34 +0000
Subject: [PATCH 17/29] fix: bash operator lost output written just before the
 command ended, and hung or crashed when the command ended early, had no
 input, or downstream failed

---
 marcel/op/bash.py | 151 +++++++++++++++++++++++++++++++---------------
 1 file changed, 102 insertions(+), 49 deletions(-)

diff --git a/marcel/op/bash.py b/marcel/op/bash.py
index 0c3fed8..5dad64e 100644
--- a/marcel/op/bash.py
+++ b/marcel/op/bash.py
@@ -13,6 +13,8 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
+import codecs
+import io
 import os
 import selectors
 import subprocess
@@ -154,20 +156,28 @@ class NonInteractive(Escape):
         super().__init__(op)
         self.process = None
         self.output_handler = None
-        self.lock = threading.Lock()
+        self.input_ended = False
 
     def receive(self, env, x):
         self.ensure_command_running(env)
-        if x is not None:
+        self.output_handler.check()
+        if x is not None and not self.input_ended:
             if len(x) == 1:
                 x = x[0]
-            self.process.stdin.write(str(x))
-            self.process.stdin.write('\n')
-            self.process.stdin.flush()
+            try:
+                self.process.stdin.write(str(x))
+                self.process.stdin.write('\n')
+                self.process.stdin.flush()
+            except BrokenPipeError:
+                # The command doesn't want any more input.
+                self.input_ended = True
 
     def flush(self, env):
-        self.process.stdin.close()
+        # The command needs to run, even if there was no input for it.
+        self.ensure_command_running(env)
+        self.close_stdin()
         self.output_handler.join()
+        self.output_handler.check()
 
     def cleanup(self):
         self.shutdown()
@@ -188,18 +198,20 @@ class NonInteractive(Escape):
             self.output_handler = ProcessOutputHandler(env, self)
             self.output_handler.start()
 
-    def shutdown(self):
-        while self.output_handler.is_alive():
-            self.output_handler.join(0.1)
-        self.lock.acquire()
+    def close_stdin(self):
         try:
-            if self.process:
-                self.process.wait()
-                self.process.stdout.close()
-                self.process.stderr.close()
-                self.process = None
-        finally:
-            self.lock.release()
+            self.process.stdin.close()
+        except BrokenPipeError:
+            # There was unflushed input, left over from a write that failed.
+            pass
+
+    def shutdown(self):
+        if self.process:
+            self.close_stdin()
+            while self.output_handler.is_alive():
+                self.output_handler.join(0.1)
+            self.process.wait()
+            self.process = None
 
 
 class Interactive(Escape):
@@ -238,38 +250,79 @@ class ProcessOutputHandler(threading.Thread):
     def __init__(self, env, owner):
         super().__init__()
         self.env = env
-        self.owner = owner
+        self.process = owner.process
+        self.op = owner.op
+        self.error = None
 
     def run(self):
-        process = self.owner.process
-        op = self.owner.op
-        lock = self.owner.lock
-        sel = selectors.DefaultSelector()
-        sel.register(process.stdout, selectors.EVENT_READ)
-        sel.register(process.stderr, selectors.EVENT_READ)
-        while True:
-            events = sel.select(timeout=0.1)
-            lock.acquire()
-            try:
-                if not events and process.poll() is not None:
-                    break
+        try:
+            self.handle_output()
+        except BaseException as e:
+            # Reported by the main thread.
+            self.error = e
+        finally:
+            # If the command is still running (there was an error), then it must not block on a full pipe.
+            self.process.stdout.close()
+            self.process.stderr.close()
+
+    def check(self):
+        if self.error:
+            error = self.error
+            self.error = None
+            raise error
+
+    def handle_output(self):
+        stdout = ProcessOutput(self.process.stdout, lambda line: self.op.send(self.env, line))
+        stderr = ProcessOutput(self.process.stderr,
+                               lambda line: self.op.send(self.env, marcel.object.error.Error(line)))
+        with selectors.DefaultSelector() as sel:
+            for output in (stdout, stderr):
+                sel.register(output.fd, selectors.EVENT_READ, output)
+            while True:
+                # Check for termination before looking for output, so that output preceding termination isn't missed.
+                # (EOF can't be relied on, because the command may have left a background process behind.)
+                terminated = self.process.poll() is not None
+                events = sel.select(timeout=0.1) if sel.get_map() else []
                 for key, _ in events:
-                    stream = key.fileobj
-                    line = stream.readline()
-                    if not line:
-                        sel.unregister(key.fileobj)
-                    else:
-                        output = ProcessOutputHandler.normalize_output(line)
-                        if stream is process.stdout:
-                            op.send(self.env, output)
-                        elif stream is process.stderr:
-                            op.send(self.env, marcel.object.error.Error(output))
-            finally:
-                lock.release()
-        process.wait()
-
-    @staticmethod
-    def normalize_output(x):
-        if x[-1] == '\n':
-            x = x[:-1]
-        return x
+                    if not key.data.receive():
+                        sel.unregister(key.fd)
+                if not sel.get_map():
+                    self.process.wait()
+                    break
+                if terminated and not events:
+                    break
+        stdout.finish()
+        stderr.finish()
+
+
+# One of a process's output streams. Reads whatever is available (which may end in the middle of a line or
+# even in the middle of a character), and handles complete lines.
+class ProcessOutput:
+
+    def __init__(self, stream, handle_line):
+        self.fd = stream.fileno()
+        self.handle_line = handle_line
+        self.decoder = io.IncrementalNewlineDecoder(
+            codecs.getincrementaldecoder(stream.encoding)(errors='backslashreplace'),
+            translate=True)
+        self.partial = []  # Pieces of a line whose end hasn't been seen yet
+
+    # Returns False on EOF.
+    def receive(self):
+        data = os.read(self.fd, 65536)
+        self.handle(self.decoder.decode(data))
+        return len(data) > 0
+
+    def finish(self):
+        self.handle(self.decoder.decode(b'', final=True))
+        last_line = ''.join(self.partial)
+        if last_line:
+            self.handle_line(last_line)
+
+    def handle(self, text):
+        self.partial.append(text)
+        if '\n' in text:
+            *lines, rest = ''.join(self.partial).split('\n')
+            self.partial = [rest]
+            for line in lines:
+                self.handle_line(line)
-- 
2.43.0


From 7579cbbb43b0e2bcf62e8a85b4508b3be0fcf9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:41 +0000
Subject: [PATCH 18/29] fix: failure to start a bash command must not end the
 script

---
 marcel/op/bash.py | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/marcel/op/bash.py b/marcel/op/bash.py
index 5dad64e..afebc18 100644
--- a/marcel/op/bash.py
+++ b/marcel/op/bash.py
@@ -149,6 +149,16 @@ class Escape:
     def command(self):
         return self.op.command
 
+    def start_process(self, command, **kwargs):
+        try:
+            return subprocess.Popen(command,
+                                    shell=True,
+                                    executable=self.bash,
+                                    universal_newlines=True,
+                                    **kwargs)
+        except OSError as e:
+            raise marcel.exception.KillCommandException(f'Unable to run {command}: {e.strerror}')
+
 
 class NonInteractive(Escape):
 
@@ -186,15 +196,11 @@ class NonInteractive(Escape):
 
     def ensure_command_running(self, env):
         if self.process is None:
-            command = self.command()
-            self.process = subprocess.Popen(command,
-                                            shell=True,
-                                            executable=self.bash,
-                                            stdin=subprocess.PIPE,
-                                            stdout=subprocess.PIPE,
-                                            stderr=subprocess.PIPE,
-                                            universal_newlines=True,
-                                            preexec_fn=os.setsid)
+            self.process = self.start_process(self.command(),
+                                              stdin=subprocess.PIPE,
+                                              stdout=subprocess.PIPE,
+                                              stderr=subprocess.PIPE,
+                                              preexec_fn=os.setsid)
             self.output_handler = ProcessOutputHandler(env, self)
             self.output_handler.start()
 
@@ -218,11 +224,7 @@ class Interactive(Escape):
 
     def __init__(self, op):
         super().__init__(op)
-        self.process = subprocess.Popen(self.command(),
-                                        shell=True,
-                                        executable=self.bash,
-                                        universal_newlines=True,
-                                        preexec_fn=os.setsid)
+        self.process = self.start_process(self.command(), preexec_fn=os.setsid)
 
     def run(self, env):
         self.process.wait()
@@ -234,10 +236,7 @@ class BashShell(Escape):
 
     def __init__(self, op):
         super().__init__(op)
-        self.process = subprocess.Popen('bash',
-                                        shell=True,
-                                        executable=self.bash,
-                                        universal_newlines=True)
+        self.process = self.start_process('bash')
 
     def receive(self, env, _):
         self.process.wait()
-- 
2.43.0


From a437fc4913f8232f8d2245a4d84014a0980f60cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:18 +0000
Subject: [PATCH 19/29] fix: bash operator without input, e.g. in a case branch
 that isn't taken, must not run its command

---
 marcel/op/bash.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/marcel/op/bash.py b/marcel/op/bash.py
index afebc18..effd4ad 100644
--- a/marcel/op/bash.py
+++ b/marcel/op/bash.py
@@ -183,11 +183,11 @@ class NonInteractive(Escape):
                 self.input_ended = True
 
     def flush(self, env):
-        # The command needs to run, even if there was no input for it.
-        self.ensure_command_running(env)
-        self.close_stdin()
-        self.output_handler.join()
-        self.output_handler.check()
+        # There is no process if there was no input for it.
+        if self.process:
+            self.close_stdin()
+            self.output_handler.join()
+            self.output_handler.check()
 
     def cleanup(self):
         self.shutdown()
-- 
2.43.0


From 7003412560e5886ae79ab7a24fdf166c19bc9d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:50 +0000
Subject: [PATCH 20/29] fix: stored streams: wrong values after append or
 modification of an object, a variable left unusable after a refused or failed
 store or load, partial pickles

---
 marcel/op/load.py    | 42 ++++++++++++++++++++++-------
 marcel/op/store.py   | 12 ++++++---
 marcel/picklefile.py | 64 +++++++++++++++++++++++++++-----------------
 3 files changed, 80 insertions(+), 38 deletions(-)

diff --git a/marcel/op/load.py b/marcel/op/load.py
index f8ee8a4..5582233 100644
--- a/marcel/op/load.py
+++ b/marcel/op/load.py
@@ -97,17 +97,41 @@ class Load(marcel.core.Op):
         elif self.var is not None:
             raise marcel.exception.KillCommandException(
                 f'The type of {self.var} is {type(self.var)}. Only a Reservoir can be loaded')
-        self.reader = iter(self.picklefile)
+        self.open_reader()
 
     def run(self, env):
-        try:
-            while True:
-                self.send(env, next(self.reader))
-        except StopIteration:
-            self.reader.close()
-        except:
-            self.reader.close()
-            raise
+        if self.reader is None:
+            # Running again
+            self.open_reader()
+        while True:
+            try:
+                x = next(self.reader)
+            except StopIteration:
+                break
+            except Exception as e:
+                # E.g. the writing of the file was interrupted.
+                self.non_fatal_error(env, message=f'{type(e)}: {e}')
+                break
+            self.send(env, x)
+        self.close_reader()
+
+    def cleanup(self):
+        self.close_reader()
 
     def must_be_first_in_pipeline(self):
         return True
+
+    # Internal
+
+    def open_reader(self):
+        try:
+            self.reader = iter(self.picklefile)
+        except marcel.picklefile.PickleFileUsageError:
+            raise marcel.exception.KillCommandException(f'load {self.var}: Pickle file already in use')
+        except OSError as e:
+            raise marcel.exception.KillCommandException(f'load {self.var}: {e}')
+
+    def close_reader(self):
+        if self.reader is not None:
+            self.reader.close()
+            self.reader = None
diff --git a/marcel/op/store.py b/marcel/op/store.py
index 056ff9d..f82f5ea 100644
--- a/marcel/op/store.py
+++ b/marcel/op/store.py
@@ -118,13 +118,17 @@ class Store(marcel.core.Op):
             self.writer = self.reservoir.writer(append=self.append)
         except marcel.picklefile.PickleFileUsageError:
             raise marcel.exception.KillCommandException(f'store {self.var}: Pickle file already in use')
+        except OSError as e:
+            raise marcel.exception.KillCommandException(f'store {self.var}: {e}')
 
     def receive(self, env, x):
         try:
             self.writer.write(x)
-        except:
-            self.writer.close()
-            raise
+        except Exception as e:
+            self.fatal_error(env, x, str(e))
 
     def cleanup(self):
-        self.writer.close()
+        try:
+            self.writer.close()
+        except OSError as e:
+            raise marcel.exception.KillCommandException(f'store {self.var}: {e}')
diff --git a/marcel/picklefile.py b/marcel/picklefile.py
index f832698..5994b29 100644
--- a/marcel/picklefile.py
+++ b/marcel/picklefile.py
@@ -19,7 +19,7 @@ import os
 import time
 
 
-class PickleFileUsageError(BaseException):
+class PickleFileUsageError(Exception):
     pass
 
 
@@ -27,7 +27,7 @@ class PickleFile:
 
     def __init__(self, path):
         self.path = pathlib.Path(path)
-        self._readers = {}  # path -> Reader
+        self._readers = []
         self._writer = None
 
     def __repr__(self):
@@ -42,6 +42,18 @@ class PickleFile:
     def __ne__(self, other):
         return not (self == other)
 
+    # Open readers and writers belong to this process.
+    def __getstate__(self):
+        state = self.__dict__.copy()
+        state['_readers'] = []
+        state['_writer'] = None
+        return state
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        self._readers = []
+        self._writer = None
+
     def __iter__(self):
         return self.reader()
 
@@ -55,7 +67,7 @@ class PickleFile:
     def reader(self):
         self.check_availability(self._writer is None)
         reader = Reader(self)
-        self._readers[self.path] = reader
+        self._readers.append(reader)
         return reader
 
     def writer(self, append):
@@ -72,13 +84,16 @@ class PickleFile:
             pass
 
     def close(self):
-        try:
-            access = self._readers.pop(self.path)
-        except KeyError:
-            access = self._writer
+        for access in self._readers + [self._writer]:
+            if access is not None:
+                access.close()
+
+    # An open Reader or Writer is no longer needed.
+    def release(self, access):
+        if access is self._writer:
             self._writer = None
-        if access is not None:
-            access.close_file()
+        elif access in self._readers:
+            self._readers.remove(access)
 
     # A reservoir owned by a default workspace has a filename of the form PID.varname.pickle. Return the pid,
     # or None if there is none.
@@ -99,11 +114,11 @@ class Access(object):
         self.file = None
 
     def close(self):
-        self.owner.close()
-
-    def close_file(self):
-        self.file.close()
-        self.file = None
+        self.owner.release(self)
+        if self.file is not None:
+            file = self.file
+            self.file = None
+            file.close()
 
 
 class Reader(Access):
@@ -142,18 +157,17 @@ class Writer(Access):
         self.append = append
         owner.path.touch(mode=0o600)
         self.file = open(owner.path, 'ab' if self.append else 'wb')
-        self.pickler = dill.Pickler(self.file)
         self.last_flush = time.time()
 
     def write(self, x):
         assert self.file is not None
-        try:
-            self.pickler.dump(x)
-            now = time.time()
-            if now - self.last_flush > Writer.FLUSH_INTERVAL_SEC:
-                self.file.flush()
-                self.last_flush = now
-        except:
-            print(f'{os.getpid()}: Closing writer')
-            self.close()
-            raise
+        # Each value is pickled separately: The pickler's memo would grow without limit, it would keep this
+        # writer from noticing that an object has been modified since it was last written, and it isn't available to
+        # other writers appending to the same file. The reader does use one memo for the entire file, so the pickle
+        # needs to refer to memo entries explicitly, as is done by protocols preceding 4. Pickling is completed
+        # before anything is written, so that failure doesn't leave a partial pickle in the file.
+        self.file.write(dill.dumps(x, protocol=3))
+        now = time.time()
+        if now - self.last_flush > Writer.FLUSH_INTERVAL_SEC:
+            self.file.flush()
+            self.last_flush = now
-- 
2.43.0


From 41d62e55f15cd0f1ba4b79998b6b7a371f8e019d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:50 +0000
Subject: [PATCH 21/29] fix: failure to set up a pipeline must clean up the
 operators already set up

---
 marcel/pipeline.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index e3d422a..e56b028 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -56,12 +56,20 @@ class PipelineExecutable(object):
             if prev_op:
                 prev_op.receiver = op
             prev_op = op
-        for op in self.ops:
-            if env.trace.is_enabled():
-                env.trace.write(op, 'SETUP')
-            op.setup(env)
-        for op in self.ops:
-            op.customize_pipelines(env)
+        n_setup = 0
+        try:
+            for op in self.ops:
+                if env.trace.is_enabled():
+                    env.trace.write(op, 'SETUP')
+                op.setup(env)
+                n_setup += 1
+            for op in self.ops:
+                op.customize_pipelines(env)
+        except:
+            # The pipeline won't be run, so the ops that have been set up won't be cleaned up otherwise.
+            for op in self.ops[:n_setup]:
+                op.cleanup()
+            raise
 
     def run(self, env):
         if env.trace.is_enabled():
-- 
2.43.0


From 185ba1ff56c8f80ead22541bceb6fd8943d26e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:52 +0000
Subject: [PATCH 22/29] fix: store must stop at a failed write, values written
 following it could not be read correctly

---
 marcel/op/store.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marcel/op/store.py b/marcel/op/store.py
index f82f5ea..e21a435 100644
--- a/marcel/op/store.py
+++ b/marcel/op/store.py
@@ -124,6 +124,9 @@ class Store(marcel.core.Op):
     def receive(self, env, x):
         try:
             self.writer.write(x)
+        except OSError as e:
+            # Part of the pickle may have been written. Anything written following it could not be read correctly.
+            raise marcel.exception.KillCommandException(f'store {self.var}: {e}')
         except Exception as e:
             self.fatal_error(env, x, str(e))
 
-- 
2.43.0


From 74fe38e959b505d328de018f07a02c42b056cbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:12 +0000
Subject: [PATCH 23/29] fix: directory stack disagreed with the working
 directory, or lost entries, when directories disappear; dirs -c stored a
 Path; errors of cd and pushd could end a script

---
 marcel/directorystate.py | 58 +++++++++++++++++++++++-----------------
 marcel/op/cd.py          |  7 +++--
 marcel/op/popd.py        |  4 +--
 marcel/op/pushd.py       |  9 ++++---
 4 files changed, 42 insertions(+), 36 deletions(-)

diff --git a/marcel/directorystate.py b/marcel/directorystate.py
index 2c319d9..eee82f0 100644
--- a/marcel/directorystate.py
+++ b/marcel/directorystate.py
@@ -37,24 +37,21 @@ class DirectoryState:
             directory = pathlib.Path(directory)
         assert isinstance(directory, pathlib.Path), directory
         # current_dir() calls _clean_dir_stack(),
-        new_dir = (self.current_dir() / directory.expanduser()).resolve(False)  # False: due to bug 27
-        dir_stack = self._dir_stack()
-        if new_dir.exists():
-            new_dir = new_dir.as_posix()
-            # So that executables have the same view of the current directory.
-            os.chdir(new_dir)
-            if len(dir_stack) == 0:
-                dir_stack.append(new_dir)
-            else:
-                dir_stack[-1] = new_dir
-            self.env.assign_permanent('PWD', new_dir)
-        else:
+        old_dir = self.current_dir()
+        new_dir = (old_dir / directory.expanduser()).resolve(False)  # False: due to bug 27
+        if not new_dir.exists():
             home = pathlib.Path.home().resolve()
+            if new_dir == home:
+                raise FileNotFoundError(f'Directory {home} does not exist')
             marcel.util.print_to_stderr(self.env,
                                         f'Directory {new_dir} does not exist, '
                                         f'going to home directory instead: {home}')
-            if len(dir_stack) == 0 or dir_stack[-1] != home:
+            if old_dir != home:
                 self.push_dir(home)
+        else:
+            # If the current directory has disappeared, then it is no longer on the stack, and there is nothing to
+            # replace.
+            self._go(self._other_dirs() + [new_dir.as_posix()])
 
     def push_dir(self, directory):
         self._clean_dir_stack()
@@ -62,25 +59,21 @@ class DirectoryState:
         # actual stack until the cd succeeds (bug 133).
         dir_stack = list(self._dir_stack())
         if directory is None:
-            if len(dir_stack) > 1:
-                dir_stack[-2:] = [dir_stack[-1], dir_stack[-2]]
+            other_dirs = self._other_dirs()
+            if len(other_dirs) > 0:
+                self._go(other_dirs[:-1] + dir_stack[len(other_dirs):] + other_dirs[-1:])
         else:
             assert isinstance(directory, pathlib.Path)
-            dir_stack.append(directory.resolve().as_posix())
-        self.change_current_dir(pathlib.Path(dir_stack[-1]))
-        self.env.assign_permanent('DIRS', dir_stack)
+            self._go(dir_stack + [directory.resolve().as_posix()])
 
     def pop_dir(self):
         self._clean_dir_stack()
-        dir_stack = self._dir_stack()
-        if len(dir_stack) > 1:
-            self.change_current_dir(pathlib.Path(dir_stack[-2]))
-            dir_stack.pop()
+        other_dirs = self._other_dirs()
+        if len(other_dirs) > 0:
+            self._go(other_dirs)
 
     def reset_dir_stack(self):
-        dir_stack = self._dir_stack()
-        dir_stack.clear()
-        dir_stack.append(self.current_dir())
+        self.env.assign_permanent('DIRS', [self.current_dir().as_posix()])
 
     def dirs(self):
         self._clean_dir_stack()
@@ -91,6 +84,21 @@ class DirectoryState:
     def _dir_stack(self):
         return self.env.getvar('DIRS')
 
+    # The directory stack without the current directory. (The current directory isn't on the stack if it is no longer
+    # accessible.)
+    def _other_dirs(self):
+        dir_stack = list(self._dir_stack())
+        if len(dir_stack) > 0 and dir_stack[-1] == self.env.getvar('PWD'):
+            dir_stack.pop()
+        return dir_stack
+
+    # Go to the last directory of dir_stack, which becomes the directory stack. If that fails, nothing changes.
+    def _go(self, dir_stack):
+        # So that executables have the same view of the current directory.
+        os.chdir(dir_stack[-1])
+        self.env.assign_permanent('PWD', dir_stack[-1])
+        self.env.assign_permanent('DIRS', dir_stack)
+
     # Remove entries that are not files, and not accessible, (presumably due to changes since they entered the stack).
     def _clean_dir_stack(self):
         clean = []
diff --git a/marcel/op/cd.py b/marcel/op/cd.py
index 9e0f6ed..06f7be4 100644
--- a/marcel/op/cd.py
+++ b/marcel/op/cd.py
@@ -61,22 +61,21 @@ class Cd(marcel.core.Op):
                                                   str, pathlib.Path, pathlib.PosixPath, marcel.object.file.File))
         try:
             dirs = marcel.op.filenames.Filenames(env, [dir_arg]).normalize()
+            is_dir = len(dirs) == 1 and dirs[0].is_dir()
         except Exception as e:
             raise marcel.exception.KillCommandException(f'Invalid argument: {dir_arg}: {str(e)}')
         if len(dirs) == 0:
             raise marcel.exception.KillCommandException('No qualifying path')
         elif len(dirs) > 1:
             raise marcel.exception.KillCommandException('Too many paths')
-        elif not dirs[0].is_dir():
+        elif not is_dir:
             raise marcel.exception.KillCommandException(f'{dirs[0]} is not a directory')
         self.directory = dirs[0]
 
     def run(self, env):
         try:
             env.dir_state().change_current_dir(self.directory)
-        except PermissionError as e:
-            raise marcel.exception.KillCommandException(e)
-        except FileNotFoundError as e:
+        except OSError as e:
             raise marcel.exception.KillCommandException(e)
 
     # Op
diff --git a/marcel/op/popd.py b/marcel/op/popd.py
index f880e0d..f333814 100644
--- a/marcel/op/popd.py
+++ b/marcel/op/popd.py
@@ -50,9 +50,7 @@ class Popd(marcel.core.Op):
     def run(self, env):
         try:
             env.dir_state().pop_dir()
-        except PermissionError as e:
-            raise marcel.exception.KillCommandException(e)
-        except FileNotFoundError as e:
+        except OSError as e:
             raise marcel.exception.KillCommandException(e)
         for dir in env.dir_state().dirs():
             self.send(env, marcel.object.file.File(dir))
diff --git a/marcel/op/pushd.py b/marcel/op/pushd.py
index 8604d23..46bf3e3 100644
--- a/marcel/op/pushd.py
+++ b/marcel/op/pushd.py
@@ -68,7 +68,10 @@ class Pushd(marcel.core.Op):
         if dir_arg is None:
             self.directory = None
         else:
-            dirs = marcel.op.filenames.Filenames(env, [pathlib.Path(dir_arg)]).normalize()
+            try:
+                dirs = marcel.op.filenames.Filenames(env, [pathlib.Path(dir_arg)]).normalize()
+            except Exception as e:
+                raise marcel.exception.KillCommandException(f'Invalid argument: {dir_arg}: {str(e)}')
             if len(dirs) == 0:
                 raise marcel.exception.KillCommandException('No qualifying path')
             elif len(dirs) > 1:
@@ -78,9 +81,7 @@ class Pushd(marcel.core.Op):
     def run(self, env):
         try:
             env.dir_state().push_dir(self.directory)
-        except PermissionError as e:
-            raise marcel.exception.KillCommandException(e)
-        except FileNotFoundError as e:
+        except OSError as e:
             raise marcel.exception.KillCommandException(e)
         for dir in env.dir_state().dirs():
             self.send(env, marcel.object.file.File(dir))
-- 
2.43.0


From 240847cfd2a7d1310d830cee67f526ee74078ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:26 +0000
Subject: [PATCH 24/29] fix: migration lost a workspace when interrupted while
 converting histories, and failed if there was no history

---
 marcel/persistence/storagelayout.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marcel/persistence/storagelayout.py b/marcel/persistence/storagelayout.py
index 5eba756..3b74551 100644
--- a/marcel/persistence/storagelayout.py
+++ b/marcel/persistence/storagelayout.py
@@ -250,7 +250,7 @@ class StorageLayoutWS2(StorageLayout):
         (self.config / 'broken').mkdir(exist_ok=True)
         layout = storage_layout()
         assert layout
-        assert layout.layout() == 'ws3'
+        assert layout.layout() in ('ws3', 'pt')  # pt if there is no history
         return layout
 
     def match(self):
@@ -267,9 +267,9 @@ class StorageLayoutWS3(StorageLayout):
     def migrate(self):
         # Just trash old histories.
         layout = None
-        for workspace_dir in StorageLayout.subdirs(self.data / 'workspace'):
+        # __DEFAULT__ has to be last, because its history decides which layout matches.
+        for workspace_dir in sorted(StorageLayout.subdirs(self.data / 'workspace'), key=lambda dir: dir.name == '__DEFAULT__'):
             history_file = workspace_dir / 'history'
-            history_file.unlink(missing_ok=True)
             # Write something that looks like a prompt_toolkit history file
             with open(history_file, 'w') as f:
                 f.write('\n')
-- 
2.43.0


From 4d2f8a6270f1c5bb69790ab9ac46532fa7f30960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:33 +0000
Subject: [PATCH 25/29] fix: functions as arguments of operators could not be
 called by jobs

---
 marcel/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marcel/core.py b/marcel/core.py
index 4f32880..bc848df 100644
--- a/marcel/core.py
+++ b/marcel/core.py
@@ -168,6 +168,8 @@ class Op(AbstractOp):
         def call(x):
             try:
                 if isinstance(x, marcel.function.Function):
+                    # The compiled function doesn't survive pickling, e.g. of a pipeline being run by a job.
+                    self.ensure_function_compiled(x, env)
                     x = self.call(env, x)
                 else:
                     x = x()
-- 
2.43.0


From e8fe8b8378e43fc06e2774c97c3b40d00d1202ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:32 +0000
Subject: [PATCH 26/29] fix: command typed following a change to the startup
 script was lost; restarts never ended if the script's modification time was
 ahead of the clock

---
 marcel/configscript.py | 15 +++++++++++++++
 marcel/main.py         | 10 +++++-----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/marcel/configscript.py b/marcel/configscript.py
index 3976539..c43ece3 100644
--- a/marcel/configscript.py
+++ b/marcel/configscript.py
@@ -13,6 +13,8 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
+import os
+
 import marcel.builtin
 import marcel.env
 import marcel.exception
@@ -24,6 +26,7 @@ class ConfigScript(object):
     def __init__(self, workspace):
         self.workspace = workspace
         self.locations = marcel.locations.Locations()
+        self.version = None  # Identifies what was last read
 
     def run(self):
         # Make sure that never mutable vars aren't modified during startup.
@@ -41,10 +44,22 @@ class ConfigScript(object):
                 f' {", ".join(never_mutable_assigned)}.')
         return {var: locals[var] for var in startup_vars}
 
+    # Has the config script been modified since it was last read?
+    def modified(self):
+        try:
+            return self.version != ConfigScript.file_version(self.locations.config_ws_startup(self.workspace).stat())
+        except FileNotFoundError:
+            return False
+
+    @staticmethod
+    def file_version(stat):
+        return stat.st_mtime_ns, stat.st_size, stat.st_ino
+
     def read_config(self):
         config_path = self.locations.config_ws_startup(self.workspace)
         try:
             with open(config_path) as config_file:
+                self.version = ConfigScript.file_version(os.fstat(config_file.fileno()))
                 config_source = config_file.read()
         except Exception as e:
             marcel.util.print_stack_of_current_exception()
diff --git a/marcel/main.py b/marcel/main.py
index 229418f..78617e0 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -100,7 +100,6 @@ class MainScript(Main):
     def __init__(self, env, testing=None):
         super().__init__(env, testing)
         self.testing = testing
-        self.config_time = time.time()
         self.needs_restart = False
         with env.locations.lock():
             marcel.persistence.persistence.validate_all(self.handle_persistence_validation_errors)
@@ -236,7 +235,8 @@ class MainInteractive(MainScript):
         try:
             while True:
                 try:
-                    self.input = self.env.take_next_command()
+                    if self.input is None:
+                        self.input = self.env.take_next_command()
                     if self.input is None:
                         self.input = (self.reader.input() if interactive
                                       else input())
@@ -247,6 +247,7 @@ class MainInteractive(MainScript):
                     self.input = None
                     self.job_control.wait_for_idle_foreground()
                 except KeyboardInterrupt:  # ctrl-C
+                    self.input = None
                     print()
         except EOFError:  # ctrl-d
             if interactive:
@@ -267,9 +268,8 @@ class MainInteractive(MainScript):
             self.env.setvar(var, value)
 
     def check_for_config_update(self):
-        config_path = self.env.locations.config_ws_startup(self.env.workspace)
-        config_mtime = config_path.stat().st_mtime if config_path.exists() else 0
-        if self.config_time and config_mtime > self.config_time:
+        # Don't compare to the current time. The clock may have changed.
+        if self.env.workspace.config_script.modified():
             # The workspace argument is used to open a new workspace, different from the previous one, e.g.
             # on ws -c, or ws -o. We aren't changing the workspace here, so pass None.
             raise marcel.exception.ReconfigureException(workspace=None)
-- 
2.43.0


From 1a74cdcf85ee2e890e4166625c395609282b4d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:55 +0000
Subject: [PATCH 27/29] fix: report hosts whose connection fails or is cut, and
 tolerate undecodable stderr

A truncated output stream was reported only as a stack trace, a non-zero exit
status of ssh or sudo was ignored, and stderr that is not UTF-8 lost all of the
host's output.
---
 marcel/op/remote.py | 22 ++++++++++++++++------
 marcel/op/sudo.py   | 29 ++++++++++++++++++++++-------
 2 files changed, 38 insertions(+), 13 deletions(-)

diff --git a/marcel/op/remote.py b/marcel/op/remote.py
index 1b69a8a..46ceb97 100644
--- a/marcel/op/remote.py
+++ b/marcel/op/remote.py
@@ -148,23 +148,33 @@ class Remote(marcel.core.Op):
             buffer.seek(0)
             try:
                 stdout, stderr = self.process.communicate(input=buffer.getvalue())
-                stderr_lines = stderr.decode('utf-8').split('\n')
+                stderr_lines = stderr.decode('utf-8', errors='replace').split('\n')
                 if len(stderr_lines[-1]) == 0:
                     del stderr_lines[-1]
                 sys.stdout.flush()
                 for line in stderr_lines:
                     print(line, file=sys.stderr)
                 sys.stderr.flush()
-                input = dill.Unpickler(io.BytesIO(stdout))
-                try:
-                    while True:
+                buffer = io.BytesIO(stdout)
+                input = dill.Unpickler(buffer)
+                complete = True
+                while complete and buffer.tell() < len(stdout):
+                    try:
                         x = input.load()
+                    except Exception:
+                        # The last of the output is missing, or this isn't output from farcel.
+                        complete = False
+                    else:
                         if isinstance(x, marcel.object.error.Error):
                             self.send_error(env, x)
                         else:
                             self.send(env, x)
-                except EOFError as e:
-                    self.propagate_flush(env)
+                status = self.process.returncode
+                if status != 0:
+                    self.send_error(env, marcel.object.error.Error(f'Remote execution failed, exit status {status}'))
+                elif not complete:
+                    self.send_error(env, marcel.object.error.Error('Remote execution failed, output is incomplete'))
+                self.propagate_flush(env)
             except BaseException as e:
                 marcel.util.print_stack_of_current_exception()
                 print(e)
diff --git a/marcel/op/sudo.py b/marcel/op/sudo.py
index 8d79a73..682c39c 100644
--- a/marcel/op/sudo.py
+++ b/marcel/op/sudo.py
@@ -22,6 +22,7 @@ import dill
 import marcel.argsparser
 import marcel.core
 import marcel.exception
+import marcel.object.error
 import marcel.pipeline
 import marcel.util
 
@@ -112,19 +113,33 @@ class Sudo(marcel.core.Op):
         # Wait for completion (already guaranteed by communicate returning?)
         self.process.wait()
         # Handle results
-        stderr_lines = stderr.decode('utf-8').split('\n')
+        stderr_lines = stderr.decode('utf-8', errors='replace').split('\n')
         if len(stderr_lines[-1]) == 0:
             del stderr_lines[-1]
         sys.stdout.flush()
         for line in stderr_lines:
             print(line, file=sys.stderr)
         sys.stderr.flush()
-        input = dill.Unpickler(io.BytesIO(stdout))
-        try:
-            while True:
-                self.send(env, input.load())
-        except EOFError:
-            self.propagate_flush(env)
+        buffer = io.BytesIO(stdout)
+        input = dill.Unpickler(buffer)
+        complete = True
+        while complete and buffer.tell() < len(stdout):
+            try:
+                x = input.load()
+            except Exception:
+                # The last of the output is missing, or this isn't output from farcel.
+                complete = False
+            else:
+                if isinstance(x, marcel.object.error.Error):
+                    self.send_error(env, x)
+                else:
+                    self.send(env, x)
+        status = self.process.returncode
+        if status != 0:
+            self.send_error(env, marcel.object.error.Error(f'sudo failed, exit status {status}'))
+        elif not complete:
+            self.send_error(env, marcel.object.error.Error('sudo failed, output is incomplete'))
+        self.propagate_flush(env)
 
     def must_be_first_in_pipeline(self):
         return True
-- 
2.43.0


From 7d191a371ba5ec3e01514d312ca14595734da5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:41 +0000
Subject: [PATCH 28/29] fix: ws -n with a name that cannot name a directory
 ended the session

---
 marcel/op/ws.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/marcel/op/ws.py b/marcel/op/ws.py
index f4f1ce9..dc28e10 100644
--- a/marcel/op/ws.py
+++ b/marcel/op/ws.py
@@ -16,6 +16,7 @@
 import marcel.argsparser
 import marcel.core
 import marcel.exception
+import marcel.locations
 import marcel.object.workspace
 
 Workspace = marcel.object.workspace.Workspace
@@ -271,6 +272,10 @@ class WsNew(WsImpl):
 
     def setup(self, env):
         self.check_anon_arg_present('NAME')
+        # The workspace's name is used to name its directories.
+        name = self.op.new
+        if name in ('', '.', '..', marcel.locations.Locations.DEFAULT_WORKSPACE_DIR_NAME) or '/' in name or '\0' in name:
+            raise marcel.exception.KillCommandException(f'Not a valid workspace name: {name}')
 
     def run(self, env):
         name = self.op.new
-- 
2.43.0


From d343db89a77c3fc76092fd2fe061ef7fea92064f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:41 +0000
Subject: [PATCH 29/29] fix: ls ended at errors of entries, and errors in
 showing results were lost

---
 marcel/object/file.py    |  2 +-
 marcel/op/filenamesop.py | 58 +++++++++++++++++++++-------------------
 marcel/op/write.py       | 13 +++++++--
 3 files changed, 43 insertions(+), 30 deletions(-)

diff --git a/marcel/object/file.py b/marcel/object/file.py
index 44a67b9..3173119 100644
--- a/marcel/object/file.py
+++ b/marcel/object/file.py
@@ -262,7 +262,7 @@ class File(marcel.object.renderable.Renderable):
                 if self._is_symlink():
                     highlight = (
                         color_scheme.file_link
-                        if self.path.readlink().exists() else
+                        if os.path.exists(self.path) else
                         color_scheme.file_link_broken)
                 else:
                     highlight = (
diff --git a/marcel/op/filenamesop.py b/marcel/op/filenamesop.py
index 263d83c..fc3ba51 100644
--- a/marcel/op/filenamesop.py
+++ b/marcel/op/filenamesop.py
@@ -74,7 +74,10 @@ class  FilenamesOp(marcel.core.Op):
         self.filenames = self.eval_function(env, 'filenames_arg', str, pathlib.Path, pathlib.PosixPath, File)
         self.roots = []
         self.current_dir = pathlib.Path(env.dir_state().current_dir())
-        self.roots = marcel.op.filenames.Filenames(env, self.filenames).normalize()
+        try:
+            self.roots = marcel.op.filenames.Filenames(env, self.filenames).normalize()
+        except OSError as e:
+            raise marcel.exception.KillCommandException(f'{e.filename}: {e.strerror}')
         if len(self.filenames) > 0 and len(self.roots) == 0:
             raise marcel.exception.KillCommandException(f'No qualifying paths, (possibly due to permission errors):'
                                                         f' {self.filenames}')
@@ -103,10 +106,7 @@ class  FilenamesOp(marcel.core.Op):
 
     def run(self, env):
         for root in self.roots:
-            try:
-                self.visit(env, root, 0)
-            except marcel.exception.KillAndResumeException:
-                pass
+            self.visit_or_report(env, root, 0)
 
     def ensure_functions_compiled(self, env):
         for f in self.filenames_arg:
@@ -114,30 +114,31 @@ class  FilenamesOp(marcel.core.Op):
 
     # For use by this class
 
+    # An error in visiting path is reported, and does not prevent visiting other paths.
+    def visit_or_report(self, env, path, level):
+        try:
+            self.visit(env, path, level)
+        except PermissionError:
+            self.non_fatal_error(env, input=path, message='Permission denied')
+        except FileNotFoundError:
+            self.non_fatal_error(env, input=path, message='No such file or directory')
+        except OSError as e:
+            if e.filename is None:
+                # Not about a path, e.g. the output cannot be written.
+                raise
+            self.non_fatal_error(env, input=path, message=e.strerror)
+        except marcel.exception.KillAndResumeException:
+            pass
+
     def visit(self, env, root, level):
         file = File(root, self.base, self.metadata_cache)
         file.adjust_formatting(self.formatting)
         self.action(self, env, file)
         if root.is_dir() and ((level == 0 and (self.d1 or self.dr)) or self.dr) and not self.dir_already_visited(root):
-            try:
-                root_stat = root.stat()
-                self.visited_dirs.add((root_stat.st_dev, root_stat.st_ino))
-                sorted_dir_contents = sorted(root.iterdir())
-                for file in sorted_dir_contents:
-                    try:
-                        self.visit(env, file, level + 1)
-                    except PermissionError:
-                        self.non_fatal_error(env, input=file, message='Permission denied')
-                    except FileNotFoundError:
-                        self.non_fatal_error(env, input=file, message='No such file or directory')
-                    except marcel.exception.KillAndResumeException:
-                        pass
-            except PermissionError:
-                self.non_fatal_error(env, input=root, message='Permission denied')
-            except FileNotFoundError:
-                self.non_fatal_error(env, input=root, message='No such file or directory')
-            except marcel.exception.KillAndResumeException:
-                pass
+            root_stat = root.stat()
+            self.visited_dirs.add((root_stat.st_dev, root_stat.st_ino))
+            for file in sorted(root.iterdir()):
+                self.visit_or_report(env, file, level + 1)
 
     def determine_base(self):
         # nca: nearest common ancestor
@@ -155,13 +156,16 @@ class  FilenamesOp(marcel.core.Op):
                     i += 1
                 nca = i
         self.base = pathlib.Path('/' + '/'.join(nca_parts[1:nca]))
-        if self.base.is_file():
-            self.base = self.base.parent
+        try:
+            if self.base.is_file():
+                self.base = self.base.parent
+        except OSError:
+            # Not accessible. This will be found and reported in visiting.
+            pass
 
     def dir_already_visited(self, path):
         # There could be multiple paths to a directory due to symlinks. Check if path is a symlink to a directory
         # that has already been visited.
-        assert path.is_dir(), path
         if path.is_symlink():
             target = path.resolve()
             target_stat = target.stat()
diff --git a/marcel/op/write.py b/marcel/op/write.py
index df23d78..c0a4476 100644
--- a/marcel/op/write.py
+++ b/marcel/op/write.py
@@ -147,10 +147,12 @@ class Write(marcel.core.Op):
     def receive(self, env, x):
         try:
             self.writer.receive(env, x)
-        except marcel.exception.KillAndResumeException as e:
+        except BrokenPipeError as e:
             self.non_fatal_error(env, input=x, message=str(e))
+        except marcel.exception.KillAndResumeException as e:
+            self.report(env, x, e.error)
         except Exception as e:  # E.g. UnicodeEncodeError
-            self.non_fatal_error(env, input=x, message=str(e))
+            self.report(env, x, e)
         finally:
             self.send(env, x)
 
@@ -168,6 +170,13 @@ class Write(marcel.core.Op):
 
     # For use by this class
 
+    def report(self, env, x, error):
+        if self.receiver:
+            self.non_fatal_error(env, input=x, message=str(error))
+        else:
+            # There is no one else to report it. Whatever couldn't be written may not be printable.
+            print(ascii(self.error(x, str(error))), file=sys.stderr, flush=True)
+
     @staticmethod
     def ensure_quoted(x):
         if x is None:
-- 
2.43.0

