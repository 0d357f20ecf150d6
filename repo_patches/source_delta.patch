From 59eda7576b1c02a0b58962a2d10b30f1ac6c8811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:08 +0000
Subject: [PATCH 01/69] fix: tolerate RECORD digest mismatches only inside the
 wheel's own dist-info directory

---
 pkm/src/pkm/api/distributions/wheel_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/distributions/wheel_distribution.py b/pkm/src/pkm/api/distributions/wheel_distribution.py
index b42c0ed..ec64b28 100644
--- a/pkm/src/pkm/api/distributions/wheel_distribution.py
+++ b/pkm/src/pkm/api/distributions/wheel_distribution.py
@@ -209,7 +209,7 @@ def _verify_records(dist_info: DistInfo, content: Path, records_file: RecordsFil
         path = str(path_to(content, file))
         if (record := record_by_path.get(path)) and record.hash_signature:
             if not record.hash_signature.validate_against(file):
-                if any(it.name.endswith('.dist-info') for it in file.parents):
+                if dist_info.path in file.parents:
                     warnings.warn(f"mismatch hash signature for {file}")
                 else:
                     raise InstallationException(f"File signature not matched for: {record.file}")
-- 
2.43.0


From 3160095f1a223fcb302012ae5710c215f91c0389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:52 +0000
Subject: [PATCH 02/69] fix: CopyTransaction keeps overwritten content and
 tracks files before they are written

---
 pkm/src/pkm/utils/files.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/pkm/src/pkm/utils/files.py b/pkm/src/pkm/utils/files.py
index cef9a65..ce57cfc 100644
--- a/pkm/src/pkm/utils/files.py
+++ b/pkm/src/pkm/utils/files.py
@@ -143,8 +143,7 @@ class CopyTransaction:
 
         if file_copy:
             def cp(s, d):
-                file_copy(s, d)
-                self.touch(d)
+                file_copy(s, self.prepare(d))
         else:
             cp = self.copy
 
@@ -154,7 +153,7 @@ class CopyTransaction:
                 continue
 
             if file.is_dir():
-                self.copy_tree(file, target / file.name, accept)
+                self.copy_tree(file, target / file.name, accept, file_copy)
             else:
                 cp(file, target / file.name)
 
@@ -181,19 +180,21 @@ class CopyTransaction:
         if source.is_dir():
             raise UnsupportedOperationException("copy should not work with directories, use copy_tree or mkdir instead")
 
-        if target.exists():
-            self.rm(target)
+        shutil.copy(source, self.prepare(target))
 
-        try:
-            shutil.copy(source, target)
-        except FileNotFoundError:
-            if not target.exists():
-                self.mkdir(target.parent)
-                shutil.copy(source, target)
-            else:
-                raise
+    def prepare(self, target: Path) -> Path:
+        """
+        prepare the given `target` path to be written by the caller as part of this transaction: make sure its parent
+        exists, keep its current content (if there is any) for rollback and mark it as copied in this transaction
+        :param target: the path that is about to be written
+        :return: `target` to be used with chaining
+        """
+        self.mkdir(target.parent)
+        if target.exists() and target not in self._copied_files:
+            self.rm(target)
 
         self._copied_files.add(target)
+        return target
 
     @property
     def copied_files(self) -> Iterator[Path]:
@@ -258,7 +259,8 @@ class CopyTransaction:
             if not file.is_dir():
                 file.unlink(missing_ok=True)
 
-        for file in self._copied_files:
+        # nested directories first, so that the directories containing them will become empty
+        for file in sorted(self._copied_files, key=lambda it: len(it.parts), reverse=True):
             if file.is_dir() and is_empty_directory(file):
                 file.rmdir()
 
-- 
2.43.0


From febf755324d75fe9bf32823d2568ea30334c7bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:08 +0000
Subject: [PATCH 03/69] fix: a wheel install tracks and records everything it
 writes into the environment

---
 .../api/distributions/wheel_distribution.py   | 43 ++++++++++---------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/wheel_distribution.py b/pkm/src/pkm/api/distributions/wheel_distribution.py
index ec64b28..f85f16e 100644
--- a/pkm/src/pkm/api/distributions/wheel_distribution.py
+++ b/pkm/src/pkm/api/distributions/wheel_distribution.py
@@ -5,7 +5,7 @@ import warnings
 from dataclasses import replace
 from pathlib import Path
 from tempfile import TemporaryDirectory
-from typing import Optional, TYPE_CHECKING, List, Dict
+from typing import Optional, TYPE_CHECKING, Dict
 from zipfile import ZipFile
 
 from pkm.api.dependencies.dependency import Dependency
@@ -124,41 +124,42 @@ class WheelDistribution(Distribution):
 
             # build entry points
             scripts_path = Path(target.scripts)
-            for entrypoint in entrypoints:
-                if entrypoint.is_script():
-                    ct.touch(Executables.generate_for_entrypoint(target.env, entrypoint, scripts_path))
+            with temp_dir() as generated_scripts:
+                for entrypoint in entrypoints:
+                    if entrypoint.is_script():
+                        script = Executables.generate_for_entrypoint(target.env, entrypoint, generated_scripts)
+                        ct.copy(script, scripts_path / script.name)
 
-            #  compile py to pyc
-            new_pyc_files: List[str] = []
+            #  compile py to pyc, mark the compiled files in the transaction, so that they will be added to record
             with warnings.catch_warnings():
                 warnings.filterwarnings('ignore')
-                for cc in ct.copied_files:
+                for cc in list(ct.copied_files):
                     if cc.suffix == '.py':
+                        ct.prepare(Path(importlib.util.cache_from_source(str(cc))))
                         compileall.compile_file(cc, force=True, quiet=2)
-                        new_pyc_files.append(importlib.util.cache_from_source(str(cc)))
 
-            # mark the compiled files in the transaction, so that they will be added to record
-            for npf in new_pyc_files:
-                ct.touch(Path(npf))
-
-            # build the new records file
+            # mark the installer and the requested flag
             new_dist_info = DistInfo.load(site_packages / dist_info.path.name)
+            ct.prepare(new_dist_info.path / "INSTALLER").write_text(f"pkm")
+            if user_request:
+                ct.prepare(new_dist_info.user_requested_path())
+                new_dist_info.mark_as_user_requested(user_request)
+            if installation_info:
+                ct.prepare(new_dist_info.installation_info_path())
+                new_dist_info.save_installation_info(installation_info)
+
+            # and finally, build the new records file
+            installed_files = list(ct.copied_files)
+            ct.prepare(new_dist_info.record_path())
             new_record_file = new_dist_info.load_record_cfg()
 
             precomputed_hashes = {
                 r.file: r.hash_signature for r in records_file.records if r.hash_signature
             } if not skip_record_verification else None
-            new_record_file.sign_files(ct.copied_files, site_packages, precomputed_hashes)
+            new_record_file.sign_files(installed_files, site_packages, precomputed_hashes)
 
             new_record_file.save()
 
-            # and finally, mark the installer and the requested flag
-            (new_dist_info.path / "INSTALLER").write_text(f"pkm")
-            if user_request:
-                new_dist_info.mark_as_user_requested(user_request)
-            if installation_info:
-                new_dist_info.save_installation_info(installation_info)
-
     def install_to(self, target: "PackageInstallationTarget", user_request: Optional[Dependency] = None,
                    installation_mode: Optional[PackageInstallationInfo] = None):
         """
-- 
2.43.0


From 0342d7e0a81f1cbcd90a78563081d3fb3b2feabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:14 +0000
Subject: [PATCH 04/69] fix: a finished fetch is always released, also when
 cached data was used or it was interrupted

---
 pkm/src/pkm/utils/http/http_client.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 4e4140b..5827f46 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -436,11 +436,6 @@ class HttpClient:
                                     raise
                                 else:
                                     raise HttpException(str(e), response) from e
-                            finally:
-                                # print(f"thread: {threading.current_thread().ident} attempting to release task")
-                                with self._fetch_lock:
-                                    del self._fetch_inprogress[url]
-                                # print(f"thread: {threading.current_thread().ident} succss to release task")
 
                         # print(f"[END] GET {url} resulted with cache files: {cache_files}")
                         return cache_files
@@ -454,8 +449,11 @@ class HttpClient:
 
             try:
                 deffered.complete(_fetch())
-            except Exception as e:
+            except BaseException as e:
                 deffered.fail(e)
+            finally:
+                with self._fetch_lock:
+                    del self._fetch_inprogress[url]
 
             return promise.result()
 
-- 
2.43.0


From d76fc1f18d48cdc10a4caa859093a65e22d3c109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:14 +0000
Subject: [PATCH 05/69] fix: the http cache accepts neither truncated responses
 nor not-modified answers without cached content

---
 pkm/src/pkm/utils/http/http_client.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 5827f46..22e4a06 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -251,6 +251,9 @@ class FetchedResource:
             with open(self.data, 'wb') as df:
                 shutil.copyfileobj(response, df)
 
+            if getattr(response, 'length', None):  # http.client reports missing bytes only for unbounded reads
+                raise HttpException(f"connection closed with {response.length} bytes left to receive", response)
+
             rheaders = response.headers
             last_modified = rheaders.get('last-modified', rheaders.get('date'))
 
@@ -418,7 +421,9 @@ class HttpClient:
 
                             # noinspection PyShadowingNames
                             try:
-                                cache.add_headers(fetch_info, headers)
+                                is_cached = cache_files.exists()
+                                if is_cached:
+                                    cache.add_headers(fetch_info, headers)
                                 with self._request("GET", parsed_url, headers=headers) as response:
                                     clength = int(response.headers.get('content-length', '-1'))
                                     mop.notify(FetchResourceDownloadStartEvent(clength, cache_files.data))
@@ -427,7 +432,7 @@ class HttpClient:
 
                                     if response.status == 200:
                                         cache_files.save(response)
-                                    elif response.status != 304:
+                                    elif response.status != 304 or not is_cached:
                                         raise HttpException(
                                             f"request to {url} ended with unexpected status code:"
                                             f" {response.status} ({response.msg})", response)
-- 
2.43.0


From 1d0587b4db5498fbf6ab3860912c9bcc5b73a278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:59 +0000
Subject: [PATCH 06/69] fix: activating an environment and running a task
 restore unset and empty variables exactly

---
 pkm-cli/src/pkm_cli/api/tasks/tasks_runner.py    | 7 +++++--
 pkm/src/pkm/api/environments/environment.py      | 4 ++--
 pkm/src/pkm/api/environments/environments_zoo.py | 4 ++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/pkm-cli/src/pkm_cli/api/tasks/tasks_runner.py b/pkm-cli/src/pkm_cli/api/tasks/tasks_runner.py
index 1345c27..bff4d97 100644
--- a/pkm-cli/src/pkm_cli/api/tasks/tasks_runner.py
+++ b/pkm-cli/src/pkm_cli/api/tasks/tasks_runner.py
@@ -135,7 +135,7 @@ class _Task:
             execute_py.write_text(_EXECUTE_TASK)
             with self.project.attached_environment.activate():
                 pythonpath = str((project.path / 'tasks').resolve())
-                if old_pythonpath := os.environ.get("PYTHONPATH", ""):
+                if old_pythonpath := os.environ.get("PYTHONPATH"):
                     pythonpath = pythonpath + os.pathsep + old_pythonpath
 
                 os.environ["PYTHONPATH"] = pythonpath
@@ -149,7 +149,10 @@ class _Task:
                         return result.stdout.strip()
                     return result.returncode
                 finally:
-                    os.environ["PYTHONPATH"] = old_pythonpath
+                    if old_pythonpath is not None:
+                        os.environ["PYTHONPATH"] = old_pythonpath
+                    else:
+                        os.environ.pop("PYTHONPATH", None)
 
 
 def _get_attached_name(phase: str, command: Iterable[str], project: Project) -> Optional[str]:
diff --git a/pkm/src/pkm/api/environments/environment.py b/pkm/src/pkm/api/environments/environment.py
index 3997669..8bdf817 100644
--- a/pkm/src/pkm/api/environments/environment.py
+++ b/pkm/src/pkm/api/environments/environment.py
@@ -188,12 +188,12 @@ class Environment(HasAttachedRepository, Serializable):
             if old_path is not None:
                 env["PATH"] = old_path
             else:
-                del env["PATH"]
+                env.pop("PATH", None)
 
             if old_venv is not None:
                 env["VIRTUAL_ENV"] = old_venv
             else:
-                del env["VIRTUAL_ENV"]
+                env.pop("VIRTUAL_ENV", None)
 
     def exec_proc(self, cmd: str, args: Optional[List[str]] = None,
                   env: Optional[Dict[str, str]] = None) -> NoReturn:
diff --git a/pkm/src/pkm/api/environments/environments_zoo.py b/pkm/src/pkm/api/environments/environments_zoo.py
index dfc264d..b9e7f4a 100644
--- a/pkm/src/pkm/api/environments/environments_zoo.py
+++ b/pkm/src/pkm/api/environments/environments_zoo.py
@@ -70,10 +70,10 @@ class EnvironmentsZoo(HasAttachedRepository, Serializable):
         try:
             yield
         finally:
-            if prev_path:
+            if prev_path is not None:
                 env["PATH"] = prev_path
             else:
-                del env["PATH"]
+                env.pop("PATH", None)
 
     def list(self) -> Iterator[Environment]:
         """
-- 
2.43.0


From 28898dea7f293e9dfaedda7046973cdf9eed4cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:32 +0000
Subject: [PATCH 07/69] fix: a finished or failed external build is no longer
 reported as a build cycle by later builds

---
 pkm/src/pkm/build/external_builders.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pkm/src/pkm/build/external_builders.py b/pkm/src/pkm/build/external_builders.py
index 526008b..e4b0a49 100644
--- a/pkm/src/pkm/build/external_builders.py
+++ b/pkm/src/pkm/build/external_builders.py
@@ -1,8 +1,9 @@
 import json
+from contextlib import contextmanager
 from dataclasses import dataclass
 from pathlib import Path
 from textwrap import dedent
-from typing import Optional, Literal, Any, List, TYPE_CHECKING
+from typing import Optional, Literal, Any, Dict, List, TYPE_CHECKING
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.distributions.build_monitors import BuildPackageMonitoredOp, BuildPackageHookExecutionEvent
@@ -91,6 +92,9 @@ def build_wheel(project: "Project", target_dir: Optional[Path] = None, only_meta
 
     from pkm.api.environments.environment_builder import EnvironmentBuilder
     target_dir = target_dir or (project.directories.dist / str(project.version))
+    target_dir.mkdir(exist_ok=True, parents=True)
+
+    interpreter_path = target_env.interpreter_path if target_env else project.attached_environment.interpreter_path
 
     if not target_env or (current_build_path := getattr(target_env, _CURRENT_BUILD_PATH_ATTR, None)) is None:
         current_build_path = dict()
@@ -103,12 +107,9 @@ def build_wheel(project: "Project", target_dir: Optional[Path] = None, only_meta
             f"build cycle detected: "
             f"{' -> '.join(pstr(it) for it in current_build_path.keys())} -> {pstr(project.descriptor)}")
 
-    interpreter_path = target_env.interpreter_path if target_env else project.attached_environment.interpreter_path
-
-    target_dir.mkdir(exist_ok=True, parents=True)
-
     dist = 'editable_wheel' if editable else 'metadata' if only_meta else 'wheel'
-    with BuildPackageMonitoredOp(project.descriptor, dist) as mop, temp_dir() as tdir:
+    with _unmark_when_done(current_build_path, project.descriptor), \
+            BuildPackageMonitoredOp(project.descriptor, dist) as mop, temp_dir() as tdir:
         pyproject = project.config
         buildsys: BuildSystemConfig = pyproject.build_system
         build_packages_repo = project.attached_repository
@@ -156,6 +157,14 @@ def build_wheel(project: "Project", target_dir: Optional[Path] = None, only_meta
         raise BuildError(f"build backend did not produced expected wheel (project={project.name} {project.version})")
 
 
+@contextmanager
+def _unmark_when_done(current_build_path: Dict[PackageDescriptor, bool], descriptor: PackageDescriptor):
+    try:
+        yield
+    finally:
+        current_build_path.pop(descriptor, None)
+
+
 @dataclass
 class _BuildCycleResult:
     status: Literal['success', 'undefined_hook']
-- 
2.43.0


From e0e8c8c5ad3be938ae322e9fe71d2d556237bb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:45 +0000
Subject: [PATCH 08/69] fix: cancelling work in the process pool stops it and
 fails its promise instead of only claiming so

---
 pkm/src/pkm/utils/multiproc/__init__.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/utils/multiproc/__init__.py b/pkm/src/pkm/utils/multiproc/__init__.py
index bb410c9..f88c810 100644
--- a/pkm/src/pkm/utils/multiproc/__init__.py
+++ b/pkm/src/pkm/utils/multiproc/__init__.py
@@ -7,6 +7,7 @@ import sys
 import traceback
 import typing
 from abc import ABC, abstractmethod
+from concurrent.futures import CancelledError
 from dataclasses import dataclass
 from io import StringIO
 from pathlib import Path
@@ -153,6 +154,8 @@ class _WorkerHandler:
                                     f"Worker Execution Failure, Worker Stacktrace was: \n\n{proc_result.err_strace}"))
                         else:
                             task_result.deferred.complete(proc_result.result)
+                    else:
+                        task_result.deferred.fail(CancelledError())
                 except BaseException as e:
                     task_result.deferred.fail(e)
                 finally:
@@ -205,11 +208,13 @@ class _TaskResult:
         return True
 
     def _on_cancel(self) -> bool:
-        if self._canceled or self.deferred.promise().is_completed():
-            with self._lock:
-                self._canceled = True
-                if self._attached_worker:
-                    self._attached_worker.kill()
+        with self._lock:
+            if self.deferred.promise().is_completed():
+                return False
+
+            self._canceled = True
+            if self._attached_worker:
+                self._attached_worker.kill()
 
         return True
 
-- 
2.43.0


From b8b1fb12b8e714c9c0d873f49c5881c003a9f1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:59 +0000
Subject: [PATCH 09/69] fix: the site is reloaded also after an installation
 plan failed

---
 pkm/src/pkm/api/packages/package_installation.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index 84b9aa3..384295b 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -290,14 +290,15 @@ class InstallationPlan:
         parallelism = pkm.config.concurrency_mode if concurrency_mode is None else concurrency_mode
         threads = pkm.threads if parallelism != "none" else None
 
-        if parallelism == "proc" and sum(1 for it in tasks if it.can_be_multiprocessesd()) > 1:
-            procpool = pkm.processes
-            await_all_promises_or_cancel([task.execute(threads, procpool) for task in tasks])
-
-        else:
-            await_all_promises_or_cancel([task.execute(threads, None) for task in tasks])
+        try:
+            if parallelism == "proc" and sum(1 for it in tasks if it.can_be_multiprocessesd()) > 1:
+                procpool = pkm.processes
+                await_all_promises_or_cancel([task.execute(threads, procpool) for task in tasks])
 
-        site.reload()
+            else:
+                await_all_promises_or_cancel([task.execute(threads, None) for task in tasks])
+        finally:
+            site.reload()  # also when a task failed, others may have changed the site
 
 
 class _PackageOperationTask:
-- 
2.43.0


From ae53ee9c921087d9bae1c95291843331060b22c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 10/69] fix: change the live display and list the pool's
 workers only under their locks

---
 pkm-cli/src/pkm_cli/display/display.py  | 3 ++-
 pkm/src/pkm/utils/multiproc/__init__.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkm-cli/src/pkm_cli/display/display.py b/pkm-cli/src/pkm_cli/display/display.py
index f2439b7..e98d5b1 100644
--- a/pkm-cli/src/pkm_cli/display/display.py
+++ b/pkm-cli/src/pkm_cli/display/display.py
@@ -76,7 +76,8 @@ class _LiveOutput(ConsoleRenderable):
             try:
                 yield
             finally:
-                self._live_components = [c for c in self._live_components if c is not renderable]
+                with self._requires_render:
+                    self._live_components = [c for c in self._live_components if c is not renderable]
 
 
 # noinspection PyMethodMayBeStatic
diff --git a/pkm/src/pkm/utils/multiproc/__init__.py b/pkm/src/pkm/utils/multiproc/__init__.py
index f88c810..9b3e26d 100644
--- a/pkm/src/pkm/utils/multiproc/__init__.py
+++ b/pkm/src/pkm/utils/multiproc/__init__.py
@@ -266,7 +266,8 @@ class ProcessPoolExecutor(Closeable):
     def close(self):
         self._closed = True
 
-        workers = list(self._workers.values())
+        with self._workers_lock:
+            workers = list(self._workers.values())
         for _ in workers:
             self.execute(sys.exit, 0)
 
-- 
2.43.0


From 52dde9bb8a71ca6f0000eac4825c5850b5564c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 11/69] fix: configuration strings and command lines are parsed
 as literals, never evaluated as code

---
 pkm/src/pkm/config/toml.py     | 11 ++++++-----
 pkm/src/pkm/utils/processes.py |  5 +++--
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index c3498b3..7d05dfe 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -1,4 +1,5 @@
 import re
+from ast import literal_eval
 from copy import copy
 from dataclasses import dataclass
 from numbers import Number
@@ -416,13 +417,13 @@ class _TomlParser(SimpleParser):
     def read_multiline_basic_str(self) -> str:
         self.match_or_err('"""', 'multiline basic string expected')
         s = '"""' + self.until_match('"""')
-        while s[-1] == '\\':
+        while (len(s) - len(s.rstrip('\\'))) % 2:  # the quote is escaped
             s += self.next(3) + self.until_match('"""')
 
         s += '"""'
         self.match_or_err('"""', 'multiline basic string ending expected')
 
-        return eval(s)
+        return literal_eval(s)
 
     def read_multiline_literal_str(self) -> str:
         self.match_or_err("'''", 'multiline literal string expected')
@@ -433,13 +434,13 @@ class _TomlParser(SimpleParser):
     def read_basic_str(self) -> str:
         self.match_or_err('"', 'basic string expected')
         s = '"' + self.until_match('"')
-        while s[-1] == '\\':
+        while (len(s) - len(s.rstrip('\\'))) % 2:  # the quote is escaped
             s += self.next() + self.until_match('"')
 
         s += '"'
         self.match_or_err('"', 'basic string ending expected')
 
-        return eval(s)
+        return literal_eval(s)
 
     def read_literal_str(self) -> str:
         self.match_or_err("'", 'literal string expected')
@@ -547,7 +548,7 @@ class _TomlParser(SimpleParser):
         if not nstr:
             self.raise_err("number expected")
 
-        return eval(nstr)
+        return literal_eval(nstr)
 
     def read_bool(self) -> bool:
         if self.match('true'):
diff --git a/pkm/src/pkm/utils/processes.py b/pkm/src/pkm/utils/processes.py
index 26063e4..ff661df 100644
--- a/pkm/src/pkm/utils/processes.py
+++ b/pkm/src/pkm/utils/processes.py
@@ -2,6 +2,7 @@ import os
 import platform
 import subprocess
 import sys
+from ast import literal_eval
 from dataclasses import dataclass
 from subprocess import CompletedProcess
 from typing import List, NoReturn, Mapping
@@ -62,13 +63,13 @@ class _CommandParser(SimpleParser):
             self.raise_err("expecting start of string")
 
         s = quotes + self.until_match(quotes)
-        while s[-1] == '\\':
+        while (len(s) - len(s.rstrip('\\'))) % 2:  # the quote is escaped
             s += self.next() + self.until_match(quotes)
 
         s += quotes
         self.match_or_err(quotes, 'basic string ending expected')
 
-        return eval(s)
+        return literal_eval(s)
 
 
 def split_command(cmd: str) -> List[str]:
-- 
2.43.0


From 01416ae2295e6c929d98eb8db8c912b43a0eff18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 12/69] fix: a failing attached task or task description is no
 longer treated as success

---
 pkm-cli/src/pkm_cli/api/tasks/tasks_runner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkm-cli/src/pkm_cli/api/tasks/tasks_runner.py b/pkm-cli/src/pkm_cli/api/tasks/tasks_runner.py
index bff4d97..500e5fe 100644
--- a/pkm-cli/src/pkm_cli/api/tasks/tasks_runner.py
+++ b/pkm-cli/src/pkm_cli/api/tasks/tasks_runner.py
@@ -145,6 +145,8 @@ class _Task:
                         str(self.project.attached_environment.interpreter_path), "execute.py"], cwd=tdir,
                         capture_output=capture, text=capture)
 
+                    if mode != 'run':  # only the exit code of a task that is run by the user is handed back
+                        result.check_returncode()
                     if capture:
                         return result.stdout.strip()
                     return result.returncode
-- 
2.43.0


From 0bb57ce540b07778e902bc590a826d6bc6831e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 13/69] fix: members of tar archives cannot be extracted
 outside of the target directory

---
 pkm/src/pkm/utils/archives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/utils/archives.py b/pkm/src/pkm/utils/archives.py
index ec77799..c4c40d6 100644
--- a/pkm/src/pkm/utils/archives.py
+++ b/pkm/src/pkm/utils/archives.py
@@ -14,9 +14,9 @@ def extract_archive(archive_path: Path, target_directory: Path):
             z.extractall(target_directory)
     elif archive_path.name.endswith('.tar.gz'):
         with tarfile.open(archive_path) as tar:
-            tar.extractall(target_directory)
+            tar.extractall(target_directory, filter='data')
     elif archive_path.name.endswith(".tar.bz2"):
         with tarfile.open(archive_path, 'r:bz2') as tar:
-            tar.extractall(target_directory)
+            tar.extractall(target_directory, filter='data')
     else:
         raise UnsupportedOperation(f"does not support archive {archive_path.name}")
-- 
2.43.0


From c536ad8738fe3d5899cc248bf6997637c5f42e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 14/69] fix: the name of an entry point cannot place its
 executable in another directory

---
 pkm/src/pkm/launchers/__init__.py    | 10 ++++++++++
 pkm/src/pkm/launchers/executables.py |  3 ++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/launchers/__init__.py b/pkm/src/pkm/launchers/__init__.py
index f0746cd..fadbccb 100644
--- a/pkm/src/pkm/launchers/__init__.py
+++ b/pkm/src/pkm/launchers/__init__.py
@@ -13,6 +13,15 @@ if TYPE_CHECKING:
     from pkm.api.environments.environment import Environment
 
 
+def validate_executable_name(file_name: str):
+    """
+    :param file_name: the base name of an executable that is about to be created
+    :raise ValueError: if the given `file_name` is not a plain name but leads to another directory
+    """
+    if Path(file_name).name != file_name:
+        raise ValueError(f"illegal executable name: {file_name!r}")
+
+
 def build_windows_script_launcher(
         env: "Environment", target_dir: Path, file_name: str, script: str, is_gui: bool = False) -> Path:
     """
@@ -29,6 +38,7 @@ def build_windows_script_launcher(
         :return: path to the created launcher
         """
 
+    validate_executable_name(file_name)
     op_plat = env.operating_platform
     arch_suffix = '-arm' if op_plat.has_arm_cpu() else ''
     launcher_kind = 't' if is_gui else 'w'
diff --git a/pkm/src/pkm/launchers/executables.py b/pkm/src/pkm/launchers/executables.py
index c04d77c..d3a2627 100644
--- a/pkm/src/pkm/launchers/executables.py
+++ b/pkm/src/pkm/launchers/executables.py
@@ -5,7 +5,7 @@ from pathlib import Path
 from typing import TYPE_CHECKING
 
 from pkm.api.distributions.distinfo import EntryPoint
-from pkm.launchers import build_windows_script_launcher
+from pkm.launchers import build_windows_script_launcher, validate_executable_name
 
 if TYPE_CHECKING:
     from pkm.api.environments.environment import Environment
@@ -47,6 +47,7 @@ class Executables:
         :param is_gui: if True, and in windows platform, will create a "gui" script, defaults to False.
         :return: path to the created executable
         """
+        validate_executable_name(file_name)
         target_dir.mkdir(exist_ok=True, parents=True)
         if env.operating_platform.has_windows_os():
             return build_windows_script_launcher(env, target_dir, file_name, script, is_gui)
-- 
2.43.0


From 40463692765f7f6d571741281b2871575ae2bc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 15/69] fix: the file list of a conda package cannot lead out
 of the installation target

---
 .../conda-pkm-repo/src/conda_pkm_repo/conda_distribution.py    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/repositories/conda-pkm-repo/src/conda_pkm_repo/conda_distribution.py b/repositories/conda-pkm-repo/src/conda_pkm_repo/conda_distribution.py
index be7cfcd..e27b6af 100644
--- a/repositories/conda-pkm-repo/src/conda_pkm_repo/conda_distribution.py
+++ b/repositories/conda-pkm-repo/src/conda_pkm_repo/conda_distribution.py
@@ -132,6 +132,9 @@ class CondaDistribution(Distribution):
                 purelib_in_package_path = tdir / purelib_path.relative_to(data_path)
                 for file in files_to_link:
                     path = Path(file)
+                    if path.is_absolute() or '..' in path.parts:
+                        raise InstallationException(f"path: {path} leads out of the package")
+
                     precomputed_hash = signatures_by_path[path]
                     path = relocated_files.get(path, path)
 
-- 
2.43.0


From 6490210bbde7fc0f979b1726d6cb255e4bbae918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 16/69] fix: urls with '..' segments cannot lead out of the
 http cache

---
 pkm/src/pkm/utils/http/http_client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 22e4a06..c67c19f 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -1,6 +1,7 @@
 import email.utils as eu
 import hashlib
 import json
+import posixpath
 import shutil
 import socket
 from collections import deque
@@ -306,7 +307,7 @@ class HttpClient:
 
     def _resource_files_of(self, url: Url) -> FetchedResource:
         url_hash = hashlib.md5(str(url).encode('ascii')).hexdigest()
-        url_path = Path(url.path.lstrip('/'))
+        url_path = Path(posixpath.normpath('/' + url.path).lstrip('/'))  # '..' may not lead out of the workspace
 
         if url_path.parent:
             cache_dir = self.workspace / url.host / url_path.parent / url_hash
-- 
2.43.0


From 6d8a5a494f8a9bacbdc4ae274035365bb53b289e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 17/69] fix: git urls and branches cannot lead out of the
 repository workspace

---
 pkm/src/pkm/repositories/git_repository.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/repositories/git_repository.py b/pkm/src/pkm/repositories/git_repository.py
index 18e32f3..1220ee1 100644
--- a/pkm/src/pkm/repositories/git_repository.py
+++ b/pkm/src/pkm/repositories/git_repository.py
@@ -89,9 +89,10 @@ class GitRepository(AbstractRepository):
         else:
             raise ValueError(f"malformed git url: {url}")
 
-        target_dir = self._workspace / dependency.package_name / url.host / url.path.lstrip('/')
-        if branch:
-            target_dir /= branch
+        target_path = Path(dependency.package_name, url.host, url.path.lstrip('/'), branch or '')
+        if target_path.is_absolute() or '..' in target_path.parts:
+            raise ValueError(f"malformed git url: {version.url}")
+        target_dir = self._workspace / target_path
 
         if target_dir.exists():
             self._git_client.update(dependency.package_name, target_dir)
-- 
2.43.0


From 109f58b79bbc517edcc39bc9e53092f26eaf14a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:20 +0000
Subject: [PATCH 18/69] fix: hash versions consistently with their equality
 (implicit epoch, url protocol)

---
 pkm/src/pkm/api/versions/version.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/versions/version.py b/pkm/src/pkm/api/versions/version.py
index 74b6711..ca8f53b 100644
--- a/pkm/src/pkm/api/versions/version.py
+++ b/pkm/src/pkm/api/versions/version.py
@@ -64,6 +64,9 @@ class UrlVersion(Version):
     def __eq__(self, other) -> bool:
         return isinstance(other, UrlVersion) and self.protocol == other.protocol and self.url == other.url
 
+    def __hash__(self):
+        return hash((self.protocol, self.url))
+
     def __str__(self):
         if self._protocol:
             return self._protocol + "+" + self.url
@@ -134,7 +137,7 @@ class StandardVersion(Version):
 
     def __hash__(self):
         s = self.standartize()
-        return hash((s.release, s.epoch, s.dev_release, s.post_release, s.pre_release, s.local_label))
+        return hash((s.release, s.epoch or 0, s.dev_release, s.post_release, s.pre_release, s.local_label))
 
     def is_pre_or_dev_release(self) -> bool:
         return self.pre_release is not None or self.dev_release is not None
-- 
2.43.0


From f81732b566321682f1c04d7367c0bf7416323f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:49 +0000
Subject: [PATCH 19/69] fix: uniting a version union with another leaves the
 other union's segments alone

---
 pkm/src/pkm/api/versions/version_specifiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index 18408b6..b334caf 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -207,7 +207,7 @@ class VersionsUnion(VersionSpecifier):
             return other.union_with(self)
 
         new_segments = [*self.segments]
-        other_segments = other.segments if isinstance(other, VersionsUnion) else [other]
+        other_segments = [*other.segments] if isinstance(other, VersionsUnion) else [other]
 
         while other_segments:
             os = other_segments.pop()
-- 
2.43.0


From 40a118757cdaaf68703385bdb6c4281de8460e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:14 +0000
Subject: [PATCH 20/69] fix: a path resides in a directory by its components,
 not by its text

---
 pkm/src/pkm/utils/files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/utils/files.py b/pkm/src/pkm/utils/files.py
index ce57cfc..ccc3fb1 100644
--- a/pkm/src/pkm/utils/files.py
+++ b/pkm/src/pkm/utils/files.py
@@ -278,7 +278,8 @@ def is_relative_to(path: Path, root: Path) -> bool:
     :param root: the path that may contain `path`
     """
 
-    return str(path.absolute()).startswith(str(root.absolute()))
+    path, root = path.absolute(), root.absolute()
+    return path == root or root in path.parents
 
 
 def dir_size(directory: Path) -> int:
-- 
2.43.0


From c55caac175a9df28efb0255d071800fdb89ee484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:17 +0000
Subject: [PATCH 21/69] fix: the installed files of a package are the recorded
 files and not what they link to

---
 pkm/src/pkm/api/distributions/distinfo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/distinfo.py b/pkm/src/pkm/api/distributions/distinfo.py
index df9e68a..752ebd9 100644
--- a/pkm/src/pkm/api/distributions/distinfo.py
+++ b/pkm/src/pkm/api/distributions/distinfo.py
@@ -201,8 +201,8 @@ class DistInfo(Serializable):
         """
         root = self.path.parent
         for record in self.load_record_cfg().records:
-            file = Path(root, record.file).resolve()
-            yield file
+            file = Path(root, record.file)
+            yield file.parent.resolve() / file.name  # the recorded file itself, also when it is a symlink
 
         yield self.record_path()
 
-- 
2.43.0


From 1070fabcb2e8c0e558200820c0bc99fb2d2affad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:13 +0000
Subject: [PATCH 22/69] fix: conda artifacts are chosen only if their python
 requirement admits the interpreter

---
 .../conda-pkm-repo/src/conda_pkm_repo/conda_channel_subdir.py    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/repositories/conda-pkm-repo/src/conda_pkm_repo/conda_channel_subdir.py b/repositories/conda-pkm-repo/src/conda_pkm_repo/conda_channel_subdir.py
index 513987e..b5f2ac4 100644
--- a/repositories/conda-pkm-repo/src/conda_pkm_repo/conda_channel_subdir.py
+++ b/repositories/conda-pkm-repo/src/conda_pkm_repo/conda_channel_subdir.py
@@ -205,6 +205,7 @@ class CondaSubdirPackage(Package):
             a: (tag_score, a.build_number())
             for a in self.artifacts
             if (tag_score := env.compatibility_tag_score(a.compatibility_tag)) is not None
+               and a.required_python.allows_version(env.interpreter_version)
                and all(d.version_spec is not RestrictAllVersions for d in a.dependencies(env, []))  # noqa
         }
 
-- 
2.43.0


From 5f0706d1aa697e6d617b9910ebea621280aadcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:13 +0000
Subject: [PATCH 23/69] fix: shared artifacts are scored by the compatibility
 tags they have

---
 pkm/src/pkm/repositories/shared_pacakges_repo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/repositories/shared_pacakges_repo.py b/pkm/src/pkm/repositories/shared_pacakges_repo.py
index dfa145f..39dfa20 100644
--- a/pkm/src/pkm/repositories/shared_pacakges_repo.py
+++ b/pkm/src/pkm/repositories/shared_pacakges_repo.py
@@ -117,7 +117,7 @@ class _SharedPackage(Package):
         try:
             return max(
                 ((a, s) for a in self._artifacts
-                 if (s := env.compatibility_tag_score(a.compatibility_tag)) is not None),
+                 if (s := env.compatibility_tag_score(a.compatibility_tags)) is not None),
                 key=lambda it: it[1]
             )[0]
         except ValueError:
-- 
2.43.0


From 8e6bde0638a70f47e5be01a076f23e7a34abe6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:41 +0000
Subject: [PATCH 24/69] fix: a project repository serves only versions the
 requirement allows

---
 pkm/src/pkm/api/repositories/repository_management.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/repositories/repository_management.py b/pkm/src/pkm/api/repositories/repository_management.py
index fe0d330..d04c968 100644
--- a/pkm/src/pkm/api/repositories/repository_management.py
+++ b/pkm/src/pkm/api/repositories/repository_management.py
@@ -266,7 +266,8 @@ class ProjectsRepository(AbstractRepository):
     def _do_match(self, dependency: Dependency, env: Environment) -> List[Package]:
         if not dependency.required_url():
             if matched_projects := self._packages.get(dependency.package_name_key):
-                return self._sorted_by_version([project for project in matched_projects])
+                return self._sorted_by_version([
+                    project for project in matched_projects if dependency.version_spec.allows_version(project.version)])
         if self._base_repo:
             return self._base_repo.match(dependency, env)
         return []
-- 
2.43.0


From 58a042741ff517e97a74591e39bb3235fd9bcf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:41 +0000
Subject: [PATCH 25/69] fix: no match, not a TypeError, for a url no repository
 serves

---
 pkm/src/pkm/api/repositories/repository_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/repositories/repository_loader.py b/pkm/src/pkm/api/repositories/repository_loader.py
index 93f9ade..29908b8 100644
--- a/pkm/src/pkm/api/repositories/repository_loader.py
+++ b/pkm/src/pkm/api/repositories/repository_loader.py
@@ -164,7 +164,7 @@ class _CompositeRepository(AbstractRepository):
             for repo in self._url_handlers[url.protocol]:
                 if match := repo.match(dependency, env):
                     return match
-            raise []
+            return []
 
         if repo_name := self._package_binding.get(dependency.package_name):
             if not (repo := first_or_none(it for it in self._package_search_list if it.name == repo_name)):
-- 
2.43.0


From 8f7d1169369a2a7debc36e7ecdbace7ce8a0c6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:24 +0000
Subject: [PATCH 26/69] fix: shared packages are serialized the same way
 whatever package they wrap

---
 pkm/src/pkm/repositories/shared_pacakges_repo.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pkm/src/pkm/repositories/shared_pacakges_repo.py b/pkm/src/pkm/repositories/shared_pacakges_repo.py
index 39dfa20..fbdbb18 100644
--- a/pkm/src/pkm/repositories/shared_pacakges_repo.py
+++ b/pkm/src/pkm/repositories/shared_pacakges_repo.py
@@ -17,7 +17,6 @@ from pkm.api.repositories.repository import AbstractRepository, Repository
 from pkm.launchers.executables import Executables
 from pkm.utils.commons import NoSuchElementException
 from pkm.utils.files import CopyTransaction, is_empty_directory, is_relative_to
-from pkm.utils.types import Serializable
 from pkm.utils.iterators import first_or_none
 
 
@@ -92,9 +91,6 @@ class _SharedPackage(Package):
         self._package = package
         self._shared_path = shared_path
 
-        if isinstance(package, Serializable):
-            self.__getstate__ = self._getstate
-
         if shared_path.exists():
             self._artifacts = [
                 _SharedPackageArtifact(artifact, PackageMetadata.load(artifact / "dist-info/METADATA"), artifact.name)
@@ -103,7 +99,7 @@ class _SharedPackage(Package):
         else:
             self._artifacts = []
 
-    def _getstate(self):
+    def __getstate__(self):
         return [self._package, self._shared_path]
 
     def __setstate__(self, state):
-- 
2.43.0


From deeda6dff12612baabc549e43b15feb816c09745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:15 +0000
Subject: [PATCH 27/69] fix: check the digest in the fragment of a required url

---
 pkm/src/pkm/repositories/url_repository.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/repositories/url_repository.py b/pkm/src/pkm/repositories/url_repository.py
index 528fc69..9594783 100644
--- a/pkm/src/pkm/repositories/url_repository.py
+++ b/pkm/src/pkm/repositories/url_repository.py
@@ -1,7 +1,9 @@
+import re
 from pathlib import Path
 from typing import List, Iterable
 
 from pkm.api.dependencies.dependency import Dependency
+from pkm.api.distributions.wheel_distribution import InstallationException
 from pkm.api.environments.environment import Environment
 from pkm.api.packages.package import Package, PackageDescriptor
 from pkm.api.packages.standard_package import PackageArtifact, AbstractPackage
@@ -10,6 +12,8 @@ from pkm.api.repositories.repository import AbstractRepository
 from pkm.utils.http.http_client import Url
 from pkm.utils.types import Serializable
 
+_DIGEST_FRAGMENT_RX = re.compile(r"(?:^|&)(md5|sha1|sha224|sha256|sha384|sha512)=([^&]+)")
+
 
 class UrlRepository(AbstractRepository):
 
@@ -41,4 +45,10 @@ class UrlPackage(AbstractPackage, Serializable):
         self.__init__(*state)
 
     def _retrieve_artifact(self, artifact: PackageArtifact) -> Path:
-        return pkm.httpclient.fetch_resource(str(self._url)).data
+        resource = pkm.httpclient.fetch_resource(str(self._url))
+
+        if digest := _DIGEST_FRAGMENT_RX.search(Url.parse(self._url).fragment):
+            if not resource.is_hash_valid(digest.group(1), digest.group(2)):
+                raise InstallationException(f"Invalid hash for a resource received from {self._url}")
+
+        return resource.data
-- 
2.43.0


From f9a80607ae815be1a8f1d37a89532b45bfd373ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:16 +0000
Subject: [PATCH 28/69] fix: check the digest published for a conda package
 before unpacking it

---
 .../src/conda_pkm_repo/conda_channel_subdir.py         | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/repositories/conda-pkm-repo/src/conda_pkm_repo/conda_channel_subdir.py b/repositories/conda-pkm-repo/src/conda_pkm_repo/conda_channel_subdir.py
index b5f2ac4..5dbdc67 100644
--- a/repositories/conda-pkm-repo/src/conda_pkm_repo/conda_channel_subdir.py
+++ b/repositories/conda-pkm-repo/src/conda_pkm_repo/conda_channel_subdir.py
@@ -6,6 +6,7 @@ from dataclasses import replace, dataclass
 from typing import Dict, Any, Optional, List, cast, Tuple
 
 from pkm.api.dependencies.dependency import Dependency
+from pkm.api.distributions.wheel_distribution import InstallationException
 from pkm.api.packages.package_installation_info import PackageInstallationInfo, StoreMode
 from pkm.api.environments.environment import Environment, OperatingPlatform
 from pkm.api.packages.package import Package, PackageDescriptor
@@ -235,7 +236,12 @@ class CondaSubdirPackage(Package):
             raise UnsupportedOperationException("asking to install inside unsupported environment")
 
         url = f"{artifact.container.channel}/{artifact.container.subdir}/{artifact.artifact}"
-        artifact_path = pkm.httpclient.fetch_resource(url).data
-        dist = CondaDistribution(self.descriptor, artifact_path)
+        resource = pkm.httpclient.fetch_resource(url)
+
+        hash_function = 'sha256' if artifact.info.get('sha256') else 'md5'
+        if (hash_value := artifact.info.get(hash_function)) and not resource.is_hash_valid(hash_function, hash_value):
+            raise InstallationException(f"Invalid hash for a resource received from {url}")
+
+        dist = CondaDistribution(self.descriptor, resource.data)
         dist.install_to(target, user_request, PackageInstallationInfo(
             compatibility_tag=artifact.compatibility_tag, store_mode=StoreMode.COPY))
-- 
2.43.0


From 63947407a6edc2f1099d86f4a02cfedfea324f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:15 +0000
Subject: [PATCH 29/69] fix: a failed uninstall of project dependencies
 restores the configuration, files are written last

uninstall_dependencies left the in-memory dependency lists changed when it failed; install and uninstall wrote
pyproject.toml before the lock was computed, so that a failure to do so left the two files inconsistent.
---
 .../src/pkm_cli/controllers/prj_controller.py | 30 ++++++++++++-------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/pkm-cli/src/pkm_cli/controllers/prj_controller.py b/pkm-cli/src/pkm_cli/controllers/prj_controller.py
index 061c83b..970a887 100644
--- a/pkm-cli/src/pkm_cli/controllers/prj_controller.py
+++ b/pkm-cli/src/pkm_cli/controllers/prj_controller.py
@@ -30,18 +30,27 @@ class PrjController:
         def filter_dep(deps: List[Dependency]):
             return [d for d in deps if d.package_name_key not in package_names_set]
 
-        prj.config.project.dependencies = filter_dep(project_dependencies)
-        prj.config.project.optional_dependencies = {g: filter_dep(d) for g, d in project_optional_deps.items()}
+        prj_config = prj.config.project
+        prev_dependencies, prev_optional_dependencies = prj_config.dependencies, prj_config.optional_dependencies
 
-        prj.update_at(prj.attached_environment.installation_target)
-        removed = prj.attached_environment.uninstall(packages, force)
-        Display.print(f"Packages Removed: {', '.join(removed)}")
+        try:
+            prj_config.dependencies = filter_dep(project_dependencies)
+            prj_config.optional_dependencies = {g: filter_dep(d) for g, d in project_optional_deps.items()}
+
+            prj.update_at(prj.attached_environment.installation_target)
+            removed = prj.attached_environment.uninstall(packages, force)
+            Display.print(f"Packages Removed: {', '.join(removed)}")
 
-        Display.print("Updating pyproject & lock")
-        prj.config.save()
-        prj.lock.update_lock(prj.attached_environment).save()
+            Display.print("Updating pyproject & lock")
+            lock = prj.lock.update_lock(prj.attached_environment)
+            prj.config.save()
+            lock.save()
 
-        Display.print("Operation Completed Successfully")
+            Display.print("Operation Completed Successfully")
+        except Exception as e:
+            prj_config.dependencies = prev_dependencies
+            prj_config.optional_dependencies = prev_optional_dependencies
+            raise e
 
     def install_dependencies(
             self, dependencies: List[Dependency], optional_group: Optional[str] = None, update: bool = False,
@@ -78,8 +87,9 @@ class PrjController:
                         .index_of_matching(lambda it: it.package_name_key == dependency.package_name_key)
                     configured_dependencies[dependency_index] = installed.descriptor.to_dependency(generalize=True)
 
+            lock = self.prj.lock.update_lock(self.prj.attached_environment)
             self.prj.config.save()
-            self.prj.lock.update_lock(self.prj.attached_environment).save()
+            lock.save()
             Display.print("Operation Completed Successfully")
         except Exception as e:
             configured_dependencies.clear()
-- 
2.43.0


From 77c08738d17e0636fecee58d0918bbc3f43b59ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:00 +0000
Subject: [PATCH 30/69] fix: values computed from the project's dependency
 lists are not cached, the lists change

after a failed install (or a second install in one process) the resolver and the built metadata still saw the
dependencies of the previous operation.
---
 pkm/src/pkm/api/projects/project.py                 | 2 +-
 pkm/src/pkm/api/projects/pyproject_configuration.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/projects/project.py b/pkm/src/pkm/api/projects/project.py
index 46b8458..cff8a1d 100644
--- a/pkm/src/pkm/api/projects/project.py
+++ b/pkm/src/pkm/api/projects/project.py
@@ -82,7 +82,7 @@ class Project(Package, HasAttachedRepository, Serializable):
         """
         return self._path
 
-    @cached_property
+    @property
     def published_metadata(self) -> Optional[PackageMetadata]:
         return PackageMetadata.from_project_config(self.config.project)
 
diff --git a/pkm/src/pkm/api/projects/pyproject_configuration.py b/pkm/src/pkm/api/projects/pyproject_configuration.py
index 4ae90da..a260ddd 100644
--- a/pkm/src/pkm/api/projects/pyproject_configuration.py
+++ b/pkm/src/pkm/api/projects/pyproject_configuration.py
@@ -189,7 +189,7 @@ class ProjectConfig:
         """
         return (d := self.dynamic) and field in d  # noqa
 
-    @cached_property
+    @property
     def all_dependencies(self) -> List[Dependency]:
         all_deps = [d for d in (self.dependencies or [])]
         optional_deps = self.optional_dependencies or {}
-- 
2.43.0


From e4919c5c4d7733c0bedb70714e62126a8c567507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:06 +0000
Subject: [PATCH 31/69] fix: saving a configuration no longer replaces declared
 sections by undeclared neighbours

the undeclared keys were written last with a shallow update: a pyproject.toml with [tool.pkm.application] and
[tool.black] lost the former when it was saved. They are now merged level by level.
---
 pkm/src/pkm/config/configclass.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/config/configclass.py b/pkm/src/pkm/config/configclass.py
index 39b3f94..e00f5c6 100644
--- a/pkm/src/pkm/config/configclass.py
+++ b/pkm/src/pkm/config/configclass.py
@@ -269,6 +269,14 @@ def _shove_key(config_: _RAW_CONFIG_T, key: str, value: Any):
     config_[parts[-1]] = value
 
 
+def _merge_missing(config_: _RAW_CONFIG_T, other: Mapping[str, Any]):
+    for key, value in other.items():
+        if key not in config_:
+            config_[key] = value
+        elif isinstance(value, Mapping) and isinstance(config_[key], Mapping):
+            _merge_missing(config_[key], value)
+
+
 class ConfigCodec:
 
     def __init__(self, field_codecs: Mapping[Type, ConfigFieldCodec] = None):
@@ -346,7 +354,7 @@ class ConfigCodec:
             value = getattr(config_object, field, None)
             if value is not None:
                 if schema.leftover:
-                    target_config.update(value)
+                    _merge_missing(target_config, value)
                     continue
                 elif codec := schema.codec or self.field_codec_for_or_none(schema.type):
                     try:
-- 
2.43.0


From 66ee4295c31cd53e492bff506d5d8fa7317da63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:06 +0000
Subject: [PATCH 32/69] fix: package-bindings can be read and written

there is no codec for Mapping: every repositories.toml with bindings failed to load and every attempt to save one
failed. Keys that the class does not declare are kept.
---
 pkm/src/pkm/api/repositories/repositories_configuration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/repositories/repositories_configuration.py b/pkm/src/pkm/api/repositories/repositories_configuration.py
index 99f9925..ff74a01 100644
--- a/pkm/src/pkm/api/repositories/repositories_configuration.py
+++ b/pkm/src/pkm/api/repositories/repositories_configuration.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 from dataclasses import dataclass
 from enum import Enum
-from typing import Any, Dict, Mapping
+from typing import Any, Dict
 
 from pkm.config.configclass import config, config_field, ConfigFile
 from pkm.config.configfiles import TomlConfigIO
@@ -29,7 +29,8 @@ class RepositoryInstanceConfig:
 class RepositoriesConfiguration(ConfigFile):
     repos: Dict[str, RepositoryInstanceConfig] = config_field(default_factory=dict)
     inheritance: str = "context"
-    package_bindings: Mapping[str, Any] = config_field(key="package-bindings", default_factory=dict)
+    package_bindings: Dict[str, Any] = config_field(key="package-bindings", default_factory=dict)
+    leftovers = config_field(leftover=True)
 
     @cached_property
     def inheritance_mode(self) -> RepositoriesConfigInheritanceMode:
-- 
2.43.0


From 7bd7e2d0377b2c12699897e0c9e1bfb78e010626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:06 +0000
Subject: [PATCH 33/69] fix: configuration classes keep undeclared keys and do
 not rewrite what they loaded

tool.pkm.project packages/group had a type without codec and could not be read, unknown keys of [build-system],
[tool.pkm.*] and the project group file were dropped on save, author names were quoted again on every save.
---
 pkm/src/pkm/api/packages/package_metadata.py     |  4 ++--
 pkm/src/pkm/api/projects/project_group.py        |  1 +
 .../pkm/api/projects/pyproject_configuration.py  | 16 +++++++++++-----
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_metadata.py b/pkm/src/pkm/api/packages/package_metadata.py
index 84360f6..7f46ebf 100644
--- a/pkm/src/pkm/api/packages/package_metadata.py
+++ b/pkm/src/pkm/api/packages/package_metadata.py
@@ -101,10 +101,10 @@ class PackageMetadata(ConfigFile):
         #    with the format {name} <{email}> (with appropriate quoting, e.g. using email.headerregistry.Address).
         # 4. Multiple values should be separated by commas.
 
-        author_names = [a.name for a in (prjc.authors or []) if a.name]
+        author_names = [a.formatted_name() for a in (prjc.authors or []) if a.name]
         author_emails = [a.email for a in (prjc.authors or []) if a.email]
 
-        maintainer_names = [a.name for a in (prjc.authors or []) if a.name]
+        maintainer_names = [a.formatted_name() for a in (prjc.authors or []) if a.name]
         maintainer_emails = [a.email for a in (prjc.authors or []) if a.email]
 
         extras = list((prjc.optional_dependencies or {}).keys())
diff --git a/pkm/src/pkm/api/projects/project_group.py b/pkm/src/pkm/api/projects/project_group.py
index ee85537..f581e78 100644
--- a/pkm/src/pkm/api/projects/project_group.py
+++ b/pkm/src/pkm/api/projects/project_group.py
@@ -177,6 +177,7 @@ class PyProjectGroupConfiguration(ConfigFile):
     _name: str = config_field(key="name")
     children: List[Path] = config_field(default_factory=list)
     parent: Path = None
+    leftovers = config_field(leftover=True)
 
     @property
     def resolved_children(self) -> Iterable[Path]:
diff --git a/pkm/src/pkm/api/projects/pyproject_configuration.py b/pkm/src/pkm/api/projects/pyproject_configuration.py
index a260ddd..113d60b 100644
--- a/pkm/src/pkm/api/projects/pyproject_configuration.py
+++ b/pkm/src/pkm/api/projects/pyproject_configuration.py
@@ -27,6 +27,7 @@ class BuildSystemConfig:
         default_factory=lambda: [Dependency.parse('setuptools'), Dependency.parse('wheel'), Dependency.parse('pip')])
     build_backend: str = config_field(key='build-backend', default='setuptools.build_meta:__legacy__')
     backend_path: List[str] = config_field(key='backend-path')
+    leftovers = config_field(leftover=True)
 
 
 _contect_info_charset = Charset('utf-8')
@@ -38,20 +39,22 @@ class ContactInfo:
     name: str = None
     email: str = None
 
-    def __post_init__(self):
+    leftovers = config_field(leftover=True)
+
+    def formatted_name(self) -> str:
         """
         adjusted from source of email.utils.formataddr, make sure the given name is according to rfc822
         """
         try:
             self.name.encode('ascii')
         except UnicodeEncodeError:
-            self.name = _contect_info_charset.header_encode(self.name)
+            return _contect_info_charset.header_encode(self.name)
         else:
             quotes = ''
             if specialsre.search(self.name):
                 quotes = '"'
             name = escapesre.sub(r'\\\g<0>', self.name)
-            self.name = f"{quotes}{name}{quotes}"
+            return f"{quotes}{name}{quotes}"
 
 
 def _entrypoints_from_config(group: str, ep: Dict[str, str]) -> List[EntryPoint]:
@@ -71,6 +74,7 @@ PKM_DIST_CFG_TYPE_NONE = "none"
 @config
 class PkmDistributionConfig:
     type: str  # lib, cnt-app
+    leftovers = config_field(leftover=True)
 
 
 @dataclass(eq=True)
@@ -80,13 +84,15 @@ class PkmApplicationConfig:
     dependencies: List[Dependency]
     dependency_overwrites: Dict[str, Dependency] = config_field(key='dependency-overwrites')
     exposed_packages: List[str] = config_field(key='exposed-packages')
+    leftovers = config_field(leftover=True)
 
 
 @dataclass(eq=True)
 @config
 class PkmProjectConfig:
-    packages: Optional[List[str]] = None
-    group: Optional[str] = None  # TODO: remove group and use conventions only?
+    packages: List[str] = None
+    group: str = None  # TODO: remove group and use conventions only?
+    leftovers = config_field(leftover=True)
 
 
 class _TextOrFileConfigFieldCodec(ConfigFieldCodec):
-- 
2.43.0


From 308e235f0ebc950e7f9dbbf8340d4edfa2fd58b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:32 +0000
Subject: [PATCH 34/69] fix: delete_environment only deletes environments of
 the zoo

The name was joined to the zoo path and deleted recursively whatever it led to ('..', '../other', '').
---
 pkm/src/pkm/api/environments/environments_zoo.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/environments_zoo.py b/pkm/src/pkm/api/environments/environments_zoo.py
index b9e7f4a..5d4f11c 100644
--- a/pkm/src/pkm/api/environments/environments_zoo.py
+++ b/pkm/src/pkm/api/environments/environments_zoo.py
@@ -53,7 +53,10 @@ class EnvironmentsZoo(HasAttachedRepository, Serializable):
 
     def delete_environment(self, name: str):
         # shared repository gc
-        shutil.rmtree(self.path / name)
+        env_path = self.load_environment(name).path
+        if env_path.parent != self.path:
+            raise ValueError(f"{name} is not the name of an environment in this zoo")
+        shutil.rmtree(env_path)
 
     def clean_unused_shared(self):
         repo = self.attached_repository
-- 
2.43.0


From 3f747a7f2bd6d44f02e07cef939c5af40e3baeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:32 +0000
Subject: [PATCH 35/69] fix: keep an existing directory that is configured as
 the attached environment

A configured environment path that exists and is not an environment was deleted recursively.
---
 pkm/src/pkm/api/projects/project.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/projects/project.py b/pkm/src/pkm/api/projects/project.py
index cff8a1d..b51f512 100644
--- a/pkm/src/pkm/api/projects/project.py
+++ b/pkm/src/pkm/api/projects/project.py
@@ -21,7 +21,7 @@ from pkm.api.versions.version import StandardVersion, Version, NamedVersion
 from pkm.api.versions.version_specifiers import AllowAllVersions
 from pkm.resolution.packages_lock import PackagesLock
 from pkm.utils.commons import UnsupportedOperationException
-from pkm.utils.files import temp_dir
+from pkm.utils.files import is_empty_directory, temp_dir
 from pkm.utils.types import Serializable
 from pkm.utils.properties import cached_property, clear_cached_properties
 
@@ -227,6 +227,8 @@ class Project(Package, HasAttachedRepository, Serializable):
 
         if not Environment.is_venv_path(env_path):
             if env_path.exists():
+                if env_path != self.path / ".venv" and not is_empty_directory(env_path):
+                    raise FileExistsError(f"attached environment path: {env_path} is in use and is not an environment")
                 shutil.rmtree(env_path)
 
             return EnvironmentBuilder.create_matching(
-- 
2.43.0


From 97ad486569a2dc5b4a58ca152c907a2a89fbd277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:26 +0000
Subject: [PATCH 36/69] fix: pooled connections are given back clean, errors of
 a response's user are passed on

A connection whose response was not read to its end, or whose request failed, was reused as it was: the next
request failed (CannotSendRequest) or read what was left of the old response. A ConnectionError raised by the
code using a response was taken for a failed connection and retried.
---
 pkm/src/pkm/utils/http/http_client.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index c67c19f..dec7cf2 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -109,6 +109,14 @@ class _ConnectionProxy(Closeable):
     def __del__(self):
         self.close()
 
+    def discard(self):
+        """
+        close the connection itself (it connects again when it is used again),
+        for a connection that a request was sent on without reading the complete response
+        """
+        if self._conn is not None:
+            self._conn.close()
+
     def close(self):
         if self._conn is not None:
             # noinspection PyProtectedMember
@@ -334,6 +342,7 @@ class HttpClient:
 
         while num_connection_retries < self._max_connection_retries and num_redirects_performed <= max_redirects:
             with self._pool.connection_for(url) as conn:
+                delivered, reusable = False, False
                 try:
                     # print(f"[CONN] using connection {conn.number} to connect to {str(url)}")  # noqa
                     conn.request(mtd, url.resource_part(), headers=headers, body=payload)
@@ -349,14 +358,22 @@ class HttpClient:
                             else:
                                 url = Url.parse(new_location)
                             response.read()
+                            reusable = response.isclosed()
                         else:
+                            delivered = True
                             if response.headers.get('Content-Encoding') == 'gzip':
                                 yield cast(HTTPResponse, _GzipResponseWrapper(response))
                             else:
                                 yield response
+                            reusable = response.isclosed()
                             return
                 except ConnectionError:
+                    if delivered:
+                        raise
                     num_connection_retries += 1
+                finally:
+                    if not reusable:
+                        conn.discard()
 
         error = "max redirects reached" if num_redirects_performed > self._max_redirects else "connection failed"
         raise HttpException(error)
-- 
2.43.0


From 90845588a9bcd8f88bbf6230b28ed6f2b0782b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:02 +0000
Subject: [PATCH 37/69] fix: several requirements of a version on the same
 package all constrain the solution

---
 pkm/src/pkm/resolution/pubgrub.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/resolution/pubgrub.py b/pkm/src/pkm/resolution/pubgrub.py
index d877a77..861a876 100644
--- a/pkm/src/pkm/resolution/pubgrub.py
+++ b/pkm/src/pkm/resolution/pubgrub.py
@@ -479,9 +479,12 @@ class _PackageVersion:
     def fetch_dependencies_info(self, problem: Problem):
         if not self.dependencies:
             version_dependencies = problem.get_dependencies(self.term.package, self.version)
-            self.dependencies = {
-                d.package: PackageDependency(d)
-                for d in version_dependencies}
+            terms: Dict[PKG, Term] = {}
+            for d in version_dependencies:  # there may be several requirements on the same package
+                known = terms.get(d.package)
+                terms[d.package] = known.intersect(d) if known else d
+
+            self.dependencies = {package: PackageDependency(term) for package, term in terms.items()}
 
     def compute_incompatibilities(self) -> List[Incompatibility]:
         result: List[Incompatibility] = []
-- 
2.43.0


From f22e0911f56f519596adfca5e2ec1d1c9b90e879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:03 +0000
Subject: [PATCH 38/69] fix: a version that is tried again keeps the registered
 incompatibilities of its requirements

---
 pkm/src/pkm/resolution/pubgrub.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkm/src/pkm/resolution/pubgrub.py b/pkm/src/pkm/resolution/pubgrub.py
index 861a876..57c9386 100644
--- a/pkm/src/pkm/resolution/pubgrub.py
+++ b/pkm/src/pkm/resolution/pubgrub.py
@@ -489,6 +489,10 @@ class _PackageVersion:
     def compute_incompatibilities(self) -> List[Incompatibility]:
         result: List[Incompatibility] = []
         for dependency in self.dependencies.values():
+            if dependency.incompatibility:  # this version was tried before
+                result.append(dependency.incompatibility)
+                continue
+
             last_requiring = self
 
             while last_requiring.next:
-- 
2.43.0


From fb1c54971585d8f83d461407094c1b2dc686f81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:03 +0000
Subject: [PATCH 39/69] fix: shared packages ask for the requirements of the
 extras too

---
 pkm/src/pkm/repositories/shared_pacakges_repo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/repositories/shared_pacakges_repo.py b/pkm/src/pkm/repositories/shared_pacakges_repo.py
index fbdbb18..cffd1e7 100644
--- a/pkm/src/pkm/repositories/shared_pacakges_repo.py
+++ b/pkm/src/pkm/repositories/shared_pacakges_repo.py
@@ -126,7 +126,7 @@ class _SharedPackage(Package):
         if artifact := self._shared_artifact_for(target.env):
             deps = artifact.metadata.dependencies
         else:
-            deps = self._package.dependencies(target)
+            deps = self._package.dependencies(target, extras)
 
         return [d for d in deps if d.is_applicable_for(target.env, extras)]
 
-- 
2.43.0


From 5f8d0ccdb128a3233b2e769f2ff4402a99160508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:03 +0000
Subject: [PATCH 40/69] fix: packages of distribution files have the
 dependencies of their metadata

---
 pkm/src/pkm/api/distributions/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/distributions/distribution.py b/pkm/src/pkm/api/distributions/distribution.py
index 951743c..e950757 100644
--- a/pkm/src/pkm/api/distributions/distribution.py
+++ b/pkm/src/pkm/api/distributions/distribution.py
@@ -88,7 +88,7 @@ class _DistributionPackage(Package, Serializable):
     def dependencies(
             self, target: "PackageInstallationTarget",
             extras: Optional[List[str]] = None) -> List["Dependency"]:
-        return [d for d in self.published_metadata.dependencies if d.is_applicable_for(target.env, extras)]
+        return [d for d in self._metadata(target.env).dependencies if d.is_applicable_for(target.env, extras)]
 
     def is_compatible_with(self, env: "Environment") -> bool:
         from pkm.api.distributions.wheel_distribution import WheelDistribution
-- 
2.43.0


From 39de0051bc5339689111df439fc9a124dcdba5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:15 +0000
Subject: [PATCH 41/69] fix: apply dependency overrides also when a full
 resolution is needed

---
 pkm/src/pkm/api/packages/package_installation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index 384295b..9716781 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -187,7 +187,7 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
             installation_repo = _InstallationRepository(
                 repository, preinstalled_packages, user_request, unspecified_spec_packages, False)
             installation = resolve_dependencies(
-                user_request.to_dependency(), self, installation_repo)
+                user_request.to_dependency(), self, installation_repo, dependencies_override)
 
         user_requests = {**pre_requested_deps}
         if user_requested:
-- 
2.43.0


From 8911dd53b4967f58605a5e19fad230cee307dad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:34 +0000
Subject: [PATCH 42/69] fix: compare package descriptors by normalized name,
 and resolve and override packages by it

---
 pkm/src/pkm/api/packages/package.py           | 10 +++++++++-
 pkm/src/pkm/resolution/dependency_resolver.py |  9 +++++----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package.py b/pkm/src/pkm/api/packages/package.py
index 7e4c57f..6cffebc 100644
--- a/pkm/src/pkm/api/packages/package.py
+++ b/pkm/src/pkm/api/packages/package.py
@@ -18,7 +18,7 @@ if TYPE_CHECKING:
     from pkm.api.packages.package_installation import PackageInstallationTarget
 
 
-@dataclass(frozen=True)
+@dataclass(frozen=True, eq=False)
 class PackageDescriptor:
     name: str
     version: Version
@@ -43,6 +43,14 @@ class PackageDescriptor:
 
         super().__setattr__('name', PackageDescriptor.normalize_name(self.name).replace('_', '-'))
 
+    def __eq__(self, other):
+        if not isinstance(other, PackageDescriptor):
+            return NotImplemented
+        return self.name_key == other.name_key and self.version == other.version
+
+    def __hash__(self):
+        return hash((self.name_key, self.version))
+
     def to_dependency(self, generalize: bool = False) -> "Dependency":
         from pkm.api.dependencies.dependency import Dependency
 
diff --git a/pkm/src/pkm/resolution/dependency_resolver.py b/pkm/src/pkm/resolution/dependency_resolver.py
index 02e58b8..4c9564e 100644
--- a/pkm/src/pkm/resolution/dependency_resolver.py
+++ b/pkm/src/pkm/resolution/dependency_resolver.py
@@ -55,7 +55,8 @@ class _PkmPackageInstallationProblem(Problem):
         self._target = target
         self._repo = repo
         self._root = root
-        self._dependency_overrides = dependency_overrides or {}
+        self._dependency_overrides = {
+            PackageDescriptor.package_name_key(name): override for name, override in (dependency_overrides or {}).items()}
 
         from pkm.api.pkm import pkm
         self._threads = pkm.threads
@@ -91,7 +92,7 @@ class _PkmPackageInstallationProblem(Problem):
 
         for d in dependencies:
             if d.is_applicable_for(self._target.env, package.extras):
-                if o := self._dependency_overrides.get(d.package_name):
+                if o := self._dependency_overrides.get(d.package_name_key):
                     result.append(Term(_Pkg.of(o), o.version_spec))
                 else:
                     result.append(Term(_Pkg.of(d), d.version_spec))
@@ -105,7 +106,7 @@ class _PkmPackageInstallationProblem(Problem):
         packages = list({p.version: p for p in all_packages if p.is_compatible_with(self._target.env)}.values())
 
         for package in packages:
-            self.opened_packages[replace(package.descriptor, name=package.descriptor.name.lower())] = package
+            self.opened_packages[package.descriptor] = package
 
         return cast(List[StandardVersion], [p.version for p in packages if isinstance(p.version, StandardVersion)])
 
@@ -139,4 +140,4 @@ class _Pkg:
 
     @classmethod
     def of(cls, d: Dependency) -> _Pkg:
-        return _Pkg(d.package_name.lower(), d.extras)
+        return _Pkg(d.package_name_key.replace('_', '-'), d.extras)
-- 
2.43.0


From 2e6857a34691721481036512bb96f2524d30fe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:34 +0000
Subject: [PATCH 43/69] fix: match names of packages to remove, update and
 store by their normalized form

---
 .../pkm/api/packages/package_installation.py  | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index 9716781..2f93277 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -73,9 +73,9 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
         self.reload()
 
         preinstalled_packages = list(self.site_packages.installed_packages())
-        requested_deps = {p.name: p.user_request for p in preinstalled_packages if p.user_request}
+        requested_deps = {p.name_key: p.user_request for p in preinstalled_packages if p.user_request}
         for package_name in packages_to_remove:
-            requested_deps.pop(package_name, None)
+            requested_deps.pop(PackageDescriptor.package_name_key(package_name), None)
 
         user_request = _UserRequestPackage(list(requested_deps.values()))
         installation_repo = _RemovalRepository(preinstalled_packages, user_request)
@@ -83,14 +83,14 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
         installation = resolve_dependencies(user_request.to_dependency(), self, installation_repo)
         InstallationPlan(self, installation, {}).execute()
 
-        kept = {p.name for p in installation}
+        kept = {p.name_key for p in installation}
 
         for p in packages_to_remove:
-            if p in kept:
+            if PackageDescriptor.package_name_key(p) in kept:
                 self.site_packages.installed_package(p).dist_info.unmark_as_user_requested()
 
         self.reload()
-        return {p for p in packages_to_remove if p not in kept}
+        return {p for p in packages_to_remove if PackageDescriptor.package_name_key(p) not in kept}
 
     def install(
             self, dependencies: List[Dependency], repository: Optional[Repository] = None, user_requested: bool = True,
@@ -146,7 +146,7 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
 
         self.reload()
 
-        updates = set(updates or ())
+        updates = {PackageDescriptor.package_name_key(name) for name in (updates or ())}
         preinstalled_packages = [p for p in self.site_packages.installed_packages() if p.name_key not in updates]
         pre_requested_deps = {p.name_key: p.user_request for p in preinstalled_packages if p.user_request}
         unspecified_spec_packages = \
@@ -154,7 +154,7 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
                 d.package_name_key
                 for d in dependencies if d.version_spec is AllowAllVersions]
 
-        unspecified_spec_packages = set(unspecified_spec_packages)
+        unspecified_spec_packages = {PackageDescriptor.package_name_key(name) for name in unspecified_spec_packages}
 
         new_deps = {d.package_name_key: d for d in dependencies}
         all_deps = {**pre_requested_deps, **new_deps}
@@ -212,7 +212,8 @@ class InstallationPlan:
         self.store_modes: Optional[Dict[str, StoreMode]] = None
 
     def selected_package(self, name: str) -> Optional[Package]:
-        return first_or_none(it for it in self.packages if it.name == name)
+        name_key = PackageDescriptor.package_name_key(name)
+        return first_or_none(it for it in self.packages if it.name_key == name_key)
 
     def compute_operations_for_target(
             self, target: Optional[PackageInstallationTarget] = None) -> Dict[Package, PackageOperation]:
@@ -230,7 +231,8 @@ class InstallationPlan:
             for p in self.packages
             if not isinstance(p, _UserRequestPackage)}
 
-        store_modes = {name: value for name, value in (self.store_modes or {}).items()}
+        store_modes = {
+            PackageDescriptor.package_name_key(name): value for name, value in (self.store_modes or {}).items()}
 
         for name_key, package_to_install in toinstall.items():
 
@@ -274,7 +276,8 @@ class InstallationPlan:
 
         target = target or self.default_target
         operations = self.compute_operations_for_target(target)
-        store_modes = self.store_modes or {}
+        store_modes = {
+            PackageDescriptor.package_name_key(name): value for name, value in (self.store_modes or {}).items()}
         site = target.site_packages
 
         tasks: List[_PackageOperationTask] = []
@@ -373,7 +376,7 @@ class _RemovalRepository(AbstractRepository):
         self._user_request = user_request
 
     def _do_match(self, dependency: "Dependency", env: Environment) -> List[Package]:
-        if dependency.package_name == self._user_request.name:
+        if dependency.package_name_key == self._user_request.name_key:
             return [self._user_request]
 
         match = self._preinstalled.get(dependency.package_name_key)
-- 
2.43.0


From 65da63e3da84831dab5b5e2a7f8643a712ab1405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:34 +0000
Subject: [PATCH 44/69] fix: look packages up in repositories by normalized
 name

---
 pkm/src/pkm/repositories/file_system_repository.py | 10 +++++-----
 pkm/src/pkm/repositories/git_repository.py         |  2 +-
 pkm/src/pkm/repositories/simple_repository.py      |  4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkm/src/pkm/repositories/file_system_repository.py b/pkm/src/pkm/repositories/file_system_repository.py
index 55a5b08..5fdec5d 100644
--- a/pkm/src/pkm/repositories/file_system_repository.py
+++ b/pkm/src/pkm/repositories/file_system_repository.py
@@ -22,7 +22,7 @@ class PackagesDictRepository(AbstractRepository):
         self._packages = packages
 
     def _do_match(self, dependency: Dependency, env: Environment) -> List[Package]:
-        all_packages = self._packages.get(dependency.package_name) or []
+        all_packages = self._packages.get(dependency.package_name_key) or []
         return self._sorted_by_version([p for p in all_packages if dependency.version_spec.allows_version(p.version)])
 
 
@@ -40,21 +40,21 @@ class FileSystemRepositoryBuilder(RepositoryBuilder):
             if ProjectGroup.is_valid(path):
                 project_group = ProjectGroup.load(path)
                 for project in project_group.project_children_recursive:
-                    packages[project.name].append(project)
+                    packages[project.name_key].append(project)
             else:
                 try:
                     project = Project.load(path)
-                    packages[project.name].append(project)
+                    packages[project.name_key].append(project)
                 except MalformedPackageException:
                     pass
 
             for dist in path.iterdir():
                 if _is_distribution(dist):
                     package = Distribution.package_from(dist)
-                    packages[package.name].append(package)
+                    packages[package.name_key].append(package)
         elif _is_distribution(path):
             package = Distribution.package_from(path)
-            packages[package.name].append(package)
+            packages[package.name_key].append(package)
 
         return PackagesDictRepository(name, packages)
 
diff --git a/pkm/src/pkm/repositories/git_repository.py b/pkm/src/pkm/repositories/git_repository.py
index 1220ee1..54a050f 100644
--- a/pkm/src/pkm/repositories/git_repository.py
+++ b/pkm/src/pkm/repositories/git_repository.py
@@ -103,7 +103,7 @@ class GitRepository(AbstractRepository):
 
         if ProjectGroup.is_valid(target_dir):
             project = single_or_raise(p for p in ProjectGroup.load(target_dir).project_children_recursive
-                                      if p.name == dependency.package_name)
+                                      if p.name_key == dependency.package_name_key)
             project.bump_version('name', cast(NamedVersion, desc.version).name, save=False)
         else:
             project = Project.load(target_dir, package=desc)
diff --git a/pkm/src/pkm/repositories/simple_repository.py b/pkm/src/pkm/repositories/simple_repository.py
index e704b85..d5c9f2b 100644
--- a/pkm/src/pkm/repositories/simple_repository.py
+++ b/pkm/src/pkm/repositories/simple_repository.py
@@ -31,7 +31,7 @@ class SimpleRepository(AbstractRepository):
 
     def _do_match(self, dependency: Dependency, env: Environment) -> List[Package]:
         # monitor.on_dependency_match(dependency)
-        if not (version_to_package := self._packages.get(dependency.package_name)):
+        if not (version_to_package := self._packages.get(dependency.package_name_key)):
             data = pkm.httpclient.fetch_resource(f"{self._url}/{dependency.package_name}").data
             extractor = _HtmlArtifactsExtractor(self._base_url)
             extractor.feed(data.read_text())
@@ -47,7 +47,7 @@ class SimpleRepository(AbstractRepository):
 
                 for version_str, version_artifacts in grouped_by_version.items()
             }
-            self._packages[dependency.package_name] = version_to_package
+            self._packages[dependency.package_name_key] = version_to_package
 
         packages = [p for p in version_to_package.values() if dependency.version_spec.allows_version(p.version)]
         return self._sorted_by_version(packages)
-- 
2.43.0


From fc18a4d06245cac9cb6f1e676efdcb3c30c2fc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:34 +0000
Subject: [PATCH 45/69] fix: lock and unlock packages by normalized name

---
 pkm/src/pkm/resolution/packages_lock.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/resolution/packages_lock.py b/pkm/src/pkm/resolution/packages_lock.py
index 348b0bd..e330d20 100644
--- a/pkm/src/pkm/resolution/packages_lock.py
+++ b/pkm/src/pkm/resolution/packages_lock.py
@@ -38,7 +38,7 @@ class PackagesLock:
     def __init__(self, locked_packages: Optional[List[_LockedVersion]] = None, lock_file: Optional[Path] = None):
         locked_packages = unone(locked_packages, list)
         self._locked_packages: Dict[str, List[_LockedVersion]] = \
-            groupby(locked_packages, lambda it: it.package.name)
+            groupby(locked_packages, lambda it: it.package.name_key)
         self._lock_file = lock_file
 
     def unlock_packages(self, package_names: Iterable[str]) -> PackagesLock:
@@ -49,7 +49,7 @@ class PackagesLock:
         :return self (for chaining support)
         """
         for pn in package_names:
-            self._locked_packages.pop(pn, None)
+            self._locked_packages.pop(PackageDescriptor.package_name_key(pn), None)
 
         return self
 
@@ -71,7 +71,7 @@ class PackagesLock:
         """
 
         relevant_locks = [lp for lst in self._locked_packages.values() for lp in lst] if not package else \
-            [lp for lp in (self._locked_packages.get(package) or ())]
+            [lp for lp in (self._locked_packages.get(PackageDescriptor.package_name_key(package)) or ())]
 
         if not relevant_locks:
             return []
@@ -102,7 +102,7 @@ class PackagesLock:
         for package in env.site_packages.installed_packages():
             new_locks.append(_LockedVersion(env_hash, package.descriptor))
 
-        self._locked_packages = groupby(new_locks, lambda it: it.package.name)
+        self._locked_packages = groupby(new_locks, lambda it: it.package.name_key)
         return self
 
     def save(self, lock_file: Optional[Path] = None):
-- 
2.43.0


From 913cc1b61ad5cfa0249624098ac72d551778bf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:34 +0000
Subject: [PATCH 46/69] fix: find projects, dependencies and plugins by
 normalized name

---
 pkm/src/pkm/api/environments/package_containers.py | 4 ++--
 pkm/src/pkm/api/projects/project.py                | 5 +++--
 pkm/src/pkm/api/projects/project_group.py          | 4 +++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index 284a062..9135cee 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -72,8 +72,8 @@ class PackageContainer:
         return [it
                 for it in self._target.site_packages.installed_packages()
                 if it.dist_info.is_user_requested()
-                and it.name != self.containerized_package.name
-                and it.name != self.package.name]
+                and it.name_key != self.containerized_package.name_key
+                and it.name_key != self.package.name_key]
 
 
 class PackageContainers:
diff --git a/pkm/src/pkm/api/projects/project.py b/pkm/src/pkm/api/projects/project.py
index b51f512..a479f23 100644
--- a/pkm/src/pkm/api/projects/project.py
+++ b/pkm/src/pkm/api/projects/project.py
@@ -398,14 +398,15 @@ class ProjectDirectories:
 
 def _update_dependencies(
         config: PyProjectConfiguration, new_deps: Dict[str, "Dependency"], optional_group: Optional[str]):
-    save_dependencies = [d for d in (config.project.dependencies or []) if d.package_name not in new_deps]
+    new_names = {d.package_name_key for d in new_deps.values()}
+    save_dependencies = [d for d in (config.project.dependencies or []) if d.package_name_key not in new_names]
     save_optional_dependencies = config.project.optional_dependencies
 
     if optional_group:
         save_optional_dependencies[optional_group] = \
             [d
              for d in save_optional_dependencies.get(optional_group, [])
-             if d.package_name not in new_deps] + list(new_deps.values())
+             if d.package_name_key not in new_names] + list(new_deps.values())
     else:
         save_dependencies += list(new_deps.values())
 
diff --git a/pkm/src/pkm/api/projects/project_group.py b/pkm/src/pkm/api/projects/project_group.py
index f581e78..34112b4 100644
--- a/pkm/src/pkm/api/projects/project_group.py
+++ b/pkm/src/pkm/api/projects/project_group.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 from pathlib import Path
 from typing import Iterable, Union, Optional, List, TYPE_CHECKING
 
+from pkm.api.packages.package import PackageDescriptor
 from pkm.api.pkm import HasAttachedRepository
 from pkm.api.projects.environments_config import EnvironmentsConfiguration, ENVIRONMENT_CONFIGURATION_PATH
 from pkm.api.projects.project import Project
@@ -116,7 +117,8 @@ class ProjectGroup(HasAttachedRepository, Serializable):
         :param project: the project name or path to remove
         """
         if isinstance(project, str):
-            project = single_or_raise(p for p in self.children if p.name == project).path
+            name_key = PackageDescriptor.package_name_key(project)
+            project = single_or_raise(p for p in self.children if p.name_key == name_key).path
 
         project = project.resolve()
 
-- 
2.43.0


From ec47874e79d86fb79420679fd66563496e7aa7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:34 +0000
Subject: [PATCH 47/69] fix: bind packages to repositories by normalized name

---
 pkm-cli/src/pkm_cli/main.py                       |  2 +-
 .../repositories/repositories_configuration.py    | 10 ++++++++++
 pkm/src/pkm/api/repositories/repository_loader.py |  5 +++--
 .../pkm/api/repositories/repository_management.py | 15 +++++++++------
 4 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/pkm-cli/src/pkm_cli/main.py b/pkm-cli/src/pkm_cli/main.py
index 1a8b3be..4d4437d 100644
--- a/pkm-cli/src/pkm_cli/main.py
+++ b/pkm-cli/src/pkm_cli/main.py
@@ -149,7 +149,7 @@ def pkm_install(cmd: Command):
 
     def register_repo_bindings(contex: HasAttachedRepository):
         if repo := cmd.repo:
-            if any(contex.repository_management.configuration.package_bindings.get(d.package_name) != repo
+            if any(contex.repository_management.configuration.binding_of(d.package_name) != repo
                    for d in dependencies):
                 contex.repository_management.register_bindings([d.package_name for d in dependencies], repo)
                 cmd.force = True
diff --git a/pkm/src/pkm/api/repositories/repositories_configuration.py b/pkm/src/pkm/api/repositories/repositories_configuration.py
index ff74a01..612fb22 100644
--- a/pkm/src/pkm/api/repositories/repositories_configuration.py
+++ b/pkm/src/pkm/api/repositories/repositories_configuration.py
@@ -4,6 +4,7 @@ from dataclasses import dataclass
 from enum import Enum
 from typing import Any, Dict
 
+from pkm.api.packages.package import PackageDescriptor
 from pkm.config.configclass import config, config_field, ConfigFile
 from pkm.config.configfiles import TomlConfigIO
 from pkm.utils.enums import enum_by_value
@@ -32,6 +33,15 @@ class RepositoriesConfiguration(ConfigFile):
     package_bindings: Dict[str, Any] = config_field(key="package-bindings", default_factory=dict)
     leftovers = config_field(leftover=True)
 
+    def binding_of(self, package: str) -> Any:
+        """
+        :param package: the name of a package, in any spelling
+        :return: the repository that the package is bound to (None if it is not bound)
+        """
+        key = PackageDescriptor.package_name_key(package)
+        return next((repo for name, repo in self.package_bindings.items()
+                     if PackageDescriptor.package_name_key(name) == key), None)
+
     @cached_property
     def inheritance_mode(self) -> RepositoriesConfigInheritanceMode:
         return enum_by_value(RepositoriesConfigInheritanceMode, self.inheritance)
diff --git a/pkm/src/pkm/api/repositories/repository_loader.py b/pkm/src/pkm/api/repositories/repository_loader.py
index 29908b8..50b4ca3 100644
--- a/pkm/src/pkm/api/repositories/repository_loader.py
+++ b/pkm/src/pkm/api/repositories/repository_loader.py
@@ -8,7 +8,7 @@ from typing import List, Dict, Iterable, Optional, Set, Mapping
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.environments.environment import Environment
-from pkm.api.packages.package import Package
+from pkm.api.packages.package import Package, PackageDescriptor
 from pkm.api.repositories.repositories_configuration import RepositoriesConfiguration, \
     RepositoriesConfigInheritanceMode
 from pkm.api.repositories.repository import Repository, RepositoryBuilder, AbstractRepository
@@ -102,6 +102,7 @@ class RepositoryLoader:
 
         package_binding: Dict[str, str] = {}
         for package, binding in config.package_bindings.items():
+            package = PackageDescriptor.package_name_key(package)
             if isinstance(binding, str):
                 package_binding[package] = binding
             else:
@@ -166,7 +167,7 @@ class _CompositeRepository(AbstractRepository):
                     return match
             return []
 
-        if repo_name := self._package_binding.get(dependency.package_name):
+        if repo_name := self._package_binding.get(dependency.package_name_key):
             if not (repo := first_or_none(it for it in self._package_search_list if it.name == repo_name)):
                 raise NoSuchElementException(f"package: {dependency.package_name} is bound to "
                                              f"repository: {repo_name}, but this repository is not defined")
diff --git a/pkm/src/pkm/api/repositories/repository_management.py b/pkm/src/pkm/api/repositories/repository_management.py
index d04c968..be06bf9 100644
--- a/pkm/src/pkm/api/repositories/repository_management.py
+++ b/pkm/src/pkm/api/repositories/repository_management.py
@@ -7,7 +7,7 @@ from typing import Dict, List, Optional, Tuple, Iterable, Union, Set
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.environments.environment import Environment
 from pkm.api.environments.environments_zoo import EnvironmentsZoo
-from pkm.api.packages.package import Package
+from pkm.api.packages.package import Package, PackageDescriptor
 from pkm.api.pkm import HasAttachedRepository, Pkm, pkm
 from pkm.api.projects.project import Project
 from pkm.api.projects.project_group import ProjectGroup
@@ -97,19 +97,22 @@ class RepositoryManagement(ABC):
         return result
 
     def register_bindings(self, packages: List[str], repo: Optional[Union[str, RepositoryInstanceConfig]]):
+        names = {PackageDescriptor.package_name_key(p) for p in packages}
+        others = {
+            p: r for p, r in self.configuration.package_bindings.items()
+            if PackageDescriptor.package_name_key(p) not in names
+        }
+
         if repo:
             if isinstance(repo, RepositoryInstanceConfig):
                 repo = repo.to_config()
 
             self.configuration.package_bindings = {
-                **self.configuration.package_bindings,
+                **others,
                 **{p: repo for p in packages}
             }
         else:
-            self.configuration.package_bindings = {
-                p: r for p, r in self.configuration.package_bindings.items()
-                if p not in packages
-            }
+            self.configuration.package_bindings = others
 
         self._update_config()
 
-- 
2.43.0


From 0bb3c1d991721eb6da16913c6ccde8991d09d035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:25 +0000
Subject: [PATCH 48/69] fix: keep shared packages that only package containers
 link to

---
 pkm/src/pkm/repositories/shared_pacakges_repo.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/repositories/shared_pacakges_repo.py b/pkm/src/pkm/repositories/shared_pacakges_repo.py
index cffd1e7..42745c2 100644
--- a/pkm/src/pkm/repositories/shared_pacakges_repo.py
+++ b/pkm/src/pkm/repositories/shared_pacakges_repo.py
@@ -30,9 +30,14 @@ class SharedPackagesRepository(AbstractRepository):
     def remove_unused_packages(self, package_users: Iterator[Environment]):
         used_packages: Set[str] = set()
         for package_user in package_users:
-            for used_package in package_user.site_packages.installed_packages():
-                if (shared_marker := used_package.dist_info.path / "SHARED").exists():
-                    used_packages.add(shared_marker.read_text())
+            sites = [package_user.site_packages]
+            for container in package_user.package_containers.containers():
+                sites.append(container.installation_target.site_packages)
+
+            for site in sites:
+                for used_package in site.installed_packages():
+                    if (shared_marker := used_package.dist_info.path / "SHARED").exists():
+                        used_packages.add(shared_marker.read_text())
 
         for package_dir in self._workspace.iterdir():
             if not package_dir.is_dir():
-- 
2.43.0


From 9fb21c58033f7c47cf1789fe85f729df11a4a749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:25 +0000
Subject: [PATCH 49/69] fix: recognize used shared packages when the zoo is
 reached through a symlink

---
 pkm/src/pkm/repositories/shared_pacakges_repo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/repositories/shared_pacakges_repo.py b/pkm/src/pkm/repositories/shared_pacakges_repo.py
index 42745c2..06ba1de 100644
--- a/pkm/src/pkm/repositories/shared_pacakges_repo.py
+++ b/pkm/src/pkm/repositories/shared_pacakges_repo.py
@@ -28,7 +28,7 @@ class SharedPackagesRepository(AbstractRepository):
         self._base_repo = base_repository
 
     def remove_unused_packages(self, package_users: Iterator[Environment]):
-        used_packages: Set[str] = set()
+        used_packages: Set[Path] = set()
         for package_user in package_users:
             sites = [package_user.site_packages]
             for container in package_user.package_containers.containers():
@@ -37,7 +37,7 @@ class SharedPackagesRepository(AbstractRepository):
             for site in sites:
                 for used_package in site.installed_packages():
                     if (shared_marker := used_package.dist_info.path / "SHARED").exists():
-                        used_packages.add(shared_marker.read_text())
+                        used_packages.add(Path(shared_marker.read_text()).resolve())
 
         for package_dir in self._workspace.iterdir():
             if not package_dir.is_dir():
@@ -51,7 +51,7 @@ class SharedPackagesRepository(AbstractRepository):
                     if not shared_dir.is_dir():
                         continue
 
-                    if str(shared_dir.absolute()) not in used_packages:
+                    if shared_dir.resolve() not in used_packages:
                         shutil.rmtree(shared_dir)
 
                 if is_empty_directory(version_dir):
-- 
2.43.0


From 1e5bc469960735299d0681cf87541530bc62c29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:34 +0000
Subject: [PATCH 50/69] fix: read entry point groups and gui scripts of a
 project under their own groups

---
 pkm/src/pkm/api/projects/pyproject_configuration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/projects/pyproject_configuration.py b/pkm/src/pkm/api/projects/pyproject_configuration.py
index 113d60b..05698f6 100644
--- a/pkm/src/pkm/api/projects/pyproject_configuration.py
+++ b/pkm/src/pkm/api/projects/pyproject_configuration.py
@@ -171,13 +171,13 @@ class ProjectConfig:
     def entry_points(self) -> Mapping[str, List[EntryPoint]]:
         result: Dict[str, List[EntryPoint]] = defaultdict(list)
         if self._entry_points:
-            result.update({g: _entrypoints_from_config(g, eps) for g, eps in self.entry_points.values()})
+            result.update({g: _entrypoints_from_config(g, eps) for g, eps in self._entry_points.items()})
         if self._scripts:
             result[EntryPoint.G_CONSOLE_SCRIPTS] \
                 .extend(_entrypoints_from_config(EntryPoint.G_CONSOLE_SCRIPTS, self._scripts))
         if self._gui_scripts:
             result[EntryPoint.G_GUI_SCRIPTS] \
-                .extend(_entrypoints_from_config(EntryPoint.G_CONSOLE_SCRIPTS, self._gui_scripts))
+                .extend(_entrypoints_from_config(EntryPoint.G_GUI_SCRIPTS, self._gui_scripts))
 
         return result
 
-- 
2.43.0


From 2c8fc5666482127641b9f127c7fd855d1ffdb366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:34 +0000
Subject: [PATCH 51/69] fix: keep both the marker and the extra of an optional
 dependency

---
 pkm/src/pkm/api/projects/pyproject_configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/projects/pyproject_configuration.py b/pkm/src/pkm/api/projects/pyproject_configuration.py
index 05698f6..7e705f0 100644
--- a/pkm/src/pkm/api/projects/pyproject_configuration.py
+++ b/pkm/src/pkm/api/projects/pyproject_configuration.py
@@ -203,7 +203,7 @@ class ProjectConfig:
             extra_rx = re.compile(f'extra\\s*==\\s*(\'{od_group}\'|"{od_group}")')
             for dep in deps:
                 if not dep.env_marker or not extra_rx.match(str(dep.env_marker)):
-                    new_marker = (str(dep.env_marker).rstrip(';') + ';') if dep.env_marker else ''
+                    new_marker = f"({str(dep.env_marker).rstrip(';')}) and " if dep.env_marker else ''
                     new_marker = f"{new_marker}extra==\'{od_group}\'"
                     all_deps.append(replace(dep, env_marker=EnvironmentMarker.parse_pep508(new_marker)))
                 else:
-- 
2.43.0


From 44113db50466cfced15306a57b6e96d4401cc823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:34 +0000
Subject: [PATCH 52/69] fix: write metadata values unfolded and unencoded

---
 pkm/src/pkm/api/packages/package_metadata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/packages/package_metadata.py b/pkm/src/pkm/api/packages/package_metadata.py
index 7f46ebf..1602d72 100644
--- a/pkm/src/pkm/api/packages/package_metadata.py
+++ b/pkm/src/pkm/api/packages/package_metadata.py
@@ -4,6 +4,7 @@ import warnings
 from dataclasses import dataclass
 from email.message import EmailMessage
 from email.parser import Parser
+from email.policy import EmailPolicy
 from pathlib import Path
 from typing import List, TYPE_CHECKING, Dict, Any
 
@@ -27,7 +28,8 @@ _MULTI_FIELDS = {
 class PackageMetadataIO(ConfigIO):
 
     def write(self, path: Path, data: Dict[str, Any]):
-        msg = EmailMessage()
+        # values must not be folded or encoded, otherwise long or non-ascii ones will be read back differently
+        msg = EmailMessage(EmailPolicy(utf8=True, max_line_length=None))
         for key, value in data.items():
             if value is None:
                 continue
-- 
2.43.0


From 1d3d91169ffef8792f333dae26523be53c9b8b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:34 +0000
Subject: [PATCH 53/69] fix: take maintainers from the project's maintainers

---
 pkm/src/pkm/api/packages/package_metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_metadata.py b/pkm/src/pkm/api/packages/package_metadata.py
index 1602d72..4e12319 100644
--- a/pkm/src/pkm/api/packages/package_metadata.py
+++ b/pkm/src/pkm/api/packages/package_metadata.py
@@ -106,8 +106,8 @@ class PackageMetadata(ConfigFile):
         author_names = [a.formatted_name() for a in (prjc.authors or []) if a.name]
         author_emails = [a.email for a in (prjc.authors or []) if a.email]
 
-        maintainer_names = [a.formatted_name() for a in (prjc.authors or []) if a.name]
-        maintainer_emails = [a.email for a in (prjc.authors or []) if a.email]
+        maintainer_names = [m.formatted_name() for m in (prjc.maintainers or []) if m.name]
+        maintainer_emails = [m.email for m in (prjc.maintainers or []) if m.email]
 
         extras = list((prjc.optional_dependencies or {}).keys())
         all_deps = prjc.all_dependencies
-- 
2.43.0


From 1bc0b33f79fda1f0a933e302d4c7dd41ad9da600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:34 +0000
Subject: [PATCH 54/69] fix: write the project urls into its metadata

---
 pkm/src/pkm/api/packages/package_metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/packages/package_metadata.py b/pkm/src/pkm/api/packages/package_metadata.py
index 4e12319..c777a95 100644
--- a/pkm/src/pkm/api/packages/package_metadata.py
+++ b/pkm/src/pkm/api/packages/package_metadata.py
@@ -121,7 +121,7 @@ class PackageMetadata(ConfigFile):
             'Maintainer': ', '.join(maintainer_names), 'Maintainer-email': ', '.join(maintainer_emails),
             'License': prjc.license_content(), 'Classifier': prjc.classifiers,
             'Requires-Dist': [str(d) for d in all_deps], 'Requires-Python': str(prjc.requires_python),
-            'Provides-Extra': extras,
+            'Provides-Extra': extras, 'Project-URL': [f"{label}, {url}" for label, url in (prjc.urls or {}).items()],
             # 'Dynamic': prjc.dynamic or [], add back when pypi supports metadata version 2.2
         }
 
-- 
2.43.0


From a927d8d12220cf55e1f505924fd96fa58ed9c66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:34 +0000
Subject: [PATCH 55/69] fix: parse environment markers with === and with the
 letter J

---
 pkm/src/pkm/api/dependencies/env_markers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/dependencies/env_markers.py b/pkm/src/pkm/api/dependencies/env_markers.py
index 8c98a18..c3141ff 100644
--- a/pkm/src/pkm/api/dependencies/env_markers.py
+++ b/pkm/src/pkm/api/dependencies/env_markers.py
@@ -33,7 +33,7 @@ class EnvironmentMarker:
 
 
 _MARKER_STR_CHARS = set(
-    ' \t0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIZKLMNOPQRSTUVWXYZ().{}-_*#:;,/?[]!`~@$%^&=+|<>')
+    ' \t0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ().{}-_*#:;,/?[]!`~@$%^&=+|<>')
 
 
 class PEP508EnvMarkerParser(SimpleParser):
@@ -64,7 +64,7 @@ class PEP508EnvMarkerParser(SimpleParser):
             return lambda e, x: e.markers[v_ident]
 
     def _read_marker_op(self) -> _MARKER_OP_T:
-        version_or_string_op = self.match_any("<=", "<", ">=", ">", "!=", "==", "===", "~=")
+        version_or_string_op = self.match_any("<=", "<", ">=", ">", "!=", "===", "==", "~=")
         if version_or_string_op:
             def _op(a: Sequence[str], b: Sequence[str]) -> bool:
 
-- 
2.43.0


From eeb484681177bd1236259c937a18f2860afae0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:34 +0000
Subject: [PATCH 56/69] fix: keep the environment marker of url and ===
 requirements when they are read back

---
 pkm/src/pkm/api/dependencies/dependency.py | 2 +-
 pkm/src/pkm/api/versions/version_parser.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/dependencies/dependency.py b/pkm/src/pkm/api/dependencies/dependency.py
index da92f0b..00f724d 100644
--- a/pkm/src/pkm/api/dependencies/dependency.py
+++ b/pkm/src/pkm/api/dependencies/dependency.py
@@ -58,7 +58,7 @@ class Dependency:
 
         version_str = "" if self.version_spec is AllowAllVersions else f" {str(self.version_spec)}"
 
-        marker_str = f";{self.env_marker}" if self.env_marker else ''
+        marker_str = f" ;{self.env_marker}" if self.env_marker else ''
 
         return f"{self.package_name}{extras_str}{version_str}{marker_str}"
 
diff --git a/pkm/src/pkm/api/versions/version_parser.py b/pkm/src/pkm/api/versions/version_parser.py
index 235a9f3..ed7e2c4 100644
--- a/pkm/src/pkm/api/versions/version_parser.py
+++ b/pkm/src/pkm/api/versions/version_parser.py
@@ -106,7 +106,7 @@ class VersionParser(SimpleParser):
 
         if self.match('==='):
             self.match_ws()
-            version_str = self.until(lambda i, t: t[i].isspace() or t[i] == ',')
+            version_str = self.until(lambda i, t: t[i].isspace() or t[i] in ',;)')
             return VersionMatch(NamedVersion(version_str))
 
         exclusion_inclusion = self.match_any('==', '!=')
-- 
2.43.0


From aa1e8e9d8d944d30e55c1ddcd86e7a5599a52927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:46 +0000
Subject: [PATCH 57/69] fix: end multipart form bodies with the closing
 boundary

---
 pkm/src/pkm/utils/http/mfd_payload.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkm/src/pkm/utils/http/mfd_payload.py b/pkm/src/pkm/utils/http/mfd_payload.py
index 8404434..ba409e4 100644
--- a/pkm/src/pkm/utils/http/mfd_payload.py
+++ b/pkm/src/pkm/utils/http/mfd_payload.py
@@ -64,6 +64,8 @@ class MultipartFormDataPayload:
 
             yield newline
 
+        yield f"--{self._boundary}--\r\n".encode()
+
 
 def _guess_content_type(filename: Optional[str], default="application/octet-stream"):
     if filename:
-- 
2.43.0


From 53dcbd73772331bbf8cedc0ef2d7c15fed312a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:49 +0000
Subject: [PATCH 58/69] fix: send form files from their start when a request is
 retried

---
 pkm/src/pkm/utils/http/mfd_payload.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkm/src/pkm/utils/http/mfd_payload.py b/pkm/src/pkm/utils/http/mfd_payload.py
index ba409e4..5f56a5e 100644
--- a/pkm/src/pkm/utils/http/mfd_payload.py
+++ b/pkm/src/pkm/utils/http/mfd_payload.py
@@ -54,6 +54,8 @@ class MultipartFormDataPayload:
 
             payload = field.payload
             if isinstance(payload, IOBase):
+                if payload.seekable():
+                    payload.seek(0)  # the body is iterated again when its request is retried
                 yield from chunks(payload, chunk_size)
             elif isinstance(payload, str):
                 yield payload.encode()
-- 
2.43.0


From 5bd44dbc696986c88a8fa71087f1957e8c8d985e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:28 +0000
Subject: [PATCH 59/69] fix: keep installed packages listed for update that the
 new requirements do not reach

---
 pkm/src/pkm/api/packages/package_installation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index 2f93277..b68217b 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -147,8 +147,9 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
         self.reload()
 
         updates = {PackageDescriptor.package_name_key(name) for name in (updates or ())}
-        preinstalled_packages = [p for p in self.site_packages.installed_packages() if p.name_key not in updates]
-        pre_requested_deps = {p.name_key: p.user_request for p in preinstalled_packages if p.user_request}
+        installed_packages = list(self.site_packages.installed_packages())
+        preinstalled_packages = [p for p in installed_packages if p.name_key not in updates]
+        pre_requested_deps = {p.name_key: p.user_request for p in installed_packages if p.user_request}
         unspecified_spec_packages = \
             unspecified_spec_packages or [
                 d.package_name_key
@@ -173,7 +174,7 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
                 user_request.to_dependency(), self, installation_repo, dependencies_override)
 
             installation_names = {i.name_key for i in installation}
-            for preinstalled in preinstalled_packages:
+            for preinstalled in installed_packages:
                 if preinstalled.name_key not in installation_names:
                     installation.append(preinstalled)
 
-- 
2.43.0


From c2605cebb9565fe35729786b4481904fc921c1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:05 +0000
Subject: [PATCH 60/69] fix: install the headers of a wheel instead of failing
 on its headers scheme

---
 pkm/src/pkm/api/distributions/wheel_distribution.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/distributions/wheel_distribution.py b/pkm/src/pkm/api/distributions/wheel_distribution.py
index f85f16e..e609067 100644
--- a/pkm/src/pkm/api/distributions/wheel_distribution.py
+++ b/pkm/src/pkm/api/distributions/wheel_distribution.py
@@ -109,7 +109,11 @@ class WheelDistribution(Distribution):
                 if d.is_dir():
                     if d == data_dir:
                         for k in d.iterdir():
-                            target_path = getattr(target, k.name) or Path(target.data, k.name)
+                            if k.name == 'headers':
+                                # the include directory of the interpreter may be outside of the environment
+                                target_path = Path(target.data, 'include', 'site', package.name)
+                            else:
+                                target_path = getattr(target, k.name) or Path(target.data, k.name)
                             if k.name == 'scripts':
                                 ct.copy_tree(
                                     k, Path(target_path),
-- 
2.43.0


From f6ee91584ee9bd1b1dcebad5b970e29805a7e032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:29 +0000
Subject: [PATCH 61/69] fix: try the version locked for this environment before
 versions locked for other environments

---
 pkm/src/pkm/resolution/packages_lock.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/resolution/packages_lock.py b/pkm/src/pkm/resolution/packages_lock.py
index e330d20..1f90663 100644
--- a/pkm/src/pkm/resolution/packages_lock.py
+++ b/pkm/src/pkm/resolution/packages_lock.py
@@ -120,8 +120,9 @@ class PackagesLock:
 
     def sort_packages_by_lock_preference(self, env: Environment, packages: List[Package]) -> List[Package]:
         if packages:
-            locked_versions = {lp.version for lp in self.locked_versions(env, packages[0].name)}
-            packages.sort(key=lambda it: 0 if it.version in locked_versions else 1)
+            locked_versions = [lp.version for lp in self.locked_versions(env, packages[0].name)]
+            packages.sort(key=lambda it: locked_versions.index(it.version) if it.version in locked_versions
+                          else len(locked_versions))
 
         return packages
 
-- 
2.43.0


From 9eeed0408075a4d6bb4247b8755b3410470a931f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:52 +0000
Subject: [PATCH 62/69] fix: repositories that share their type and arguments
 keep their own names

---
 pkm/src/pkm/api/repositories/repository_loader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/repositories/repository_loader.py b/pkm/src/pkm/api/repositories/repository_loader.py
index 50b4ca3..1b18323 100644
--- a/pkm/src/pkm/api/repositories/repository_loader.py
+++ b/pkm/src/pkm/api/repositories/repository_loader.py
@@ -120,7 +120,7 @@ class RepositoryLoader:
         return _CompositeRepository(name, package_search_list, binding_only_repositories, package_binding)
 
     def build(self, name: str, builder: str, **args) -> Repository:
-        key = _CachedRepositoryKey(builder, args)
+        key = _CachedRepositoryKey(name, builder, args)
         if not (cached := self._cached_instances.get(key)):
             if not (builder := self._builders.get(builder)):
                 raise KeyError(f"unknown repository type: {builder}")
@@ -132,11 +132,13 @@ class RepositoryLoader:
 
 @dataclass(eq=True)
 class _CachedRepositoryKey:
+    name: str
     builder: str
     args: Dict[str, str]
 
     def __hash__(self):
         return HashBuilder() \
+            .regular(self.name) \
             .regular(self.builder) \
             .unordered_mapping(self.args) \
             .build()
-- 
2.43.0


From 2066c6327376d693a37b3bdc5c800ca4d30564c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:52 +0000
Subject: [PATCH 63/69] fix: every package that is bound to an unnamed
 repository gets its own one

---
 pkm/src/pkm/api/repositories/repository_loader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/repositories/repository_loader.py b/pkm/src/pkm/api/repositories/repository_loader.py
index 1b18323..1eff7f0 100644
--- a/pkm/src/pkm/api/repositories/repository_loader.py
+++ b/pkm/src/pkm/api/repositories/repository_loader.py
@@ -106,8 +106,9 @@ class RepositoryLoader:
             if isinstance(binding, str):
                 package_binding[package] = binding
             else:
-                type_ = binding.pop('type')
-                binding = self.build(name, type_, **binding)
+                args = dict(binding)
+                type_ = args.pop('type')
+                binding = self.build(f"{name}:{package}", type_, **args)
                 binding_only_repositories.add(binding.name)
                 package_search_list.append(binding)
                 package_binding[package] = binding.name
-- 
2.43.0


From 27a64d098f7f6a6b466166f80a14a9b5d3d5596a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:52 +0000
Subject: [PATCH 64/69] fix: a configuration that inherits nothing and defines
 nothing finds nothing

---
 pkm/src/pkm/api/repositories/repository_loader.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/pkm/src/pkm/api/repositories/repository_loader.py b/pkm/src/pkm/api/repositories/repository_loader.py
index 1eff7f0..07dc170 100644
--- a/pkm/src/pkm/api/repositories/repository_loader.py
+++ b/pkm/src/pkm/api/repositories/repository_loader.py
@@ -113,11 +113,6 @@ class RepositoryLoader:
                 package_search_list.append(binding)
                 package_binding[package] = binding.name
 
-        if not package_search_list:
-            if config.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_GLOBAL:
-                return self.global_repo
-            return next_in_context
-
         return _CompositeRepository(name, package_search_list, binding_only_repositories, package_binding)
 
     def build(self, name: str, builder: str, **args) -> Repository:
-- 
2.43.0


From 8825b0ae853c9e4b18653cb2b063baa435bbce31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:52 +0000
Subject: [PATCH 65/69] fix: a configuration that inherits the global
 repositories keeps its own

---
 pkm/src/pkm/api/repositories/repository_management.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/repositories/repository_management.py b/pkm/src/pkm/api/repositories/repository_management.py
index be06bf9..ad6ab1c 100644
--- a/pkm/src/pkm/api/repositories/repository_management.py
+++ b/pkm/src/pkm/api/repositories/repository_management.py
@@ -56,7 +56,7 @@ class RepositoryManagement(ABC):
 
     def package_lookup_chain(self) -> List[RepositoryManagement]:
         if self.configuration.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_GLOBAL:
-            return [pkm.repository_management]
+            return [self, pkm.repository_management]
         elif self.configuration.inheritance_mode != RepositoriesConfigInheritanceMode.INHERIT_CONTEXT:
             return [self]
 
-- 
2.43.0


From dae928af602fa6cfe3c227f4cc24b19b9d561a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:52 +0000
Subject: [PATCH 66/69] fix: packages can be bound to an unnamed repository

---
 pkm/src/pkm/api/repositories/repository_management.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/repositories/repository_management.py b/pkm/src/pkm/api/repositories/repository_management.py
index ad6ab1c..cb49011 100644
--- a/pkm/src/pkm/api/repositories/repository_management.py
+++ b/pkm/src/pkm/api/repositories/repository_management.py
@@ -105,7 +105,7 @@ class RepositoryManagement(ABC):
 
         if repo:
             if isinstance(repo, RepositoryInstanceConfig):
-                repo = repo.to_config()
+                repo = {'type': repo.type, **repo.args}
 
             self.configuration.package_bindings = {
                 **others,
-- 
2.43.0


From 3cd557ae64615396194b85fa0583c743af1a4b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:59 +0000
Subject: [PATCH 67/69] fix: a toml text that ends with a comment is read
 instead of looping forever

---
 pkm/src/pkm/config/toml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 7d05dfe..35713a3 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -408,7 +408,7 @@ class _TomlParser(SimpleParser):
             result += self.match_ws(allow_new_lines)
             n = self.peek()
             if n == '#':  # comment
-                result += self.until_match('\n')
+                result += self.until(lambda i, t: t[i] == '\n')  # the last line may have no line end
             else:
                 break
 
-- 
2.43.0


From af7e3d7a3a9c9e6c68e4e7439d66a6d491e0095f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:50 +0000
Subject: [PATCH 68/69] fix: a source without a metadata hook is asked for
 metadata and answers with metadata, not with the wheel

---
 pkm/src/pkm/build/source_build_cache.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/build/source_build_cache.py b/pkm/src/pkm/build/source_build_cache.py
index ae5fb75..240fe1c 100644
--- a/pkm/src/pkm/build/source_build_cache.py
+++ b/pkm/src/pkm/build/source_build_cache.py
@@ -82,10 +82,9 @@ class SourceBuildCache:
                 return PackageMetadata.load(wheel_metadata_path)
             else:
                 if not metadata_file.exists():
-                    metadata = WheelDistribution(dist.owner_package, output).extract_metadata()
-                    metadata.save(metadata_file)
+                    WheelDistribution(dist.owner_package, output).extract_metadata().save(metadata_file)
 
                 cached_output = cache_dir / output.name
                 cache_dir.mkdir(parents=True, exist_ok=True)
                 shutil.move(output, cached_output)
-                return cached_output
+                return PackageMetadata.load(metadata_file) if metadata else cached_output
-- 
2.43.0


From 6e354921b522b9cf0caebd1f05f7d31a8182b0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:53 +0000
Subject: [PATCH 69/69] fix: built files enter the build cache complete, an
 interrupted move left a truncated wheel that was installed later

---
 pkm/src/pkm/build/source_build_cache.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/build/source_build_cache.py b/pkm/src/pkm/build/source_build_cache.py
index 240fe1c..5bb5eba 100644
--- a/pkm/src/pkm/build/source_build_cache.py
+++ b/pkm/src/pkm/build/source_build_cache.py
@@ -78,13 +78,26 @@ class SourceBuildCache:
                     raise BuildError("build backend did not create a wheel METADATA file")
 
                 cache_dir.mkdir(parents=True, exist_ok=True)
-                shutil.copy(wheel_metadata_path, metadata_file)
-                return PackageMetadata.load(wheel_metadata_path)
+                _store(wheel_metadata_path, metadata_file)
+                return PackageMetadata.load(metadata_file)
             else:
+                cache_dir.mkdir(parents=True, exist_ok=True)
                 if not metadata_file.exists():
-                    WheelDistribution(dist.owner_package, output).extract_metadata().save(metadata_file)
+                    wheel_metadata_path = tdir / 'METADATA'
+                    WheelDistribution(dist.owner_package, output).extract_metadata().save(wheel_metadata_path)
+                    _store(wheel_metadata_path, metadata_file)
 
                 cached_output = cache_dir / output.name
-                cache_dir.mkdir(parents=True, exist_ok=True)
-                shutil.move(output, cached_output)
+                _store(output, cached_output)
                 return PackageMetadata.load(metadata_file) if metadata else cached_output
+
+
+def _store(file: Path, cached: Path):
+    """
+    move the given file into the cache, it is never visible there before it is complete
+    :param file: the file to move
+    :param cached: the path to have it in
+    """
+    partial = cached.with_name(f"{cached.name}.part")
+    shutil.move(file, partial)
+    partial.replace(cached)
-- 
2.43.0

