F = "pkm/src/pkm/api/packages/package_installation.py"
P = "pkm/src/pkm/utils/promises.py"
LOOP = '''        for package, operation in operations.items():
            if operation == PackageOperation.SKIP:
                continue

            store_mode = store_modes.get(package.name_key, StoreMode.AUTO)
            user_request = self.user_requests.get(package.name_key)
            tasks.append(_PackageOperationTask(package, operation, store_mode, user_request, target))
'''
RUN = '''            if parallelism == "proc" and sum(1 for it in tasks if it.can_be_multiprocessesd()) > 1:
                procpool = pkm.processes
                await_all_promises_or_cancel([task.execute(threads, procpool) for task in tasks])

            else:
                await_all_promises_or_cancel([task.execute(threads, None) for task in tasks])
        finally:
            site.reload()  # also when a task failed, others may have changed the site
'''
VARIANTS = [
 ("skip is executed", "fire", [(F, "            if operation == PackageOperation.SKIP:\n                continue\n", "            if operation == PackageOperation.SKIP and not self.user_requests.get(package.name_key):\n                continue\n")]),
 ("update installs", "fire", [(F, 'executor, _po_execute, package, "update_at", target', 'executor, _po_execute, package, "install_to", target')]),
 ("remove skipped silently", "fire", [(F, "            if operation == PackageOperation.SKIP:", "            if operation in (PackageOperation.SKIP, PackageOperation.REMOVE):")]),
 ("other target", "fire", [(F, "tasks.append(_PackageOperationTask(package, operation, store_mode, user_request, target))", "tasks.append(_PackageOperationTask(package, operation, store_mode, user_request, self.default_target))")]),
 ("ops of default target", "fire", [(F, "operations = self.compute_operations_for_target(target)", "operations = self.compute_operations_for_target()")]),
 ("not awaited in proc mode", "fire", [(F, "                await_all_promises_or_cancel([task.execute(threads, procpool) for task in tasks])", "                _ = [task.execute(threads, procpool) for task in tasks]")]),
 ("errors ignored", "fire", [(F, "                await_all_promises_or_cancel([task.execute(threads, None) for task in tasks])", "                from pkm.utils.promises import await_all_promises\n                await_all_promises([task.execute(threads, None) for task in tasks], ignore_error=True)")]),
 ("no reload on failure", "fire", [(F, RUN, RUN.replace("        finally:\n            site.reload()", "        except KeyError:\n            raise\n        site.reload()"))]),
 ("po_execute swallows", "fire", [(F, "    getattr(package, mtd)(*args, **kwargs)", "    try:\n        getattr(package, mtd)(*args, **kwargs)\n    except IOError as e:\n        print(e)")]),
 ("first task only cancelled", "fire", [(P, "        for p in [uncanceled for uncanceled in promises if not uncanceled.request_cancel()]:", "        for p in [uncanceled for uncanceled in promises[1:] if not uncanceled.request_cancel()]:")]),
 ("only cancelled, not awaited", "fire", [(P, "            try:\n                p.result()\n            except BaseException as ie:\n                warnings.warn(f\"multiple errors while waiting for promises to complete: {ie}\")", "            p.is_completed()")]),
 ("no cancel", "fire", [(P, "        raise e\n\n\ndef await_all_promises(", "        return\n\n\ndef await_all_promises(")]),
 ("second error escapes", "fire", [(P, "            except BaseException as ie:\n", "            except ValueError as ie:\n")]),
 ("skip on name only", "fire", [(F, "                if preinstalled_package.version == package_to_install.version:", "                if preinstalled_package.version or package_to_install.version:")]),
 ("remove planned too", "fire", [(F, "preinstalled_package := preinstalled.pop(name_key, None)", "preinstalled_package := preinstalled.get(name_key, None)")]),
 ("install as update", "fire", [(F, "                operations[package_to_install] = PackageOperation.INSTALL", "                operations[package_to_install] = PackageOperation.UPDATE")]),
 ("with_async loses error", "fire", [("pkm/src/pkm/utils/monitors.py", "                self.__exit__(type(e), e, None)\n                raise e", "                self.__exit__(type(e), e, None)")]),
 # behaviour preserved
 ("await inside variable", "quiet", [(F, RUN, '''            use_procs = parallelism == "proc" and sum(1 for it in tasks if it.can_be_multiprocessesd()) > 1
            procpool = pkm.processes if use_procs else None
            promises = [task.execute(threads, procpool) for task in tasks]
            await_all_promises_or_cancel(promises)
        finally:
            site.reload()
''')]),
 ("loop for promises", "quiet", [(F, "                await_all_promises_or_cancel([task.execute(threads, None) for task in tasks])", "                promises = []\n                for task in tasks:\n                    promises.append(task.execute(threads, None))\n                await_all_promises_or_cancel(promises)")]),
 ("tasks comprehension", "quiet", [(F, LOOP, '''        tasks = [
            _PackageOperationTask(package, operation, store_modes.get(package.name_key, StoreMode.AUTO),
                                  self.user_requests.get(package.name_key), target)
            for package, operation in operations.items() if operation != PackageOperation.SKIP]
''')]),
 ("helper for tasks", "quiet", [(F, LOOP, '''        tasks = self._tasks(operations, store_modes, target)
'''), (F, "class _PackageOperationTask:", '''    def _tasks(self, operations, store_modes, target):
        tasks = []
        for package in operations:
            operation = operations[package]
            if operation is not PackageOperation.SKIP:
                store_mode = store_modes.get(package.name_key, StoreMode.AUTO)
                tasks.append(_PackageOperationTask(
                    package, operation, store_mode, self.user_requests.get(package.name_key), target))
        return tasks


class _PackageOperationTask:''')]),
 ("dispatch table", "quiet", [(F, '''        promise = None
        if operation == PackageOperation.INSTALL:
            promise = Promise.execute(
                executor, _po_execute, package, "install_to", target, store_mode=store_mode, user_request=user_request)

        elif operation == PackageOperation.UPDATE:
            promise = Promise.execute(
                executor, _po_execute, package, "update_at", target, store_mode=store_mode, user_request=user_request)
''', '''        promise = None
        if operation in (PackageOperation.INSTALL, PackageOperation.UPDATE):
            mtd = "install_to" if operation == PackageOperation.INSTALL else "update_at"
            promise = Promise.execute(
                executor, _po_execute, package, mtd, target, store_mode=store_mode, user_request=user_request)
''')]),
 ("no po_execute", "quiet", [(F, 'promise = Promise.execute(executor, _po_execute, package, "uninstall")', 'promise = Promise.execute(executor, package.uninstall)')]),
 ("await restructured", "quiet", [(P, '''        for p in [uncanceled for uncanceled in promises if not uncanceled.request_cancel()]:
            try:
                p.result()
            except BaseException as ie:
                warnings.warn(f"multiple errors while waiting for promises to complete: {ie}")
        raise e
''', '''        running = []
        for p in promises:
            if not p.request_cancel():
                running.append(p)
        for p in running:
            try:
                p.result()
            except BaseException as ie:
                warnings.warn(f"multiple errors while waiting for promises to complete: {ie}")
        raise
''')]),
 ("compute: membership", "quiet", [(F, '''        for package_to_remove in preinstalled.values():
            operations[package_to_remove] = PackageOperation.REMOVE
''', '''        operations.update({p: PackageOperation.REMOVE for p in preinstalled.values()})
'''), ]),
 ("compute: get and in", "quiet", [(F, "preinstalled_package := preinstalled.pop(name_key, None)", "preinstalled_package := preinstalled.get(name_key)"), (F, '''        for package_to_remove in preinstalled.values():
            operations[package_to_remove] = PackageOperation.REMOVE
''', '''        for name_key, package_to_remove in preinstalled.items():
            if name_key not in toinstall:
                operations[package_to_remove] = PackageOperation.REMOVE
''')]),
 ('compute: else first', 'quiet', [('pkm/src/pkm/api/packages/package_installation.py', '            else:\n                operations[package_to_install] = PackageOperation.INSTALL\n\n        for', '\n        for'), ('pkm/src/pkm/api/packages/package_installation.py', '            if preinstalled_package := preinstalled.pop(name_key, None):\n                if', '            preinstalled_package = preinstalled.pop(name_key, None)\n            if preinstalled_package is None:\n                operations[package_to_install] = PackageOperation.INSTALL\n            else:\n                if')]),
]
