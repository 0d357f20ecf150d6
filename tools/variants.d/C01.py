P_ = "utils/promises.py"
P = "utils/promises.py"
M = "utils/multiproc/__init__.py"
COMPLETE = '''            self._result = result
            self._done = True
            self._wait_lock.notify_all()
            listeners = self._listeners
            self._listeners = None

        for listener in listeners:
            listener()
'''
FAIL = '''            self._err = err
            self._done = True
            self._wait_lock.notify_all()
            listeners = self._listeners
            self._listeners = None

        for listener in listeners:
            listener()
'''
HEAD = '''        with self._wait_lock:
            if self._done:
                raise ValueError("already completed")
            self._result = result
'''
VARIANTS = [
 ("notify-one", "fire", [(P, COMPLETE, COMPLETE.replace("notify_all", "notify"))]),
 ("fail-no-notify", "fire", [(P, FAIL, FAIL.replace("            self._wait_lock.notify_all()\n", ""))]),
 ("listeners-in-lock", "fire", [(P, COMPLETE, COMPLETE.replace("\n        for listener in listeners:\n            listener()", "            for listener in listeners:\n                listener()"))]),
 ("no-listeners-on-fail", "fire", [(P, FAIL, FAIL.replace("        for listener in listeners:\n            listener()\n", "        self._listeners = listeners\n"))]),
 ("only-first-listener", "fire", [(P, COMPLETE, COMPLETE.replace("            listener()\n", "            listener()\n            break\n"))]),
 ("skip-some", "fire", [(P, FAIL, FAIL.replace("            listener()\n", "            if err is not None and listener.__name__ != 'x':\n                listener()\n"))]),
 ("no-done-test", "fire", [(P, HEAD, "        with self._wait_lock:\n            self._result = result\n")]),
 ("test-outside-lock", "fire", [(P, HEAD, "        if self._done:\n            raise ValueError('already completed')\n        with self._wait_lock:\n            self._result = result\n")]),
 ("result-after-lock", "fire", [(P, COMPLETE, COMPLETE.replace("            self._result = result\n", "").replace("\n        for l", "\n        self._result = result\n        for l"))]),
 ("if-wait", "fire", [(P, "        while True:\n            with self._wait_lock:\n                if self._done:", "        if True:\n            with self._wait_lock:\n                if not self._done:\n                    self._wait_lock.wait(60)\n                if True:")]),
 ("err-ignored", "fire", [(P, "                    if self._err:\n                        raise self._err\n                    return", "                    return")]),
 ("wait-unlocked-test", "fire", [(P, '''            with self._wait_lock:
                if self._done:
                    if self._err:
                        raise self._err
                    return self._result

                if not wait:
                    raise ValueError("promise not completed yet")

                self._wait_lock.wait()
''', '''            if self._done:
                if self._err:
                    raise self._err
                return self._result
            if not wait:
                raise ValueError("promise not completed yet")
            with self._wait_lock:
                self._wait_lock.wait()
''')]),
 ("register-after-lock", "fire", [(P, "                self._listeners.append(callback_wrapper)\n                return deferred.promise()\n", "        if not self._done:\n            self._listeners.append(callback_wrapper)\n            return deferred.promise()\n")]),
 ("callback-exception-only", "fire", [(P, "                    except BaseException as e:\n                        deferred.fail(e)", "                    except Exception as e:\n                        deferred.fail(e)")]),
 ("callback-drop-none", "fire", [(P, "                        deferred.complete(callback(self))", "                        r = callback(self)\n                        if r is not None:\n                            deferred.complete(r)")]),
 ("future-exception-only", "fire", [(P, "            except BaseException as e:\n                self._fail(e)", "            except Exception as e:\n                self._fail(e)")]),
 ("future-cancel-ignored", "fire", [(P, "        def done_callback(fu: Future):\n", "        def done_callback(fu: Future):\n            if fu.cancelled():\n                return\n")]),
 ("execute-lets-through", "fire", [(P, "                return Promise.create_completed(result=mtd(*args, **kwargs))\n            except BaseException", "                return Promise.create_completed(result=mtd(*args, **kwargs))\n            except Exception")]),
 ("work-exception-only", "fire", [(M, "                except BaseException as e:\n                    task_result", "                except EOFError as e:\n                    task_result")]),
 ("work-cancel-dropped", "fire", [(M, "                    else:\n                        task_result.deferred.fail(CancelledError())\n", "")]),
 ("work-err-dropped", "fire", [(M, '''                        if proc_result.err_strace:
                            task_result.deferred.fail(
                                Exception(
                                    f"Worker Execution Failure, Worker Stacktrace was: \\n\\n{proc_result.err_strace}"))
                        else:
                            task_result.deferred.complete(proc_result.result)
''', '''                        task_result.deferred.complete(proc_result.result)
''')]),
 ("work-none-result", "fire", [(M, "                        else:\n                            task_result.deferred.complete(proc_result.result)", "                        elif proc_result.result is not None:\n                            task_result.deferred.complete(proc_result.result)")]),
 ("work-leave-before-settle", "fire", [(M, "                try:\n                    if task_result.attach_worker(self):\n", "                if self._should_terminate():\n                    return\n                try:\n                    if task_result.attach_worker(self):\n")]),
 ("worker-swallow", "fire", [(M, "                pickle.dump(_CommandResult(err_strace=err_strace.getvalue()), self._stderr)\n                self._stderr.flush()", "                print(err_strace.getvalue())")]),
 ("worker-err-lost", "fire", [(M, "_CommandResult(err_strace=err_strace.getvalue())", "_CommandResult()")]),
 ("q-work-extracted", "quiet", [(M, '''                        pickle.dump(next_task, self._proc.stdin)
                        self._proc.stdin.flush()

                        proc_result: _CommandResult = pickle.load(self._proc.stderr)

                        if''', '''                        proc_result = self._ask(next_task)
                        if'''), (M, "    def kill(self):\n", '''    def _ask(self, task: _Task) -> _CommandResult:
        pickle.dump(task, self._proc.stdin)
        self._proc.stdin.flush()
        return pickle.load(self._proc.stderr)

    def kill(self):
''')]),
 ("q-work-helper-settle", "quiet", [(M, '''                try:
                    if task_result.attach_worker(self):
                        pickle.dump(next_task, self._proc.stdin)
                        self._proc.stdin.flush()

                        proc_result: _CommandResult = pickle.load(self._proc.stderr)

                        if proc_result.err_strace:
                            task_result.deferred.fail(
                                Exception(
                                    f"Worker Execution Failure, Worker Stacktrace was: \\n\\n{proc_result.err_strace}"))
                        else:
                            task_result.deferred.complete(proc_result.result)
                    else:
                        task_result.deferred.fail(CancelledError())
                except BaseException as e:
                    task_result.deferred.fail(e)
                finally:
                    q.task_done()
''', '''                try:
                    self._run_one(next_task, task_result.deferred, task_result)
                finally:
                    q.task_done()
'''), (M, "    def kill(self):\n", '''    def _run_one(self, task, deferred, task_result):
        try:
            if not task_result.attach_worker(self):
                deferred.fail(CancelledError())
                return
            pickle.dump(task, self._proc.stdin)
            self._proc.stdin.flush()
            answer: _CommandResult = pickle.load(self._proc.stderr)
            if not answer.err_strace:
                deferred.complete(answer.result)
                return
            deferred.fail(Exception(f"worker failed: {answer.err_strace}"))
        except BaseException as e:
            deferred.fail(e)

    def kill(self):
''')]),
 ("q-shared-settle", "quiet", [(P, '''        with self._wait_lock:
            if self._done:
                raise ValueError("already completed")
            self._result = result
            self._done = True
            self._wait_lock.notify_all()
            listeners = self._listeners
            self._listeners = None

        for listener in listeners:
            listener()
''', '''        self._settle(result, None)
'''), (P, '''        with self._wait_lock:
            if self._done:
                raise ValueError("already completed")

            self._err = err
            self._done = True
            self._wait_lock.notify_all()
            listeners = self._listeners
            self._listeners = None

        for listener in listeners:
            listener()
''', '''        self._settle(None, err)

    def _settle(self, result, err):
        with self._wait_lock:
            if self._done:
                raise ValueError("already completed")
            self._result, self._err = result, err
            self._done = True
            self._wait_lock.notify_all()
            callbacks, self._listeners = self._listeners, None

        for cb in callbacks:
            cb()
''')]),
 ("q-acquire-release", "quiet", [(P, '''        with self._wait_lock:
            if self._done:
                raise ValueError("already completed")
            self._result = result
            self._done = True
            self._wait_lock.notify_all()
            listeners = self._listeners
            self._listeners = None
''', '''        self._wait_lock.acquire()
        try:
            if self._done:
                raise ValueError("already completed")
            self._result = result
            self._done = True
            listeners = self._listeners
            self._listeners = None
            self._wait_lock.notify_all()
        finally:
            self._wait_lock.release()
''')]),
 ("q-while-not-done", "quiet", [(P, '''        while True:
            with self._wait_lock:
                if self._done:
                    if self._err:
                        raise self._err
                    return self._result

                if not wait:
                    raise ValueError("promise not completed yet")

                self._wait_lock.wait()
''', '''        with self._wait_lock:
            if not wait and not self._done:
                raise ValueError("promise not completed yet")
            while not self._done:
                self._wait_lock.wait()
            if self._err is not None:
                raise self._err
            return self._result
''')]),
 ("q-wait-for", "quiet", [(P, '''        while True:
            with self._wait_lock:
                if self._done:
                    if self._err:
                        raise self._err
                    return self._result

                if not wait:
                    raise ValueError("promise not completed yet")

                self._wait_lock.wait()
''', '''        with self._wait_lock:
            if not wait and not self._done:
                raise ValueError("promise not completed yet")
            self._wait_lock.wait_for(lambda: self._done)
            if self._err is None:
                return self._result
            raise self._err
''')]),
 ("q-err-outside-lock", "quiet", [(P, '''                if self._done:
                    if self._err:
                        raise self._err
                    return self._result

                if not wait:''', '''                if self._done:
                    break
                if not wait:'''), (P, "                self._wait_lock.wait()\n", "                self._wait_lock.wait()\n        if self._err:\n            raise self._err\n        return self._result\n")]),
 ("q-register-order", "quiet", [(P, '''        with self._wait_lock:
            if not self._done:

                deferred = Deferred(self.request_cancel)

                def callback_wrapper():
                    # noinspection PyShadowingNames
                    try:
                        deferred.complete(callback(self))
                    except BaseException as e:
                        deferred.fail(e)

                self._listeners.append(callback_wrapper)
                return deferred.promise()
''', '''        deferred = Deferred(self.request_cancel)

        def callback_wrapper():
            # noinspection PyShadowingNames
            try:
                value = callback(self)
            except BaseException as e:
                deferred.fail(e)
            else:
                deferred.complete(value)

        with self._wait_lock:
            if not self._done:
                self._listeners.append(callback_wrapper)
                return deferred.promise()
''')]),
 ("q-listener-while", "quiet", [(P, '''            listeners = self._listeners
            self._listeners = None

        for listener in listeners:
            listener()

    def _fail''', '''            listeners, self._listeners = self._listeners, None

        for run in list(listeners):
            run()

    def _fail''')]),
 ("q-future-else", "quiet", [(P, '''            try:
                self._complete(result_mapper(fu))
            except BaseException as e:
                self._fail(e)
''', '''            try:
                value = result_mapper(fu)
            except BaseException as e:
                self._fail(e)
            else:
                self._complete(value)
''')]),
 ("q-execute-else", "quiet", [(P, '''            try:
                return Promise.create_completed(result=mtd(*args, **kwargs))
            except BaseException as e:
                return Promise.create_completed(err=e)

        if isinstance(''', '''            err, value = None, None
            try:
                value = mtd(*args, **kwargs)
            except BaseException as e:
                err = e
            return Promise.create_completed(value, err)

        if isinstance(''')]),
 ("q-worker-else", "quiet", [(M, '''                result = cmd.execute()
                pickle.dump(_CommandResult(result), self._stderr)
                self._stderr.flush()
            except Exception as e:  # noqa
                err_strace = StringIO()
                traceback.print_exc(file=err_strace)
                pickle.dump(_CommandResult(err_strace=err_strace.getvalue()), self._stderr)
                self._stderr.flush()
''', '''                answer = _CommandResult(cmd.execute())
            except Exception:  # noqa
                err_strace = StringIO()
                traceback.print_exc(file=err_strace)
                answer = _CommandResult(err_strace=err_strace.getvalue())
            pickle.dump(answer, self._stderr)
            self._stderr.flush()
''')]),

    ("x error as result", "fire", [(P_, "                return Promise.create_completed(err=e)\n", "                return Promise.create_completed(e)\n")]),
    ("x callback error as result", "fire", [(P_, "            return Promise.create_completed(err=e)\n\n    def result", "            return Promise.create_completed(e)\n\n    def result")]),
    ("x create ignores err", "fire", [(P_, "        if err is None:\n            # noinspection", "        if err is None or result is None:\n            # noinspection")]),
    ("x fail completes", "fire", [(P_, "                self._fail(e)", "                self._complete(e)")]),
    ("x deferred fail", "fire", [(P_, "        self._promise._fail(failure)", "        self._promise._complete(failure)")]),
    ("x complete refuses", "fire", [(P_, """            if self._done:
                raise ValueError("already completed")
            self._result""", """            if self._done or result is None:
                raise ValueError("already completed")
            self._result""")]),
    ("x await first", "fire", [(P_, "        try:\n            p.result()\n        except BaseException as e:\n            if not ignore_error:\n                raise e\n", "        try:\n            p.result()\n            break\n        except BaseException as e:\n            if not ignore_error:\n                raise e\n")]),
    ("x await completed only", "fire", [(P_, "        try:\n            p.result()\n        except BaseException as e:\n            if not", "        try:\n            if not p.is_completed():\n                continue\n            p.result()\n        except BaseException as e:\n            if not")]),
    ("x await swallows", "fire", [(P_, "            if not ignore_error:\n                raise e\n", "            if not ignore_error:\n                warnings.warn(str(e))\n")]),
    ("x await swallows os", "fire", [(P_, "            if not ignore_error:\n                raise e\n", "            if not ignore_error and not isinstance(e, OSError):\n                raise e\n")]),
    ("x cancel swallows", "fire", [(P_, "        raise e\n\n\ndef await_all_promises(", "\n\ndef await_all_promises(")]),
    ("x no wait for uncancelled", "fire", [(P_, """        for p in [uncanceled for uncanceled in promises if not uncanceled.request_cancel()]:
            try:
                p.result()
            except BaseException as ie:
                warnings.warn(f"multiple errors while waiting for promises to complete: {ie}")
""", """        for p in promises:
            p.request_cancel()
""")]),
    ("x waits for cancelled", "fire", [(P_, "if not uncanceled.request_cancel()]", "if uncanceled.request_cancel()]")]),
    ("x result raises none", "fire", [(P_, "                    if self._err:\n                        raise self._err\n", "                    if self._err or self._result is None:\n                        raise self._err\n")]),
    ("x result gives up", "fire", [(P_, "                if not wait:\n", "                if not wait or self._listeners:\n")]),
    ("xq cancel loop", "quiet", [(P_, "        for p in [uncanceled for uncanceled in promises if not uncanceled.request_cancel()]:\n", "        remaining = []\n        for it in promises:\n            if not it.request_cancel():\n                remaining.append(it)\n\n        for p in remaining:\n")]),
    ("xq cancel at once", "quiet", [(P_, "        for p in [uncanceled for uncanceled in promises if not uncanceled.request_cancel()]:\n", "        for p in promises:\n            if p.request_cancel():\n                continue\n")]),
    ("xq await positive", "quiet", [(P_, "            if not ignore_error:\n                raise e\n", "            if ignore_error:\n                continue\n            raise\n")]),
    ("xq create inverted", "quiet", [(P_, """        if err is None:
            # noinspection PyProtectedMember
            promise._complete(result)
        else:
            # noinspection PyProtectedMember
            promise._fail(err)
""", """        if err is not None:
            promise._fail(err)
        else:
            promise._complete(result)
""")]),
    ("xq wait helper", "quiet", [(P_, "        try:\n            p.result()\n        except BaseException as e:\n            if not ignore_error:\n                raise e\n", "        _await_one(p, ignore_error)\n\n\ndef _await_one(p, ignore_error):\n    try:\n        p.result()\n    except BaseException as e:\n        if not ignore_error:\n            raise e\n")]),
]
