H = "utils/http/http_client.py"
M = "utils/multiproc/__init__.py"
PR = "utils/properties.py"
P = "utils/promises.py"
D = "pkm-cli/src/pkm_cli/display/display.py"
CM = "pkm-cli/src/pkm_cli/cli_monitors.py"
REL = '''        with self._lock:
            if conn in self._connections:
                return
            if not self._closed and len(self._connections) < self._cached_amount:
                self._connections.append(conn)
            else:
                conn.close()
'''
SPAWN = '''        with self._workers_lock:
            n_workers = len(self._workers)
            if self._task_queue.unfinished_tasks > n_workers and n_workers < self._max_workers:
                new_worker = _WorkerHandler(self, f"worker {self._next_worker_id}")
                self._next_worker_id += 1
                self._workers[new_worker.name] = new_worker
'''
VARIANTS = [
 ("acquire-unlocked", "fire", [(H, '''        with self._lock:
            if self._connections:
                result = self._connections.pop()
''', '''        if self._connections:
            result = self._connections.pop()
''')]),
 ("acquire-check-outside", "fire", [(H, '''        with self._lock:
            if self._connections:
                result = self._connections.pop()
''', '''        if self._connections:
            with self._lock:
                result = self._connections.pop()
''')]),
 ("release-unlocked", "fire", [(H, REL, '''        if conn in self._connections:
            return
        if not self._closed and len(self._connections) < self._cached_amount:
            self._connections.append(conn)
        else:
            conn.close()
''')]),
 ("release-split", "fire", [(H, REL, '''        with self._lock:
            keep = conn not in self._connections and not self._closed and len(self._connections) < self._cached_amount
        if keep:
            with self._lock:
                self._connections.append(conn)
        else:
            conn.close()
''')]),
 ("pool-close-unlocked", "fire", [(H, '''        with self._lock:
            self._closed = True
            for conn in self._connections.values():
                conn.close()
            self._connections.clear()
''', '''        with self._lock:
            self._closed = True
        for conn in self._connections.values():
            conn.close()
        self._connections.clear()
''')]),
 ("fetch-del-unlocked", "fire", [(H, "                with self._fetch_lock:\n                    del self._fetch_inprogress[url]", "                del self._fetch_inprogress[url]")]),
 ("fetch-lookup-unlocked", "fire", [(H, "            with self._fetch_lock:\n\n                # If I", "            promise = self._fetch_inprogress.get(url)\n            with self._fetch_lock:\n\n                # If I")]),
 ("pool-acquire-no-finally", "fire", [(H, '''        with self._lock:
            if self._connections:
                result = self._connections.pop()
''', '''        self._lock.acquire()
        if self._connections:
            result = self._connections.pop()
        self._lock.release()
''')]),
 ("wrong-lock", "fire", [(M, "        with self._workers_lock:\n            del", "        with Lock():\n            del")]),
 ("spawn-count-outside", "fire", [(M, SPAWN, '''        with self._workers_lock:
            n_workers = len(self._workers)
        if self._task_queue.unfinished_tasks > n_workers and n_workers < self._max_workers:
            new_worker = _WorkerHandler(self, f"worker {self._next_worker_id}")
            with self._workers_lock:
                self._next_worker_id += 1
                self._workers[new_worker.name] = new_worker
''')]),
 ("spawn-unlocked", "fire", [(M, SPAWN, SPAWN.replace("        with self._workers_lock:\n", "        if True:\n"))]),
 ("attach-unlocked", "fire", [(M, '''        with self._lock:
            if self._canceled:
                return False
            self._attached_worker = worker
''', '''        if self._canceled:
            return False
        self._attached_worker = worker
''')]),
 ("attach-set-after", "fire", [(M, '''        with self._lock:
            if self._canceled:
                return False
            self._attached_worker = worker

''', '''        with self._lock:
            if self._canceled:
                return False
        self._attached_worker = worker
''')]),
 ("cancel-unlocked", "fire", [(M, '''        with self._lock:
            if self.deferred.promise().is_completed():
                return False

            self._canceled = True
            if self._attached_worker:
                self._attached_worker.kill()
''', '''        if self.deferred.promise().is_completed():
            return False
        self._canceled = True
        if self._attached_worker:
            self._attached_worker.kill()
''')]),
 ("stream-flush-outside", "fire", [(M, '''                pickle.dump(_StdWrite(__s, self.stream_id), self.target_stream)
                self.target_stream.flush()
''', '''                pickle.dump(_StdWrite(__s, self.stream_id), self.target_stream)
            self.target_stream.flush()
''')]),
 ("stream-two-locks", "fire", [(M, "_StandardStreamPipe(self._stdout, 1, self._stdout_lock)", "_StandardStreamPipe(self._stdout, 1, Lock())")]),
 ("cached-del-unlocked", "fire", [(PR, "            with self._mutation_lock:\n                del", "            if True:\n                del")]),
 ("cached-compute-unlocked", "fire", [(PR, "        with instance_lock:\n            if not", "        if True:\n            if not")]),
 ("cached-no-retest", "fire", [(PR, "            if not hasattr(instance, self._attr):\n                value", "            if True:\n                value")]),
 ("cached-test-outside", "fire", [(PR, '''        with instance_lock:
            if not hasattr(instance, self._attr):
                value = self._func(instance)
''', '''        missing = not hasattr(instance, self._attr)
        with instance_lock:
            if missing:
                value = self._func(instance)
''')]),
 ("promise-listeners", "fire", [(P, '''            self._wait_lock.notify_all()
            listeners = self._listeners
            self._listeners = None

        for listener in listeners:
            listener()

    def _fail''', '''            self._wait_lock.notify_all()
        listeners = self._listeners
        self._listeners = None

        for listener in listeners:
            listener()

    def _fail''')]),
 ("live-remove-unlocked", "fire", [(D, "                with self._requires_render:\n                    self._live_components = [c for", "                if True:\n                    self._live_components = [c for")]),
 ("installed-remove-unlocked", "fire", [(CM, "        with _packages_being_installed_spinner_lock:\n            _packages_being_installed.remove", "        if True:\n            _packages_being_installed.remove")]),
 ("installed-append-unlocked", "fire", [(CM, "        _packages_being_installed.append(e.package)\n\n        update_description()\n", "        update_description()\n    _packages_being_installed.append(e.package)\n")]),
 ("q-helper", "quiet", [(H, '''        with self._lock:
            if self._connections:
                result = self._connections.pop()
''', '''        with self._lock:
            result = self._take()
'''), (H, "    def _release(self, conn: HTTPConnection):\n", '''    def _take(self):
        if self._connections:
            return self._connections.pop()
        return None

    def _release(self, conn: HTTPConnection):
''')]),
 ("q-alias", "quiet", [(H, REL, '''        lock = self._lock
        conns = self._connections
        with lock:
            if conn in conns:
                return
            if not self._closed and len(conns) < self._cached_amount:
                conns.append(conn)
            else:
                conn.close()
''')]),
 ("q-acquire-finally", "quiet", [(H, REL, '''        self._lock.acquire()
        try:
            if conn in self._connections:
                return
            if not self._closed and len(self._connections) < self._cached_amount:
                self._connections.append(conn)
            else:
                conn.close()
        finally:
            self._lock.release()
''')]),
 ("q-close-outside", "quiet", [(H, '''        with self._lock:
            self._closed = True
            for c in self._connections:
                c.close()
            self._connections.clear()
''', '''        with self._lock:
            self._closed = True
            open_connections = list(self._connections)
            self._connections.clear()
        for c in open_connections:
            c.close()
''')]),
 ("q-fetch-helper", "quiet", [(H, "                with self._fetch_lock:\n                    del self._fetch_inprogress[url]", "                self._done_fetching(url)"), (H, "    def clear_resources(self):\n", '''    def _done_fetching(self, url):
        with self._fetch_lock:
            self._fetch_inprogress.pop(url, None)

    def clear_resources(self):
''')]),
 ("q-spawn-helper", "quiet", [(M, SPAWN, '''        with self._workers_lock:
            if self._needs_worker():
                new_worker = self._register()
'''), (M, "    def close(self):\n        self._closed = True\n\n        with", '''    def _needs_worker(self):
        n = len(self._workers)
        return self._task_queue.unfinished_tasks > n and n < self._max_workers

    def _register(self):
        w = _WorkerHandler(self, f"worker {self._next_worker_id}")
        self._next_worker_id += 1
        self._workers[w.name] = w
        return w

    def close(self):
        self._closed = True

        with''')]),
 ("q-cached-dedent", "quiet", [(PR, '''            if not (instance_lock := self._instance_locks.get(iid)):
                self._instance_locks[iid] = instance_lock = RLock()
                instance_lock_owner = True
''', '''            instance_lock = self._instance_locks.get(iid)
            if instance_lock is None:
                instance_lock = RLock()
                self._instance_locks[iid] = instance_lock
                instance_lock_owner = True
''')]),
 ("q-cached-guard", "quiet", [(PR, '''        with instance_lock:
            if not hasattr(instance, self._attr):
                value = self._func(instance)
                try:
                    setattr(instance, self._attr, value)
                except FrozenInstanceError:
                    super(instance.__class__, instance).__setattr__(self._attr, value)
''', '''        with instance_lock:
            computed = hasattr(instance, self._attr)
            if not computed:
                self._store(instance, self._func(instance))
'''), (PR, "    def __get__(self", '''    def _store(self, instance, value):
        try:
            setattr(instance, self._attr, value)
        except FrozenInstanceError:
            super(instance.__class__, instance).__setattr__(self._attr, value)

    def __get__(self''')]),
 ("q-live-helper", "quiet", [(D, "                with self._requires_render:\n                    self._live_components = [c for c in self._live_components if c is not renderable]", "                self._drop(renderable)"), (D, "    @contextmanager\n    def show(self, iu: InformationUnit):\n", '''    def _drop(self, renderable):
        with self._requires_render:
            self._live_components = [c for c in self._live_components if c is not renderable]

    @contextmanager
    def show(self, iu: InformationUnit):
''')]),
 ("q-installed-inner", "quiet", [(CM, '''        with _packages_being_installed_spinner_lock:
            _packages_being_installed.remove(e.package)

            if not _packages_being_installed:
                _packages_being_installed_spinner_context.__exit__(None, None, None)
            else:
                update_description()
''', '''        with _packages_being_installed_spinner_lock:
            finish()
'''), (CM, '''    with _packages_being_installed_spinner_lock:
        if not''', '''    def finish():
        _packages_being_installed.remove(e.package)
        if _packages_being_installed:
            update_description()
        else:
            _packages_being_installed_spinner_context.__exit__(None, None, None)

    with _packages_being_installed_spinner_lock:
        if not''')]),
]
