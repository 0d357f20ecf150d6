H = "utils/http/http_client.py"
TAIL = '''            try:
                deffered.complete(_fetch())
            except BaseException as e:
                deffered.fail(e)
            finally:
                with self._fetch_lock:
                    del self._fetch_inprogress[url]
'''
VARIANTS = [
 ("exception-only", "fire", [(H, "            except BaseException as e:\n                deffered.fail(e)", "            except Exception as e:\n                deffered.fail(e)")]),
 ("del-on-success", "fire", [(H, TAIL, '''            try:
                deffered.complete(_fetch())
                with self._fetch_lock:
                    del self._fetch_inprogress[url]
            except BaseException as e:
                deffered.fail(e)
''')]),
 ("raise-before-fail", "fire", [(H, "                deffered.fail(e)\n", "                if isinstance(e, KeyboardInterrupt):\n                    raise\n                deffered.fail(e)\n")]),
 ("only-ok-result", "fire", [(H, "                deffered.complete(_fetch())\n", "                if (res := _fetch()).exists():\n                    deffered.complete(res)\n")]),
 ("notify-after-register", "fire", [(H, "            if cached:\n                mop.notify(FetchResourceCacheHitEvent())\n", "            mop.notify(FetchResourceCacheHitEvent())\n            if cached:\n")]),
 ("wait-under-lock", "fire", [(H, '''            if cached:
                mop.notify(FetchResourceCacheHitEvent())
                return promise.result()
''', '''                elif cached:
                    return promise.result()
''')]),
 ("del-if-not-cached", "fire", [(H, "                with self._fetch_lock:\n                    del self._fetch_inprogress[url]\n", "                if not self._resource_files_of(parsed_url).exists():\n                    with self._fetch_lock:\n                        del self._fetch_inprogress[url]\n")]),
 ("wrong-key", "fire", [(H, "                    del self._fetch_inprogress[url]\n", "                    self._fetch_inprogress.pop(str(parsed_url), None)\n")]),
 ("q-pop", "quiet", [(H, "                    del self._fetch_inprogress[url]\n", "                    self._fetch_inprogress.pop(url, None)\n")]),
 ("q-helper", "quiet", [(H, TAIL, '''            self._run_fetch(url, deffered, _fetch)
'''), (H, "    def clear_resources(self):", '''    def _run_fetch(self, key, target, operation):
        try:
            res = operation()
            target.complete(res)
        except BaseException as e:
            target.fail(e)
        finally:
            self._release(key)

    def _release(self, key):
        with self._fetch_lock:
            self._fetch_inprogress.pop(key)

    def clear_resources(self):''')]),
 ("q-release-first", "quiet", [(H, TAIL, '''            try:
                result, err = _fetch(), None
            except BaseException as e:
                result, err = None, e
            with self._fetch_lock:
                del self._fetch_inprogress[url]
            if err is not None:
                deffered.fail(err)
            else:
                deffered.complete(result)
''')]),
 ("q-ctx", "quiet", [(H, TAIL, '''            with self._registered(url):
                try:
                    deffered.complete(_fetch())
                except BaseException as e:
                    deffered.fail(e)
'''), (H, "    def clear_resources(self):", '''    @contextmanager
    def _registered(self, key):
        try:
            yield
        finally:
            with self._fetch_lock:
                del self._fetch_inprogress[key]

    def clear_resources(self):''')]),
 ("q-noop", "quiet", [(H, "            if cached:\n", "            pass\n            if cached:\n")]),
 ("q-swap", "quiet", [(H, '''                    promise = self._fetch_inprogress[url] = deffered.promise()''', '''                    promise = deffered.promise()
                    self._fetch_inprogress[url] = promise''')]),
 ("q-early", "quiet", [(H, "            cached = True\n            with self._fetch_lock:\n", "            cached = True\n            self._fetch_lock.acquire()\n            self._fetch_lock.release()\n            with self._fetch_lock:\n")]),
]
