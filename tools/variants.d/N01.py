H = "utils/http/http_client.py"
COPY = '''            with open(self.data, 'wb') as df:
                shutil.copyfileobj(response, df)
'''
CHK = '''            if getattr(response, 'length', None):  # http.client reports missing bytes only for unbounded reads
                raise HttpException(f"connection closed with {response.length} bytes left to receive", response)
'''
VARIANTS = [
 ("no-length", "fire", [(H, CHK, "")]),
 ("no-unlink-marker", "fire", [(H, "        if self.fetch_info.exists():\n            self.fetch_info.unlink()\n", "")]),
 ("marker-first", "fire", [(H, "            fetch_info.save()\n        except", "        except"), (H, "            with open(self.data, 'wb') as df:\n", "            FetchInfoConfig.load(self.fetch_info).save(self.fetch_info)\n            with open(self.data, 'wb') as df:\n")]),
 ("exists-data-only", "fire", [(H, "return self.data.exists() and self.fetch_info.exists()", "return self.data.exists()")]),
 ("exists-or", "fire", [(H, "return self.data.exists() and self.fetch_info.exists()", "return self.data.exists() or self.fetch_info.exists()")]),
 ("any-2xx-3xx", "fire", [(H, "if response.status == 200:", "if response.status < 304:")]),
 ("not-404", "fire", [(H, "elif response.status != 304 or not is_cached:", "elif response.status >= 500:")]),
 ("304-uncached", "fire", [(H, "elif response.status != 304 or not is_cached:", "elif response.status != 304:")]),
 ("valid-only", "fire", [(H, "use_cached_data = cache_files.exists() and cache.is_cache_valid(fetch_info)", "use_cached_data = cache.is_cache_valid(fetch_info)")]),
 ("unlink-after-open", "fire", [(H, "        if self.fetch_info.exists():\n            self.fetch_info.unlink()\n", ""), (H, COPY, COPY + "            self.fetch_info.unlink(missing_ok=True)\n")]),
 ("swallow", "fire", [(H, "                        raise\n", "                        pass\n"), ("utils/http/http_client.py", '''                                if isinstance(e, HttpException):
                                    raise
                                else:
                                    raise HttpException(str(e), response) from e''', '''                                if not isinstance(e, HttpException):
                                    raise HttpException(str(e), response) from e''')]) if False else
 ("swallow", "fire", [(H, '''                                if isinstance(e, HttpException):
                                    raise
                                else:
                                    raise HttpException(str(e), response) from e''', '''                                if not isinstance(e, HttpException):
                                    raise HttpException(str(e), response) from e''')]),
 ("q-reorder", "quiet", [(H, "return self.data.exists() and self.fetch_info.exists()", "if not self.fetch_info.exists():\n            return False\n        return self.data.is_file()")]),
 ("q-unlink-missing-ok", "quiet", [(H, "        if self.fetch_info.exists():\n            self.fetch_info.unlink()\n", "        self.fetch_info.unlink(missing_ok=True)\n")]),
 ("q-tmp-replace", "quiet", [(H, COPY + "\n" + CHK, '''            part = self.data.with_suffix('.part')
            with open(part, 'wb') as df:
                shutil.copyfileobj(response, df)
            if response.length:
                raise HttpException("short")
            os.replace(part, self.data)
'''), (H, "import json\n", "import json\nimport os\n")]),
 ("q-helper", "quiet", [(H, COPY, "            self._store_body(response)\n"), (H, "    def save(self, response", '''    def _store_body(self, resp):
        with self.data.open('wb') as out:
            shutil.copyfileobj(resp, out)

    def save(self, response''')]),
 ("q-status-order", "quiet", [(H, '''                                    if response.status == 200:
                                        cache_files.save(response)
                                    elif response.status != 304 or not is_cached:
                                        raise HttpException(
                                            f"request to {url} ended with unexpected status code:"
                                            f" {response.status} ({response.msg})", response)
''', '''                                    status = response.status
                                    if status == 304 and is_cached:
                                        pass
                                    elif status != 200:
                                        raise HttpException(
                                            f"request to {url} ended with unexpected status code:"
                                            f" {response.status} ({response.msg})", response)
                                    else:
                                        cache_files.save(response)
''')]),
 ("q-nested-if", "quiet", [(H, "use_cached_data = cache_files.exists() and cache.is_cache_valid(fetch_info)", "use_cached_data = False\n                        if cache_files.exists():\n                            use_cached_data = cache.is_cache_valid(fetch_info)")]),
 ("q-method", "quiet", [(H, "                        return cache_files\n", "                        result = cache_files\n                        return result\n")]),
]
