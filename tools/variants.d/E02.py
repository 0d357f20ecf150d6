F = "utils/files.py"
P = "api/projects/project.py"
S = "build/source_build_cache.py"
T = '''    path = Path(mkdtemp())
    try:
        yield path
    finally:
        shutil.rmtree(path, ignore_errors=True)
'''
VARIANTS = [
 ("no finally", "fire", [(F, T, "    path = Path(mkdtemp())\n    yield path\n    shutil.rmtree(path, ignore_errors=True)\n")]),
 ("except Exception", "fire", [(F, T, T.replace("    finally:\n        shutil.rmtree(path, ignore_errors=True)\n", "    except Exception:\n        shutil.rmtree(path, ignore_errors=True)\n        raise\n    shutil.rmtree(path, ignore_errors=True)\n"))]),
 ("rmdir wrong path", "fire", [(F, "        shutil.rmtree(path, ignore_errors=True)", "        shutil.rmtree(path.parent / 'x', ignore_errors=True)")]),
 ("rollback without commit", "fire", [(F, "            shutil.move(restore_path, path)\n\n        self._commit()\n", "            shutil.move(restore_path, path)\n")]),
 ("rollback early return", "fire", [(F, "        for i, path in enumerate(self._overwritten_files):\n            restore_path", "        if not self._overwritten_files:\n            return\n        for i, path in enumerate(self._overwritten_files):\n            restore_path")]),
 ("commit keeps", "fire", [(F, "        shutil.rmtree(self._temp_dir)\n        self._temp_dir = None", "        self._temp_dir = None")]),
 ("unscoped use", "fire", [(P, "        with temp_dir() as tdir:", "        tdir = temp_dir().__enter__()\n        if True:")]),
 ("enter raises", "fire", [(F, "        self._temp_dir = Path(mkdtemp())\n        return self", "        self._temp_dir = Path(mkdtemp())\n        (self._temp_dir / 'log').touch()\n        return self")]),
 ("mkdtemp in cache", "fire", [(S, "        with temp_dir() as tdir:", "        from tempfile import mkdtemp\n        tdir = Path(mkdtemp())\n        if True:")]),
 ("mkdtemp in cache with late try", "fire", [(S, "        with temp_dir() as tdir:", "        from tempfile import mkdtemp\n        import shutil\n        tdir = Path(mkdtemp())\n        tdir.touch()\n        shutil.rmtree(tdir)\n        if True:")]),
 ("conditional commit", "fire", [(F, "        else:\n            self._commit()\n\n    def _commit", "        elif self._copied_files:\n            self._commit()\n\n    def _commit")]),
 ("helper", "quiet", [(F, T, "    path = _make()\n    try:\n        yield path\n    finally:\n        _drop(path)\n"), (F, "@contextmanager\ndef temp_dir", "def _make() -> Path:\n    return Path(mkdtemp())\n\n\ndef _drop(p):\n    shutil.rmtree(p, ignore_errors=True)\n\n\n@contextmanager\ndef temp_dir")]),
 ("except base", "quiet", [(F, T, "    path = Path(mkdtemp())\n    try:\n        yield path\n    except BaseException:\n        shutil.rmtree(path, ignore_errors=True)\n        raise\n    shutil.rmtree(path, ignore_errors=True)\n")]),
 ("TemporaryDirectory", "quiet", [(F, T, "    from tempfile import TemporaryDirectory\n    with TemporaryDirectory() as d:\n        yield Path(d)\n")]),
 ("commit first var", "quiet", [(F, "        shutil.rmtree(self._temp_dir)\n        self._temp_dir = None", "        tdir, self._temp_dir = self._temp_dir, None\n        shutil.rmtree(tdir)")]),
 ("exitstack", "quiet", [(P, "        with temp_dir() as tdir:", "        from contextlib import ExitStack\n        with ExitStack() as es:\n            tdir = es.enter_context(temp_dir())")]),
 ("var", "quiet", [(P, "        with temp_dir() as tdir:", "        scope = temp_dir()\n        with scope as tdir:")]),
]
