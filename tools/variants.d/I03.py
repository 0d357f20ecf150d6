W = "api/distributions/wheel_distribution.py"
F = "utils/files.py"
VARIANTS = [
 ("installer-direct", "fire", [(W, 'ct.prepare(new_dist_info.path / "INSTALLER").write_text(f"pkm")', '(new_dist_info.path / "INSTALLER").write_text(f"pkm")')]),
 ("record-direct", "fire", [(W, "            ct.prepare(new_dist_info.record_path())\n", "")]),
 ("requested-direct", "fire", [(W, "                ct.prepare(new_dist_info.user_requested_path())\n", "")]),
 ("info-outside", "fire", [(W, "            new_record_file.save()\n", "            new_record_file.save()\n        if installation_info:\n            new_dist_info.save_installation_info(installation_info)\n")]),
 ("scripts-direct", "fire", [(W, "target.env, entrypoint, generated_scripts)\n                        ct.copy(script, scripts_path / script.name)", "target.env, entrypoint, scripts_path)\n                        ct.touch(script)")]),
 ("pyc-untracked", "fire", [(W, "                        ct.prepare(Path(importlib.util.cache_from_source(str(cc))))\n", "")]),
 ("touch-late", "fire", [(F, "        self._copied_files.add(target)\n        return target\n", "        return target\n"), (F, "        shutil.copy(source, self.prepare(target))", "        shutil.copy(source, self.prepare(target))\n        self._copied_files.add(target)")]),
 ("no-backup", "fire", [(F, "        if target.exists() and target not in self._copied_files:\n            self.rm(target)\n", "")]),
 ("backup-symlink-only", "fire", [(F, "        if target.exists() and target not in self._copied_files:\n", "        if target.is_symlink() and target not in self._copied_files:\n")]),
 ("shutil-in-tree", "fire", [(F, "                cp(file, target / file.name)", "                shutil.copy(file, target / file.name)")]),
 ("mkdir-untracked", "fire", [(F, "            target.mkdir()\n            self._copied_files.add(target)", "            target.mkdir()")]),
 ("mkdir-parents", "fire", [(F, "            if not target.parent.exists():\n                self.mkdir(target.parent)\n            target.mkdir()", "            target.mkdir(parents=True)")]),
 ("rm-not-registered", "fire", [(F, "        self._overwritten_files.append(path)\n", "        if path.is_file():\n            self._overwritten_files.append(path)\n")]),
 ("restore-first", "fire", [(F, '''        for i, path in enumerate(self._overwritten_files):
            restore_path = self._temp_dir / str(i)
            shutil.move(restore_path, path)

        self._commit()
''', "        self._commit()\n"), (F, "    def _rollback(self):\n", '''    def _rollback(self):
        for i, path in enumerate(self._overwritten_files):
            restore_path = self._temp_dir / str(i)
            shutil.move(restore_path, path)

''')]),
 ("commit-before-restore", "fire", [(F, "        for i, path in enumerate(self._overwritten_files):\n", "        self._commit()\n        for i, path in enumerate(self._overwritten_files):\n")]),
 ("no-restore", "fire", [(F, "            shutil.move(restore_path, path)\n\n        self._commit()", "            restore_path.unlink(missing_ok=True)\n\n        self._commit()")]),
 ("swallow", "fire", [(F, "            self._rollback()\n        else:", "            self._rollback()\n            return isinstance(exc_val, OSError)\n        else:")]),
 ("only-exception", "fire", [(F, "        if exc_val is not None:  # rollback", "        if exc_val is not None and isinstance(exc_val, Exception):  # rollback")]),
 ("dirs-unordered", "fire", [(F, "sorted(self._copied_files, key=lambda it: len(it.parts), reverse=True)", "self._copied_files")]),
 ("dirs-not-removed", "fire", [(F, "            if file.is_dir() and is_empty_directory(file):\n                file.rmdir()", "            pass")]),
 ("rollback-on-success", "fire", [(F, "        else:\n            self._commit()", "        else:\n            self._rollback()")]),
 ("write-after-with", "fire", [(W, "            new_record_file.save()\n", "        new_record_file.save()\n")]),
 ("callback-backup", "fire", [(W, "        with CopyTransaction() as ct:", "        def patch(s, t):\n            Executables.patch_shabang_for_interpreter(s, t, target.env.interpreter_path)\n            t.with_suffix('.orig').write_bytes(s.read_bytes())\n\n        with CopyTransaction() as ct:"), (W, '''file_copy=lambda s, t: Executables.patch_shabang_for_interpreter(
                                        s, t, target.env.interpreter_path))''', "file_copy=patch)")]),
 # quiet
 ("q-noop", "quiet", [(W, "        data_dir = dist_info", "        pass\n        data_dir = dist_info")]),
 ("q-comment", "quiet", [(F, "", "\n# trailing\n")]),
 ("q-prepare-first", "quiet", [(W, '            ct.prepare(new_dist_info.path / "INSTALLER").write_text(f"pkm")', '            installer = new_dist_info.path / "INSTALLER"\n            ct.prepare(installer)\n            installer.write_text("pkm")')]),
 ("q-helper", "quiet", [(W, '''            if user_request:
                ct.prepare(new_dist_info.user_requested_path())
                new_dist_info.mark_as_user_requested(user_request)
''', '''            _mark_requested(ct, new_dist_info, user_request)
'''), (W, "def _find_dist_info(", '''def _mark_requested(tx, info, request):
    if not request:
        return
    tx.prepare(info.user_requested_path())
    info.mark_as_user_requested(request)


def _find_dist_info(''')]),
 ("q-rollback-split", "quiet", [(F, '''        for file in self._copied_files:
            if not file.is_dir():
                file.unlink(missing_ok=True)
''', '''        created = list(self._copied_files)
        for file in [f for f in created if not f.is_dir()]:
            file.unlink(missing_ok=True)
''')]),
 ("q-sorted-neg", "quiet", [(F, "key=lambda it: len(it.parts), reverse=True", "key=lambda it: -len(it.parts)")]),
 ("q-sorted-list", "quiet", [(F, "        for file in sorted(self._copied_files, key=lambda it: len(it.parts), reverse=True):\n", "        dirs = list(self._copied_files)\n        dirs.sort(key=lambda it: len(it.parts), reverse=True)\n        for file in dirs:\n")]),
 ("q-exc-type", "quiet", [(F, "        if exc_val is not None:  # rollback", "        if exc_type is not None:  # rollback")]),
 ("q-exit-early", "quiet", [(F, '''        if exc_val is not None:  # rollback
            import traceback
            traceback.print_exc()
            self._rollback()
        else:
            self._commit()
''', '''        if exc_val is None:
            self._commit()
            return
        import traceback
        traceback.print_exc()
        self._rollback()
''')]),
 ("q-prepare-inline", "quiet", [(F, "        shutil.copy(source, self.prepare(target))", "        dst = self.prepare(target)\n        shutil.copy2(source, dst)")]),
 ("q-backup-helper", "quiet", [(F, '''        if target.exists() and target not in self._copied_files:
            self.rm(target)

        self._copied_files.add(target)
        return target
''', '''        self._keep_content(target)
        self._copied_files.add(target)
        return target

    def _keep_content(self, target):
        if target in self._copied_files:
            return
        if target.exists():
            self.rm(target)
''')]),
 ("q-copy-loop", "quiet", [(F, '''            if file.is_dir():
                self.copy_tree(file, target / file.name, accept, file_copy)
            else:
                cp(file, target / file.name)
''', '''            dst = target / file.name
            if not file.is_dir():
                cp(file, dst)
                continue
            self.copy_tree(file, dst, accept, file_copy)
''')]),
 ("q-install-extract-method", "quiet", [(W, '''            #  compile py to pyc, mark the compiled files in the transaction, so that they will be added to record
            with warnings.catch_warnings():
                warnings.filterwarnings('ignore')
                for cc in list(ct.copied_files):
                    if cc.suffix == '.py':
                        ct.prepare(Path(importlib.util.cache_from_source(str(cc))))
                        compileall.compile_file(cc, force=True, quiet=2)
''', '''            _compile(ct)
'''), (W, "def _find_dist_info(", '''def _compile(ct):
    with warnings.catch_warnings():
        warnings.filterwarnings('ignore')
        sources = [f for f in ct.copied_files if f.suffix == '.py']
        for source in sources:
            ct.prepare(Path(importlib.util.cache_from_source(str(source))))
            compileall.compile_file(source, force=True, quiet=2)


def _find_dist_info(''')]),
 ("restore first only", "fire", [(F, "            shutil.move(restore_path, path)\n", "            shutil.move(restore_path, path)\n            break\n")]),
 ("restore swapped", "fire", [(F, "shutil.move(restore_path, path)", "shutil.move(path, restore_path)")]),
 ("dirs kept", "fire", [(F, "                file.rmdir()\n", "                pass\n")]),
 ("dirs unless empty", "fire", [(F, "if file.is_dir() and is_empty_directory(file):", "if file.is_dir() and not is_empty_directory(file):")]),
 ("dirs always", "fire", [(F, "if file.is_dir() and is_empty_directory(file):", "if file.is_dir():")]),
 ("unlink anything", "fire", [(F, "            if not file.is_dir():\n                file.unlink(missing_ok=True)\n", "            file.unlink(missing_ok=True)\n")]),
 ("unlink existing", "fire", [(F, "file.unlink(missing_ok=True)", "file.unlink()")]),
 ("own content aside", "fire", [(F, "        if target.exists() and target not in self._copied_files:\n", "        if target.exists():\n")]),
 ("dirs before files", "fire", [(F, """        for file in self._copied_files:
            if not file.is_dir():
                file.unlink(missing_ok=True)
""", ""), (F, "        for i, path in enumerate(self._overwritten_files):\n", """        for file in self._copied_files:
            if not file.is_dir():
                file.unlink(missing_ok=True)

        for i, path in enumerate(self._overwritten_files):
""")]),
 ("q one loop", "quiet", [(F, """        for file in self._copied_files:
            if not file.is_dir():
                file.unlink(missing_ok=True)
""", ""), (F, """            if file.is_dir() and is_empty_directory(file):
                file.rmdir()
""", """            if not file.is_dir():
                file.unlink(missing_ok=True)
            elif is_empty_directory(file):
                file.rmdir()
""")]),
 ("q unlink suppressed", "quiet", [(F, "                file.unlink(missing_ok=True)\n", """                try:
                    file.unlink()
                except FileNotFoundError:
                    pass
""")]),
 ("q is_file", "quiet", [(F, "            if not file.is_dir():\n                file.unlink(missing_ok=True)\n", "            if file.exists() and not file.is_dir():\n                file.unlink()\n")]),
 ("q restore reversed", "quiet", [(F, "        for i, path in enumerate(self._overwritten_files):\n            restore_path = self._temp_dir / str(i)\n", "        for i in reversed(range(len(self._overwritten_files))):\n            path = self._overwritten_files[i]\n            restore_path = self._temp_dir / str(i)\n")]),
]
