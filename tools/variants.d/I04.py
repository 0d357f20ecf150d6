W = "api/distributions/wheel_distribution.py"
F = "utils/files.py"
D = "api/distributions/distinfo.py"
SIGN = '''        for file in files:
            if file.exists():
                if not file.is_dir():
'''
VARIANTS = [
 ("installer-direct", "fire", [(W, 'ct.prepare(new_dist_info.path / "INSTALLER").write_text(f"pkm")', '(new_dist_info.path / "INSTALLER").write_text(f"pkm")')]),
 ("list-before-marks", "fire", [(W, "            installed_files = list(ct.copied_files)\n", ""), (W, "            # mark the installer and the requested flag\n", "            installed_files = list(ct.copied_files)\n            # mark the installer and the requested flag\n")]),
 ("requested-after", "fire", [(W, '''            if user_request:
                ct.prepare(new_dist_info.user_requested_path())
                new_dist_info.mark_as_user_requested(user_request)
''', ""), (W, "            new_record_file.save()\n", '''            new_record_file.save()
            if user_request:
                ct.prepare(new_dist_info.user_requested_path())
                new_dist_info.mark_as_user_requested(user_request)
''')]),
 ("filter-pyc", "fire", [(W, "installed_files = list(ct.copied_files)", "installed_files = [f for f in ct.copied_files if f.suffix != '.pyc']")]),
 ("filter-outside", "fire", [(W, "installed_files = list(ct.copied_files)", "installed_files = [f for f in ct.copied_files if is_relative_to(f, site_packages)]")]),
 ("not-saved", "fire", [(W, "            new_record_file.save()\n", "            if new_record_file.records:\n                new_record_file.save()\n")]),
 ("scripts-not-recorded", "fire", [(W, "target.env, entrypoint, generated_scripts)\n                        ct.copy(script, scripts_path / script.name)", "target.env, entrypoint, scripts_path)\n")]),
 ("sign-skip-symlink", "fire", [(D, "                if not file.is_dir():\n                    path = str(path_to(root, file))", "                if not file.is_dir() and not file.is_symlink():\n                    path = str(path_to(root, file))")]),
 ("sign-only-within-root", "fire", [(D, SIGN, '''        for file in files:
            if root not in file.parents:
                continue
            if file.exists():
                if not file.is_dir():
''')]),
 ("sign-by-name", "fire", [(D, "path = str(path_to(root, file))\n\n                    hash_sig", "path = file.name\n\n                    hash_sig")]),
 ("sign-wrong-root", "fire", [(D, "path = str(path_to(root, file))\n\n                    hash_sig", "path = str(path_to(self.path, file))\n\n                    hash_sig")]),
 ("sign-break", "fire", [(D, '''                warnings.warn(f"requiring to sign non existing file - {file}, skipping it")
''', '''                warnings.warn(f"requiring to sign non existing file - {file}, skipping it")
                break
''')]),
 ("sign-precomputed-only", "fire", [(D, "                    records.append(Record(\n                        path,", "                    if hash_sig: records.append(Record(\n                        path,")]),
 ("copy-untracked", "fire", [(F, "        shutil.copy(source, self.prepare(target))", "        if target.exists():\n            self.prepare(target)\n        shutil.copy(source, target)")]),
 ("q-no-backup", "quiet", [(F, "        if target.exists() and target not in self._copied_files:\n            self.rm(target)\n", "")]),
 ("q-touch-late", "quiet", [(F, "        self._copied_files.add(target)\n        return target\n", "        return target\n"), (F, "        shutil.copy(source, self.prepare(target))", "        shutil.copy(source, self.prepare(target))\n        self._copied_files.add(target)"), (F, "                file_copy(s, self.prepare(d))", "                file_copy(s, self.prepare(d))\n                self._copied_files.add(d)"), (W, '''            ct.prepare(new_dist_info.path / "INSTALLER")''', '''            ct.touch(new_dist_info.path / "INSTALLER")
            ct.touch(new_dist_info.user_requested_path())
            ct.touch(new_dist_info.installation_info_path())
            ct.prepare(new_dist_info.path / "INSTALLER")'''), (W, "                        ct.prepare(Path(importlib.util", "                        ct.touch(Path(importlib.util.cache_from_source(str(cc))))\n                        ct.prepare(Path(importlib.util"),(W, "            ct.prepare(new_dist_info.record_path())\n", "            ct.touch(ct.prepare(new_dist_info.record_path()))\n")]),
 ("q-filter-dirs", "quiet", [(W, "installed_files = list(ct.copied_files)", "installed_files = [f for f in ct.copied_files if not f.is_dir()]")]),
 ("q-loop", "quiet", [(W, "installed_files = list(ct.copied_files)", "installed_files = []\n            for f in ct.copied_files:\n                installed_files.append(f)")]),
 ("q-sorted", "quiet", [(W, "new_record_file.sign_files(installed_files,", "new_record_file.sign_files(sorted(installed_files),")]),
 ("q-chain", "quiet", [(W, '''            new_record_file.sign_files(installed_files, site_packages, precomputed_hashes)

            new_record_file.save()
''', '''            new_record_file.sign_files(installed_files, site_packages, precomputed_hashes).save()
''')]),
 ("q-sign-flat", "quiet", [(D, '''            if file.exists():
                if not file.is_dir():
                    path = str(path_to(root, file))

                    hash_sig = get_or_compute(
                        precomputed_hashes, path,
                        lambda: HashSignature.compute_urlsafe_base64_nopad_encoded('sha256', file))

                    records.append(Record(
                        path,
                        hash_sig,
                        file.lstat().st_size  # size
                    ))
            else:
                warnings.warn(f"requiring to sign non existing file - {file}, skipping it")
''', '''            if not file.exists():
                warnings.warn(f"requiring to sign non existing file - {file}, skipping it")
                continue
            if file.is_dir():
                continue
            records.append(self._sign(file, root, precomputed_hashes))
'''), (D, '''    def sign_recursive(self, content''', '''    def _sign(self, file, root, hashes):
        rel = str(path_to(root, file))
        sig = hashes.get(rel) or HashSignature.compute_urlsafe_base64_nopad_encoded('sha256', file)
        return Record(rel, sig, file.lstat().st_size)

    def sign_recursive(self, content''')]),
 ("q-sign-comp", "quiet", [(D, SIGN, '''        for file in [f for f in files if not f.is_dir()]:
            if file.exists():
                if True:
''')]),
]
