W = "api/distributions/wheel_distribution.py"
H = "utils/hashes.py"
VARIANTS = [
 ("skip-verify", "fire", [(W, "        if not skip_record_verification:\n            _verify_records", "        if skip_record_verification:\n            _verify_records")]),
 ("caller-skips", "fire", [(W, "target, user_request, installation_mode)\n\n\ndef _find", "target, user_request, installation_mode,\n                skip_record_verification=bool(user_request))\n\n\ndef _find")]),
 ("skip-so", "fire", [(W, "        if file.is_dir():\n            continue\n", "        if file.is_dir() or file.suffix == '.pyc':\n            continue\n")]),
 ("order", "fire", [(W, "            _verify_records(dist_info, content, records_file)\n", "            pass\n"), (W, "            new_record_file.save()\n", "            new_record_file.save()\n            _verify_records(dist_info, content, records_file)\n")]),
 ("glob-only-top", "fire", [(W, 'for file in content.rglob("*"):', 'for file in content.glob("*"):')]),
 ("warn-only", "fire", [(W, '''                    raise InstallationException(f"File signature not matched for: {record.file}")''', '''                    warnings.warn(f"File signature not matched for: {record.file}")''')]),
 ("any-record-name", "fire", [(W, 'elif file != dist_info.path / "RECORD":', 'elif file.name != "RECORD":')]),
 ("by-name", "fire", [(W, "record_by_path.get(path)", "record_by_path.get(file.name)")]),
 ("first-chunk", "fire", [(H, "            hd.update(chunk)\n", "            hd.update(chunk)\n            break\n")]),
 ("prefix-compare", "fire", [(H, "return computed_hash == self.hash_value", "return computed_hash.startswith(self.hash_value)")]),
 ("tail-dropped", "fire", [("utils/io_streams.py", "            if sz == chunk_size:\n                yield chunk\n            else:\n                yield memoryview(chunk)[:sz]\n", "            if sz == chunk_size:\n                yield chunk\n")]),
 ("unknown-hash-ok", "fire", [(H, '            raise KeyError(f"Cannot validate archive, Unsupported Hash {self.hash_type}")', "            return True")]),
 ("tolerate-all-dist-info", "fire", [(W, "if dist_info.path in file.parents:", "if any(it.name.endswith('.dist-info') for it in file.parents):")]),
 ("no-elif", "fire", [(W, '''        elif file != dist_info.path / "RECORD":
            raise InstallationException(
                f"Wheel contains files with no signature in RECORD, "
                f"e.g., {path}")''', '''        elif file.suffix == '.py':
            raise InstallationException(
                f"Wheel contains files with no signature in RECORD, "
                f"e.g., {path}")''')]),
 # behaviour preserving
 ("q-list", "quiet", [(W, '''    for file in content.rglob("*"):
        if file.is_dir():
            continue
''', '''    files = [f for f in content.rglob("*") if not f.is_dir()]
    for file in files:
''')]),
 ("q-helper", "quiet", [(W, '''    for file in content.rglob("*"):
        if file.is_dir():
            continue

        path = str(path_to(content, file))
        if (record := record_by_path.get(path)) and record.hash_signature:
            if not record.hash_signature.validate_against(file):
                if dist_info.path in file.parents:
                    warnings.warn(f"mismatch hash signature for {file}")
                else:
                    raise InstallationException(f"File signature not matched for: {record.file}")

        elif file != dist_info.path / "RECORD":
            raise InstallationException(
                f"Wheel contains files with no signature in RECORD, "
                f"e.g., {path}")
''', '''    for file in content.rglob("*"):
        if not file.is_dir():
            _verify_file(dist_info, content, file, record_by_path)


def _verify_file(dist_info, content, file, record_by_path):
    path = str(path_to(content, file))
    record = record_by_path.get(path)
    if record is None or not record.hash_signature:
        if file == dist_info.path / "RECORD":
            return
        raise InstallationException(
            f"Wheel contains files with no signature in RECORD, "
            f"e.g., {path}")
    if record.hash_signature.validate_against(file):
        return
    if dist_info.path not in file.parents:
        raise InstallationException(f"File signature not matched for: {record.file}")
    warnings.warn(f"mismatch hash signature for {file}")
''')]),
 ("q-inline-skip", "quiet", [(W, "        if not skip_record_verification:\n            _verify_records(dist_info, content, records_file)\n", "        verify = not skip_record_verification\n        if verify:\n            _verify_records(dist_info, content, records_file)\n")]),
 ("q-method", "quiet", [(W, "            _verify_records(dist_info, content, records_file)\n", "            cls._check(dist_info, content, records_file)\n"),
   (W, "    def install_to(self, target", "    @classmethod\n    def _check(cls, dist_info, content, records_file):\n        _verify_records(dist_info, content, records_file)\n\n    def install_to(self, target")]),
 ("q-hash", "quiet", [(H, "        stream(hash_computer, file)\n        computed_hash = self._encode_hash(hash_computer)\n        return computed_hash == self.hash_value\n", "        hash_computer.update(file.read_bytes())\n        return self.hash_value == self._encode_hash(hash_computer)\n")]),
 ("q-hash2", "quiet", [(H, "        return computed_hash == self.hash_value\n", "        if computed_hash != self.hash_value:\n            return False\n        return True\n")]),
 ("q-chunks", "quiet", [(H, "        for chunk in chunks(file, chunk_size):\n            hd.update(chunk)\n", "        while True:\n            chunk = file.read(chunk_size)\n            if not chunk:\n                break\n            hd.update(chunk)\n")]),
 ("q-rel", "quiet", [(W, "path = str(path_to(content, file))", "path = file.relative_to(content).as_posix()")]),
 ("q-early", "quiet", [(W, '''        _remove_empty_directories(content)

        records_file: RecordsFileConfiguration = dist_info.load_record_cfg()
        if not skip_record_verification:
            _verify_records(dist_info, content, records_file)
''', '''        records_file: RecordsFileConfiguration = dist_info.load_record_cfg()
        if not skip_record_verification:
            _verify_records(dist_info, content, records_file)

        _remove_empty_directories(content)
''')]),
 ("q-count-loop", "quiet", [(W, '''        _remove_empty_directories(content)
''', '''        _remove_empty_directories(content)
        total = 0
        for f in content.rglob("*"):
            total += 1
''')]),
 ("q-collect-errors", "quiet", [(W, '''    for file in content.rglob("*"):
        if file.is_dir():
            continue

        path''', '''    unsigned = []
    for file in content.rglob("*"):
        if file.is_dir():
            continue

        path'''), (W, '''            raise InstallationException(
                f"Wheel contains files with no signature in RECORD, "
                f"e.g., {path}")
''', '''            unsigned.append(path)
    if unsigned:
            raise InstallationException(
                f"Wheel contains files with no signature in RECORD, "
                f"e.g., {unsigned[0]}")
''')]),
]
