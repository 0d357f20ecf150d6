S = "build/source_build_cache.py"
VARIANTS = [
    ("no_fallback", "fire", [(S, "project, odir, only_meta=False, target_env=target.env)", "project, odir, only_meta=metadata, target_env=target.env)")]),
    ("whole_wheel_ok", "quiet", [(S, "project, odir, only_meta=metadata, editable", "project, odir, only_meta=False, editable")]),
    ("no_hash", "fire", [(S, "cache_dir = base_cache_dir / dist_hash_value", "cache_dir = base_cache_dir / 'artifacts'")]),
    ("no_markers", "fire", [(S, """                         _normalize(str(dist.owner_package.version)) / \\
                         target.env.markers_hash
""", """                         _normalize(str(dist.owner_package.version))
""")]),
    ("no_version", "fire", [(S, """                         _normalize(str(dist.owner_package.version)) / \\
""", "")]),
    ("hash_of_name", "fire", [(S, "        stream(dist_hash, dist.archive)\n", "        dist_hash.update(str(dist.owner_package).encode())\n")]),
    ("hash_update_ok", "quiet", [(S, "        stream(dist_hash, dist.archive)\n", "        dist_hash.update(dist.archive.read_bytes())\n")]),
    ("hash_open_ok", "quiet", [(S, "        stream(dist_hash, dist.archive)\n", "        with dist.archive.open('rb') as fd:\n            stream(dist_hash, fd)\n")]),
    ("hash_helper_ok", "quiet", [(S, """        dist_hash = hashlib.blake2s()
        stream(dist_hash, dist.archive)
        dist_hash_value = dist_hash.hexdigest()
""", """        dist_hash_value = _hash_of(dist.archive)
"""), (S, "class SourceBuildCache:", """def _hash_of(archive: Path) -> str:
    result = hashlib.blake2s()
    stream(result, archive)
    return result.hexdigest()


class SourceBuildCache:""")]),
    ("fallback_wheel", "fire", [(S, "return PackageMetadata.load(metadata_file) if metadata else cached_output", "return cached_output")]),
    ("only_meta_always", "fire", [(S, "project, odir, only_meta=metadata, editable", "project, odir, only_meta=True, editable")]),
    ("no_target_env", "fire", [(S, "project, odir, only_meta=False, target_env=target.env)", "project, odir, only_meta=False)")]),
    ("editable", "fire", [(S, "editable=False", "editable=True")]),
    ("no_package", "fire", [(S, "Project.load(sdir, dist.owner_package)", "Project.load(sdir)")]),
    ("direct_wheel", "fire", [(S, "                _store(output, cached_output)\n", "                shutil.move(output, cached_output)\n")]),
    ("direct_metadata", "fire", [(S, "                _store(wheel_metadata_path, metadata_file)\n                return", "                shutil.copy(wheel_metadata_path, metadata_file)\n                return")]),
    ("part_is_whl", "fire", [(S, 'f"{cached.name}.part"', 'f"partial-{cached.name}"')]),
    ("temp_wheel", "fire", [(S, "if metadata else cached_output", "if metadata else output")]),
    ("any_wheel_or_none", "fire", [(S, """            if wheel := single_or(cache_dir.glob("*.whl"), None):
                return wheel
""", """            return single_or(cache_dir.glob("*.whl"), None)
""")]),
    ("unchecked_metadata", "fire", [(S, """        if metadata_file.exists():
            if metadata:
                return PackageMetadata.load(metadata_file)
""", """        if metadata and cache_dir.exists():
            return PackageMetadata.load(metadata_file)
        if metadata_file.exists():
""")]),
    ("loop_wheel_ok", "quiet", [(S, """            if wheel := single_or(cache_dir.glob("*.whl"), None):
                return wheel
""", """            for wheel in cache_dir.glob("*.whl"):
                return wheel
""")]),
    ("split_checks_ok", "quiet", [(S, """        if metadata_file.exists():
            if metadata:
                return PackageMetadata.load(metadata_file)
            if wheel""", """        if metadata and metadata_file.exists():
            return PackageMetadata.load(metadata_file)
        if not metadata:
            if wheel""")]),
    ("os_replace_ok", "quiet", [(S, "    partial.replace(cached)\n", "    os.replace(partial, cached)\n"), (S, "import hashlib\n", "import hashlib\nimport os\n")]),
    ("joinpath_ok", "quiet", [(S, "cached_output = cache_dir / output.name", "cached_output = cache_dir.joinpath(output.name)")]),
    ("is_file_ok", "quiet", [(S, "if output.is_dir():  # metadata", "if not output.is_file():  # metadata")]),
    ("wheel_of_workspace", "fire", [(S, 'single_or(cache_dir.glob("*.whl"), None)', 'single_or(base_cache_dir.rglob("*.whl"), None)')]),
    ("suffix_ok", "quiet", [(S, 'cached.with_name(f"{cached.name}.part")', 'cached.with_suffix(".part")')]),
    ("staging_ok", "quiet", [(S, """    partial = cached.with_name(f"{cached.name}.part")
""", """    partial = cached.parent / '.staging' / cached.name
    partial.parent.mkdir(exist_ok=True)
""")]),
    ("dir_helper_ok", "quiet", [(S, """        base_cache_dir = self.workspace / _normalize(dist.owner_package.name) / \\
                         _normalize(str(dist.owner_package.version)) / \\
                         target.env.markers_hash
""", """        base_cache_dir = self._version_dir(dist.owner_package) / target.env.markers_hash
""")]),
    ("build_helper_ok", "quiet", [(S, """                output = ext_build.build_wheel(
                    project, odir, only_meta=False, target_env=target.env)
""", """                output = self._build_all(project, odir, target)
"""), (S, "    def get_or_build_meta(", """    def _build_all(self, project, odir, target):
        return ext_build.build_wheel(project, odir, target_env=target.env)

    def get_or_build_meta(""")]),
]
