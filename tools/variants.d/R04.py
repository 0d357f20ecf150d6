S = "api/packages/standard_package.py"
C = "repositories/conda-pkm-repo/src/conda_pkm_repo/conda_channel_subdir.py"
H = "repositories/shared_pacakges_repo.py"
I = "api/environments/environment_introspection.py"
P = "repositories/pypi_repository.py"
M = "repositories/simple_repository.py"
W = "api/distributions/wheel_distribution.py"
LOOP = open("/repo/pkm/src/pkm/" + S).read()
LOOP = LOOP[LOOP.index("        for artifact in self._artifacts:\n"):LOOP.index("        return best_binary_dist or source_dist\n")]
REQ = '''            if requires_python:
                try:
                    if not requires_python.allows_version(env_interpreter):
                        continue
                except ValueError:
                    print(
                        'could not parse python requirements for artifact:'
                        f' {file_name} of {self.name}=={self.version}, skipping it')
                    continue
'''
VARIANTS = [
    ("req_only_wheels", "fire", [(S, "            if requires_python:\n                try:", "            if requires_python and is_binary:\n                try:")]),
    ("error_accepts", "fire", [(S, "                        f' {file_name} of {self.name}=={self.version}, skipping it')\n                    continue\n", "                        f' {file_name} of {self.name}=={self.version}, skipping it')\n")]),
    ("late_req", "fire", [(S, REQ, ""), (S, "            else:\n                source_dist = artifact\n", "            else:\n                source_dist = artifact\n" + REQ)]),
    ("no_score", "fire", [(S, "if (score := env.compatibility_tag_score(ctag)) is not None:\n                    if best_binary_dist_score is None or best_binary_dist_score < score:", "score = env.compatibility_tag_score(ctag)\n                if best_binary_dist is None or score is not None:\n                    if best_binary_dist_score is None or best_binary_dist_score < score:")]),
    ("or_first", "fire", [(S, "        return best_binary_dist or source_dist\n", "        return best_binary_dist or source_dist or (self._artifacts[0] if self._artifacts else None)\n")]),
    ("fallback", "fire", [(S, "        source_dist: Optional[PackageArtifact] = None\n", "        source_dist: Optional[PackageArtifact] = next((a for a in self._artifacts if not a.is_binary()), None)\n")]),
    ("single", "fire", [(S, "        env_interpreter = env.interpreter_version\n", "        env_interpreter = env.interpreter_version\n        if len(self._artifacts) == 1:\n            return self._artifacts[0]\n")]),
    ("own_python", "fire", [(S, "        env_interpreter = env.interpreter_version\n", "        from pkm.api.environments.environment import Environment\n        env_interpreter = Environment.current().interpreter_version\n")]),
    ("current_score", "fire", [(S, "env.compatibility_tag_score(ctag)", "Environment.current().compatibility_tag_score(ctag)")]),
    ("other_env", "fire", [(S, "artifact = self.best_artifact_for(target.env)\n        artifact_path", "from pkm.api.pkm import pkm\n        artifact = self.best_artifact_for(pkm.current_env)\n        artifact_path")]),
    ("cache_choice", "fire", [(S, "        env_interpreter = env.interpreter_version\n", "        if self._path_per_artifact_id:\n            return next(a for a in self._artifacts if id(a) in self._path_per_artifact_id)\n        env_interpreter = env.interpreter_version\n")]),
    ("helper", "quiet", [(S, REQ, "            if not self._admits(artifact, env_interpreter):\n                continue\n"), (S, "    def is_compatible_with(self, env: \"Environment\"):\n", '''    def _admits(self, artifact, version):
        if not artifact.requires_python:
            return True
        try:
            return artifact.requires_python.allows_version(version)
        except ValueError:
            return False

    def is_compatible_with(self, env: "Environment"):
''')]),
    ("two_steps", "quiet", [(S, LOOP, '''        fitting = []
        for artifact in self._artifacts:
            try:
                if artifact.requires_python is None or artifact.requires_python.allows_version(env_interpreter):
                    fitting.append(artifact)
            except ValueError:
                pass

        for artifact in fitting:
            if not artifact.is_binary():
                source_dist = artifact
                continue
            score = env.compatibility_tag_score(WheelDistribution.extract_compatibility_tags_of(Path(artifact.file_name)))
            if score is None:
                continue
            if best_binary_dist_score is None or best_binary_dist_score < score:
                best_binary_dist, best_binary_dist_score = artifact, score

''')]),
    ("two_steps_bad", "fire", [(S, LOOP, '''        fitting = []
        for artifact in self._artifacts:
            try:
                if artifact.requires_python is None or artifact.requires_python.allows_version(env_interpreter):
                    fitting.append(artifact)
            except ValueError:
                pass

        for artifact in fitting or self._artifacts:
            if not artifact.is_binary():
                source_dist = artifact
                continue
            score = env.compatibility_tag_score(WheelDistribution.extract_compatibility_tags_of(Path(artifact.file_name)))
            if score is None:
                continue
            if best_binary_dist_score is None or best_binary_dist_score < score:
                best_binary_dist, best_binary_dist_score = artifact, score

''')]),
    ("comp", "quiet", [(S, LOOP, '''        fitting = [a for a in self._artifacts if not a.requires_python or a.requires_python.allows_version(env_interpreter)]
        scored = [(env.compatibility_tag_score(WheelDistribution.extract_compatibility_tags_of(Path(a.file_name))), a) for a in fitting if a.is_binary()]
        for score, a in scored:
            if score is not None and (best_binary_dist_score is None or score > best_binary_dist_score):
                best_binary_dist, best_binary_dist_score = a, score
        for a in fitting:
            if not a.is_binary():
                source_dist = a
''')]),
    ("alias", "quiet", [(S, "            requires_python = artifact.requires_python\n", "            current = artifact\n            requires_python = current.requires_python\n"), (S, "                        best_binary_dist = artifact\n", "                        best_binary_dist = current\n")]),
    ("binary_only_else", "quiet", [(S, "            if is_binary:\n                ctag", "            if not is_binary:\n                source_dist = artifact\n            if is_binary:\n                ctag"), (S, "\n            else:\n                source_dist = artifact\n", "")]),
    ("conda_req", "fire", [(C, "               and a.required_python.allows_version(env.interpreter_version)\n", "")]),
    ("conda_ge", "fire", [(C, "if (tag_score := env.compatibility_tag_score(a.compatibility_tag)) is not None\n               and", "if (tag_score := env.compatibility_tag_score(a.compatibility_tag) or ()) is not None\n               and")]),
    ("conda_first", "fire", [(C, "        if not scored_artifacts:\n            return None\n", "        if not scored_artifacts:\n            return self.artifacts[0]\n")]),
    ("conda_loop", "quiet", [(C, "            if (tag_score := env.compatibility_tag_score(a.compatibility_tag)) is not None\n               and a.required_python.allows_version(env.interpreter_version)\n", "            if a.required_python.allows_version(env.interpreter_version)\n               and (tag_score := env.compatibility_tag_score(a.compatibility_tag)) is not None\n")]),
    ("shared_attr", "fire", [(H, "compatibility_tag_score(a.compatibility_tags)", "compatibility_tag_score(a.compatibility_tag)")]),
    ("shared_any", "fire", [(H, "        if shared := self._shared_artifact_for(target.env):\n            _link", "        if shared := (self._shared_artifact_for(target.env) or (self._artifacts and self._artifacts[-1])):\n            _link")]),
    ("abi", "fire", [(I, "            if (abi_index := index_of_or_none(my_abis, abi)) is None:\n                return None\n            score_components.append(abi_index)", "            abi_index = index_of_or_none(my_abis, abi)\n            score_components.append(abi_index or 0)")]),
    ("abi_in", "quiet", [(I, "            if (abi_index := index_of_or_none(my_abis, abi)) is None:\n                return None\n            score_components.append(abi_index)", "            if abi not in my_abis:\n                return None\n            score_components.append(my_abis.index(abi))")]),
    ("glibc", "fire", [(I, "if len(glibc_version) != 2 or my_glibc_version < glibc_version:", "if len(glibc_version) != 2:")]),
    ("glibc_dir", "fire", [(I, "my_glibc_version < glibc_version:", "my_glibc_version > glibc_version:")]),
    ("glibc_legacy", "fire", [(I, "                        glibc_version = legacy_glibc_version or", "                        if legacy_glibc_version:\n                            return (1, *vdscore(legacy_glibc_version, my_glibc_version))\n                        glibc_version =")]),
    ("glibc_swap", "quiet", [(I, "my_glibc_version < glibc_version:", "glibc_version > my_glibc_version:")]),
    ("arch", "fire", [(I, '                if not plt.endswith(f"_{my_arch}"):\n                    return None\n', "")]),
    ("darwin_fmt", "fire", [(I, "                if (binary_format_index := index_of_or_none(my_plat_supported_binary_formats, binary_format)) is None:\n                    return None\n", "                binary_format_index = index_of_or_none(my_plat_supported_binary_formats, binary_format) or 0\n")]),
    ("darwin_ver", "fire", [(I, "                if plat_version > my_plat_version:\n                    return None\n", "")]),
    ("py_major", "fire", [(I, "if my_ipt_version[0] != ipt_version[0] or my_ipt_version[1] < ipt_version[1]:", "if my_ipt_version[1] < ipt_version[1]:")]),
    ("py_minor", "fire", [(I, "if my_ipt_version[0] != ipt_version[0] or my_ipt_version[1] < ipt_version[1]:", "if my_ipt_version[0] != ipt_version[0]:")]),
    ("py_split", "quiet", [(I, "if my_ipt_version[0] != ipt_version[0] or my_ipt_version[1] < ipt_version[1]:\n                return None", "if my_ipt_version[0] != ipt_version[0]:\n                return None\n            if not ipt_version[1] <= my_ipt_version[1]:\n                return None")]),
    ("combo", "fire", [(I, "self._compatibility_tag_scorer(interpreter, abi, platform_)", "self._compatibility_tag_scorer(interpreter, platform_, abi)")]),
    ("tagpos", "fire", [(W, "return '-'.join(wheel.stem.split('-')[-3:])", "return '-'.join(wheel.stem.split('-')[2:])")]),
    ("tagpos_r", "quiet", [(W, "return '-'.join(wheel.stem.split('-')[-3:])", "parts = wheel.stem.rsplit('-', 3)\n        return '-'.join(parts[1:])")]),
    ("idx_drop", "fire", [(P, "file_name, VersionSpecifier.parse(requires_python) if requires_python else None, release", "file_name, None, release")]),
    ("idx_wheel", "fire", [(P, "VersionSpecifier.parse(requires_python) if requires_python else None, release", "VersionSpecifier.parse(requires_python) if requires_python and file_name.endswith('.whl') else None, release")]),
    ("idx_stmt", "quiet", [(P, "    return PackageArtifact(\n        file_name, VersionSpecifier.parse(requires_python) if requires_python else None, release\n    )\n", "    spec = None\n    if requires_python is not None and requires_python != '':\n        spec = VersionSpecifier.parse(requires_python)\n    return PackageArtifact(file_name, spec, other_info=release)\n")]),
    ("html_drop", "fire", [(M, "if requires_python_str := attrs.get('data-requires-python'):", "if (requires_python_str := attrs.get('data-requires-python')) and '<' not in requires_python_str:")]),
    ("memo", "fire", [(S, "        env_interpreter = env.interpreter_version\n", "        if getattr(self, '_best', None) is not None:\n            return self._best\n        env_interpreter = env.interpreter_version\n"), (S, "        return best_binary_dist or source_dist\n", "        self._best = best_binary_dist or source_dist\n        return self._best\n")]),
    ("memo_env", "quiet", [(S, "        self._published_metadata = published_metadata\n", "        self._published_metadata = published_metadata\n        self._best = {}\n"), (S, "        return best_binary_dist or source_dist\n", "        self._best[env.markers_hash] = best_binary_dist or source_dist\n        return self._best[env.markers_hash]\n")]),
]
