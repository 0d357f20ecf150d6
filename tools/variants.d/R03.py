R = "api/repositories/repository.py"
VARIANTS = [
    ("compat-unchecked", "fire", [(R, "[d for d in self._do_match(dependency, env) if d.is_compatible_with(env)]", "list(self._do_match(dependency, env))")]),
    ("compat-some", "fire", [(R, "if d.is_compatible_with(env)]", "if d.is_compatible_with(env) or d.version == dependency.version_spec]")]),
    ("rest-or-all", "fire", [(R, "        return rest or packages\n", "        return packages if len(rest) < len(pre_release) else rest\n")]),
    ("order-swapped", "fire", [(R, "pre_release, rest = partition", "rest, pre_release = partition")]),
    ("filter-skipped", "fire", [(R, "return self._filter_prereleases(matched, dependency)", "return matched")]),
    ("filter-skipped-single", "fire", [(R, "        matched = [d for", "        found = self._do_match(dependency, env)\n        if len(found) == 1:\n            return found\n        matched = [d for")]),
    ("fallback-incompatible", "fire", [(R, "return self._filter_prereleases(matched, dependency)", "return self._filter_prereleases(matched or self._do_match(dependency, env), dependency)")]),
    ("rest-misses-some", "fire", [(R, "        pre_release, rest = partition(packages, lambda it: it.version.is_pre_or_dev_release())\n",
                                   "        rest = [p for p in packages if not p.version.is_pre_or_dev_release() and p.name == dependency.package_name]\n")]),
    ("pypi-version-unchecked", "fire", [("repositories/pypi_repository.py", "if dependency.version_spec.allows_version(version):", "if version:")]),
    ("project-version", "fire", [("api/repositories/repository_management.py", "if dependency.version_spec.allows_version(project.version)", "if project.version")]),
    ("simple-version", "fire", [("repositories/simple_repository.py", " if dependency.version_spec.allows_version(p.version)]", "]")]),
    ("simple-any-name", "fire", [("repositories/simple_repository.py", "        packages = [p for p in version_to_package.values() if", "        packages = [p for vp in self._packages.values() for p in vp.values() if")]),
    ("git-other-child", "fire", [("repositories/git_repository.py", "            project = Project.load(target_dir, package=desc)", "            project = Project.load(self._workspace / 'main', package=PackageDescriptor('main', StandardVersion((1,))))")]),
    ("composite-other-env", "fire", [("api/repositories/repository_loader.py", "            return repo.match(dependency, env)", "            return repo.match(dependency.package_name, env)")]),
    ("dist-always", "fire", [("api/distributions/distribution.py", "            return env.compatibility_tag_score(self._dist.compute_compatibility_tags()) is not None", "            return True")]),
    ("dist-inverted", "fire", [("api/distributions/distribution.py", "compute_compatibility_tags()) is not None", "compute_compatibility_tags()) is None")]),
    ("project-any-python", "fire", [("api/projects/project.py", "        return self._pyproject.project.requires_python.allows_version(env.interpreter_version)", "        return bool(self._pyproject.project.requires_python)")]),
    ("shared-kept", "fire", [("repositories/shared_pacakges_repo.py", "        return self._package.is_compatible_with(env)", "        return self._shared_artifacts or self._package.is_compatible_with(env)")]),
    ("loop", "quiet", [(R, "        matched = [d for d in self._do_match(dependency, env) if d.is_compatible_with(env)]\n",
                        "        matched = []\n        for d in self._do_match(dependency, env):\n            if not d.is_compatible_with(env):\n                continue\n            matched.append(d)\n")]),
    ("filter-builtin", "quiet", [(R, "[d for d in self._do_match(dependency, env) if d.is_compatible_with(env)]", "list(filter(lambda d: d.is_compatible_with(env), self._do_match(dependency, env)))")]),
    ("rest-comp", "quiet", [(R, "        pre_release, rest = partition(packages, lambda it: it.version.is_pre_or_dev_release())\n", "        rest = [p for p in packages if not p.version.is_pre_or_dev_release()]\n")]),
    ("rest-if", "quiet", [(R, "        return rest or packages\n", "        if rest:\n            return rest\n        return packages\n")]),
    ("rest-len", "quiet", [(R, "        return rest or packages\n", "        return rest if len(rest) > 0 else packages\n")]),
    ("inlined", "quiet", [(R, "        return self._filter_prereleases(matched, dependency)\n", "        if not dependency.version_spec.allows_pre_or_dev_releases():\n            pre, stable = partition(matched, lambda p: p.version.is_pre_or_dev_release())\n            if stable:\n                return stable\n        return matched\n")]),
    ("spec-local", "quiet", [(R, "        if dependency.version_spec.allows_pre_or_dev_releases():\n", "        spec = dependency.version_spec\n        wants_pre = spec.allows_pre_or_dev_releases()\n        if wants_pre:\n")]),
    ("simple-loop", "quiet", [("repositories/simple_repository.py", "        packages = [p for p in version_to_package.values() if dependency.version_spec.allows_version(p.version)]\n",
                               "        spec = dependency.version_spec\n        packages = []\n        for p in version_to_package.values():\n            if spec.allows_version(p.version):\n                packages.append(p)\n")]),
    ("project-helper", "quiet", [("api/repositories/repository_management.py", "            if matched_projects := self._packages.get(dependency.package_name_key):\n", "            matched_projects = self._packages.get(dependency.package_name_key)\n            if matched_projects:\n")]),
    ("dist-early", "quiet", [("api/distributions/distribution.py", "        if isinstance(self._dist, WheelDistribution):\n            return env.compatibility_tag_score(self._dist.compute_compatibility_tags()) is not None\n        return True\n",
                              "        if not isinstance(self._dist, WheelDistribution):\n            return True\n        score = env.compatibility_tag_score(self._dist.compute_compatibility_tags())\n        return score is not None\n")]),
    ("composite-first", "quiet", [("api/repositories/repository_loader.py", "        for repo in self._package_search_list:\n            if repo.name not in self._binding_only_repositories and (result := repo.match(dependency, env)):\n                return result\n",
                                   "        for repo in self._package_search_list:\n            if repo.name in self._binding_only_repositories:\n                continue\n            result = repo.match(dependency, env)\n            if result:\n                return result\n")]),
]
