R = "api/repositories/repository.py"
L = "resolution/packages_lock.py"
I = "api/packages/package_installation.py"
D = "resolution/dependency_resolver.py"
S = "resolution/pubgrub.py"
SIM = "repositories/simple_repository.py"
FS = "repositories/file_system_repository.py"
PY = "repositories/pypi_repository.py"
SRT = "packages.sort(key=lambda it: it.version, reverse=True)"
LK = """            packages.sort(key=lambda it: locked_versions.index(it.version) if it.version in locked_versions
                          else len(locked_versions))
"""
LV = "locked_versions = [lp.version for lp in self.locked_versions(env, packages[0].name)]"
INS = "packages.sort(key=lambda it: 0 if installed.version == it.version else 1)"
FRONT = "result.insert(0, next(lock.package for lock in relevant_locks if lock.env_markers_hash == env_markers_hash))"
OTHERS = "result = [lock.package for lock in relevant_locks if lock.env_markers_hash != env_markers_hash]"
LEN = """        if len(result) != len(relevant_locks):
            """ + FRONT + "\n"
UNIQ = "packages = list({p.version: p for p in all_packages if p.is_compatible_with(self._target.env)}.values())"
VIA = "return self._lock.sort_packages_by_lock_preference(env, self._base_repo.match(dependency, env))"
MATCHED = "matched = [d for d in self._do_match(dependency, env) if d.is_compatible_with(env)]"
POP = "version = versions.pop(0)"
PVL = """            sorted_versions = sorted(versions, key=lambda v: v.version)
"""
COMP = """package_matching_versions[package] = [pver for pver in versions if
                                                      acc_assignment.allows_version(pver.version)]"""
VARIANTS = [
    ("sort-asc", "fire", [(R, SRT, "packages.sort(key=lambda it: it.version)")]),
    ("sort-str", "fire", [(R, SRT, "packages.sort(key=lambda it: str(it.version), reverse=True)")]),
    ("simple-unsorted", "fire", [(SIM, "return self._sorted_by_version(packages)", "return packages")]),
    ("fs-unsorted", "fire", [(FS, "return self._sorted_by_version([p for p in all_packages if dependency.version_spec.allows_version(p.version)])",
                              "return [p for p in all_packages if dependency.version_spec.allows_version(p.version)]")]),
    ("pypi-reversed", "fire", [(PY, "return self._sorted_by_version(packages)", "return list(reversed(self._sorted_by_version(packages)))")]),
    ("pypi-set", "fire", [(PY, "return self._sorted_by_version(packages)", "return list(set(self._sorted_by_version(packages)))")]),
    ("match-resorts", "fire", [(R, "return self._filter_prereleases(matched, dependency)", "return self._filter_prereleases(self._sorted_by_version(matched), dependency)")]),
    ("match-set", "fire", [(R, MATCHED, "matched = list({d for d in self._do_match(dependency, env) if d.is_compatible_with(env)})")]),
    ("match-drops", "fire", [(R, MATCHED, "matched = [d for d in self._do_match(dependency, env) if d.is_compatible_with(env) and d.version.is_pre_or_dev_release() is False]")]),
    ("lock-flat", "fire", [(L, LK, "            packages.sort(key=lambda it: 0 if it.version in locked_versions else 1)\n")]),
    ("lock-last", "fire", [(L, LK, LK.replace("else len(locked_versions))", "else len(locked_versions), reverse=True)"))]),
    ("lock-unlocked-first", "fire", [(L, LK, LK.replace("else len(locked_versions))", "else -1)"))]),
    ("lock-not-sorted", "fire", [(L, LK, "")]),
    ("lock-skipped", "fire", [(L, VIA, "return self._base_repo.match(dependency, env)")]),
    ("lock-reversed", "fire", [(L, LV, LV.replace("for lp in self.locked_versions(env, packages[0].name)]", "for lp in reversed(self.locked_versions(env, packages[0].name))]"))]),
    ("lock-own-last", "fire", [(L, FRONT, FRONT.replace("insert(0, ", "append("))]),
    ("lock-own-never", "fire", [(L, LEN, "")]),
    ("lock-all-same", "fire", [(L, OTHERS, "result = [lock.package for lock in relevant_locks]"), (L, LEN, "")]),
    ("installed-last", "fire", [(I, INS, INS.replace("0 if installed.version == it.version else 1", "1 if installed.version == it.version else 0"))]),
    ("installed-not", "fire", [(I, INS, "pass")]),
    ("installed-newest", "fire", [(I, INS, "packages.sort(key=lambda it: it.version)")]),
    ("versions-sorted", "fire", [(D, "        for package in packages:\n            self.opened", "        packages.sort(key=lambda it: it.version, reverse=True)\n        for package in packages:\n            self.opened")]),
    ("versions-set", "fire", [(D, UNIQ, "packages = list({p for p in all_packages if p.is_compatible_with(self._target.env)})")]),
    ("versions-drop", "fire", [(D, UNIQ, "packages = list({p.version: p for p in all_packages if p.is_compatible_with(self._target.env) and not p.version.is_pre_or_dev_release()}.values())")]),
    ("solver-sorted", "fire", [(S, PVL, "            versions.sort(key=lambda v: v.version)\n            sorted_versions = versions\n")]),
    ("solver-last", "fire", [(S, POP, "version = versions.pop()")]),
    ("solver-drop", "fire", [(S, COMP, "package_matching_versions[package] = [pver for pver in versions if\n                                                      acc_assignment.allows_version(pver.version) and pver.dependencies is not None]")]),
    ("solver-reversed", "fire", [(S, "versions = list(package_matching_versions[package])", "versions = list(reversed(package_matching_versions[package]))")]),
    # harmless
    ("sort-sorted", "quiet", [(R, SRT + "\n        return packages", "return sorted(packages, key=lambda it: it.version, reverse=True)")]),
    ("sort-def", "quiet", [(R, SRT, "def version(it):\n            return it.descriptor.version\n\n        packages.sort(reverse=True, key=version)")]),
    ("sort-reverse", "quiet", [(FS, "return self._sorted_by_version([p for p in all_packages if dependency.version_spec.allows_version(p.version)])",
                                "result = []\n        for p in all_packages:\n            if not dependency.version_spec.allows_version(p.version):\n                continue\n            result.append(p)\n        return self._sorted_by_version(result)")]),
    ("match-loop", "quiet", [(R, MATCHED, "matched = []\n        for candidate in self._do_match(dependency, env):\n            if candidate.is_compatible_with(env):\n                matched.append(candidate)")]),
    ("lock-dict", "quiet", [(L, LK, "            rank = {v: i for i, v in enumerate(locked_versions)}\n            packages = sorted(packages, key=lambda it: rank.get(it.version, len(rank)))\n")]),
    ("lock-def", "quiet", [(L, LK, """            def rank(it):
                if it.version not in locked_versions:
                    return len(locked_versions)
                return locked_versions.index(it.version)

            packages.sort(key=rank)
""")]),
    ("lock-split", "quiet", [(L, OTHERS + "\n" + LEN + "\n        return result", """others = [lock.package for lock in relevant_locks if lock.env_markers_hash != env_markers_hash]
        own = [lock.package for lock in relevant_locks if lock.env_markers_hash == env_markers_hash]
        return own[:1] + others""")]),
    ("lock-sorted", "quiet", [(L, OTHERS + "\n" + LEN + "\n        return result", "return [lock.package for lock in sorted(relevant_locks, key=lambda it: 0 if it.env_markers_hash == env_markers_hash else 1)]")]),
    ("installed-bool", "quiet", [(I, INS, "packages.sort(key=lambda it: it.version != installed.version)")]),
    ("installed-sorted", "quiet", [(I, INS, "packages = sorted(packages, key=lambda it: 1 if it.version != installed.version else 0)")]),
    ("installed-concat", "quiet", [(I, INS, "same = [p for p in packages if p.version == installed.version]\n            packages = same + [p for p in packages if p.version != installed.version]")]),
    ("versions-loop", "quiet", [(D, UNIQ, """by_version = {}
        for p in all_packages:
            if p.is_compatible_with(self._target.env):
                by_version[p.version] = p
        packages = list(by_version.values())""")]),
    ("solver-index", "quiet", [(S, POP, "version, versions = versions[0], versions[1:]")]),
    ("solver-loop", "quiet", [(S, COMP, "matching = package_matching_versions[package] = []\n                for pver in versions:\n                    if acc_assignment.allows_version(pver.version):\n                        matching.append(pver)")]),
]
