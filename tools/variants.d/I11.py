F = "api/packages/package_installation.py"
PRE = "preinstalled_packages = [p for p in installed_packages if p.name_key not in updates]"
REQ = "pre_requested_deps = {p.name_key: p.user_request for p in installed_packages if p.user_request}"
KEEP = """            for preinstalled in installed_packages:
                if preinstalled.name_key not in installation_names:
                    installation.append(preinstalled)
"""
ALL = "all_deps = {**pre_requested_deps, **new_deps}"
UR = """        user_requests = {**pre_requested_deps}
        if user_requested:
            user_requests.update(new_deps)
"""
FAST = """            user_request = _UserRequestPackage(list(new_deps.values()))
            installation_repo = _InstallationRepository(
                repository, preinstalled_packages, user_request, unspecified_spec_packages, True)
"""
SLOW = "            user_request = _UserRequestPackage(list(all_deps.values()))\n"
MATCH = """            if self._fast_plan_mode:
                return [installed]
"""
VARIANTS = [
    ("requests-filtered", "fire", [(F, REQ, REQ.replace("installed_packages if", "preinstalled_packages if"))]),
    ("keep-filtered", "fire", [(F, KEEP, KEEP.replace("in installed_packages", "in preinstalled_packages"))]),
    ("keep-requested-only", "fire", [(F, KEEP, KEEP.replace("not in installation_names:", "not in installation_names and preinstalled.user_request:"))]),
    ("keep-none", "fire", [(F, KEEP, "")]),
    ("keep-break", "fire", [(F, KEEP, KEEP + "                    break\n")]),
    ("keep-nondeps", "fire", [(F, KEEP, KEEP.replace("not in installation_names:", "not in installation_names and preinstalled.name_key not in new_deps:"))]),
    ("keep-inverted", "fire", [(F, KEEP, KEEP.replace("not in installation", "in installation"))]),
    ("old-over-new", "fire", [(F, ALL, "all_deps = {**new_deps, **pre_requested_deps}")]),
    ("slow-new-only", "fire", [(F, SLOW, SLOW.replace("all_deps", "new_deps"))]),
    ("slow-old-only", "fire", [(F, SLOW, SLOW.replace("all_deps", "pre_requested_deps"))]),
    ("fast-not-as-is", "fire", [(F, FAST, FAST.replace("True)", "False)"))]),
    ("fast-no-installed", "fire", [(F, FAST, FAST.replace("preinstalled_packages", "[]"))]),
    ("fast-offers-repo", "fire", [(F, MATCH, """            if self._fast_plan_mode and dependency.version_spec.allows_version(installed.version):
                return [installed]
""")]),
    ("fast-offers-more", "fire", [(F, "                return [installed]\n", "                return [installed, *self._repo.match(dependency, env)]\n")]),
    ("requests-dropped", "fire", [(F, UR, UR.replace("{**pre_requested_deps}", "{}"))]),
    ("requests-always", "fire", [(F, UR, "        user_requests = {**pre_requested_deps, **new_deps}\n")]),
    ("requests-never", "fire", [(F, UR, "        user_requests = {**pre_requested_deps}\n")]),
    ("requests-inverted", "fire", [(F, UR, UR.replace("if user", "if not user"))]),
    ("result-lost", "fire", [(F, "return InstallationPlan(self, installation, user_requests)", "return InstallationPlan(self, installed_packages, user_requests)")]),
    ("new-lost", "fire", [(F, "new_deps = {d.package_name_key: d for d in dependencies}", "new_deps = {d.package_name_key: d for d in dependencies if d.package_name_key not in pre_requested_deps}")]),
    ("pinned-kept-out", "fire", [(F, REQ, REQ.replace("if p.user_request", "if p.user_request and p.name_key not in unspecified_spec_packages").replace(
        "pre_req", "pre_req")), (F, "        updates = {PackageDescriptor", "        unspecified_spec_packages = unspecified_spec_packages or []\n        updates = {PackageDescriptor")]),
    # harmless
    ("loops", "quiet", [(F, REQ, """pre_requested_deps = {}
        for p in installed_packages:
            request = p.user_request
            if request:
                pre_requested_deps[p.name_key] = request"""), (F, PRE, """preinstalled_packages = []
        for p in installed_packages:
            if p.name_key in updates:
                continue
            preinstalled_packages.append(p)""")]),
    ("copy-update", "quiet", [(F, ALL, "all_deps = dict(pre_requested_deps)\n        all_deps.update(new_deps)"), (F, UR, """        user_requests = dict(pre_requested_deps)
        if user_requested:
            for key, dep in new_deps.items():
                user_requests[key] = dep
""")]),
    ("all-deps-ternary", "quiet", [(F, UR, "        user_requests = all_deps if user_requested else pre_requested_deps\n")]),
    ("keep-comprehension", "quiet", [(F, KEEP, "            installation.extend(p for p in installed_packages if p.name_key not in installation_names)\n")]),
    ("keep-plus", "quiet", [(F, KEEP, "            installation = installation + [p for p in installed_packages if p.name_key not in installation_names]\n")]),
    ("keep-dict", "quiet", [(F, """            installation_names = {i.name_key for i in installation}
""" + KEEP, """            chosen = {i.name_key: i for i in installation}
            for preinstalled in installed_packages:
                if preinstalled.name_key in chosen:
                    continue
                installation.append(preinstalled)
""")]),
    ("helper", "quiet", [(F, FAST + """
            installation = resolve_dependencies(
                user_request.to_dependency(), self, installation_repo, dependencies_override)
""", """            installation = self._resolve(
                list(new_deps.values()), repository, preinstalled_packages, unspecified_spec_packages, True, dependencies_override)
"""), (F, """            user_request = _UserRequestPackage(list(all_deps.values()))
            installation_repo = _InstallationRepository(
                repository, preinstalled_packages, user_request, unspecified_spec_packages, False)
            installation = resolve_dependencies(
                user_request.to_dependency(), self, installation_repo, dependencies_override)
""", """            installation = self._resolve(
                list(all_deps.values()), repository, preinstalled_packages, unspecified_spec_packages, False, dependencies_override)
"""), (F, "    def plan_installation(", """    def _resolve(self, requests, repository, installed, unspecified, fast, override):
        user_request = _UserRequestPackage(requests)
        repo = _InstallationRepository(repository, installed, user_request, unspecified, fast)
        return resolve_dependencies(user_request.to_dependency(), self, repo, override)

    def plan_installation(""")]),
    ("slow-in-except", "quiet", [(F, """            # don't execute the slow path code here so that the stacktrace will be cleaner if exception will happen
            run_slow_path = True
""", """            pass
"""), (F, "        if run_slow_path:\n", "        if installation is None:\n")]),
    ("match-nested", "quiet", [(F, """        if installed := self._installed_packages.get(dependency.package_name_key):
            # installed = _UpdatableInstalledPackage(installed, self._repo)
            if self._fast_plan_mode:
                return [installed]
""", """        installed = self._installed_packages.get(dependency.package_name_key)
        if installed and self._fast_plan_mode:
            return [installed]
""")]),
    ("logging", "quiet", [(F, PRE, PRE + "\n        for p in installed_packages:\n            print(p.name)")]),
]
