F = "api/packages/package_installation.py"
REQ = """        requested_deps = {p.name_key: p.user_request for p in preinstalled_packages if p.user_request}
        for package_name in packages_to_remove:
            requested_deps.pop(PackageDescriptor.package_name_key(package_name), None)

        user_request = _UserRequestPackage(list(requested_deps.values()))
"""
REP = "        installation_repo = _RemovalRepository(preinstalled_packages, user_request)\n"
PLAN = "        InstallationPlan(self, installation, {}).execute()\n"
UN = """        for p in packages_to_remove:
            if PackageDescriptor.package_name_key(p) in kept:
                self.site_packages.installed_package(p).dist_info.unmark_as_user_requested()
"""
RET = "        return {p for p in packages_to_remove if PackageDescriptor.package_name_key(p) not in kept}\n"
INIT = """        self._preinstalled: Dict[str, InstalledPackage] = {
            p.name_key: p
            for p in preinstalled
        }

        self._user_request = user_request

    def _do_match("""
MATCH = """        match = self._preinstalled.get(dependency.package_name_key)
        return [_RemovalPackage(match)] if match else []
"""
VARIANTS = [
    ("comprehension with names", "quiet", [(F, REQ, """        named = {PackageDescriptor.package_name_key(n) for n in packages_to_remove}
        requests = [p.user_request for p in preinstalled_packages if p.user_request and p.name_key not in named]
        user_request = _UserRequestPackage(requests)
""")]),
    ("loop", "quiet", [(F, REQ, """        named = {PackageDescriptor.package_name_key(n) for n in packages_to_remove}
        requests = []
        for p in preinstalled_packages:
            if p.name_key in named or p.user_request is None:
                continue
            requests.append(p.user_request)
        user_request = _UserRequestPackage(requests)
""")]),
    ("helper", "quiet", [(F, REQ, """        user_request = _UserRequestPackage(self._remaining_requests(preinstalled_packages, packages_to_remove))
"""), (F, "    def force_remove(", """    @staticmethod
    def _remaining_requests(packages, without):
        requests = {p.name_key: p.user_request for p in packages if p.user_request}
        for name in without:
            requests.pop(PackageDescriptor.package_name_key(name), None)
        return list(requests.values())

    def force_remove(""")]),
    ("two steps", "quiet", [(F, REQ, """        requested = [p for p in preinstalled_packages if p.user_request is not None]
        requested_deps = {p.name_key: p.user_request for p in requested}
        for package_name in packages_to_remove:
            key = PackageDescriptor.package_name_key(package_name)
            if key in requested_deps:
                del requested_deps[key]

        user_request = _UserRequestPackage([*requested_deps.values()])
""")]),
    ("found requests", "quiet", [(F, REQ, REQ.replace("for p in preinstalled_packages if p.user_request}", "for p in self.site_packages.find_requested_packages()}"))]),
    ("plan variable", "quiet", [(F, PLAN, """        plan = InstallationPlan(self, packages=list(installation), user_requests={})
        plan.execute()
""")]),
    ("unmark split", "quiet", [(F, UN, """        for name in packages_to_remove:
            key = PackageDescriptor.package_name_key(name)
            if key not in kept:
                continue
            remaining = self.site_packages.installed_package(name)
            remaining.dist_info.unmark_as_user_requested()
""")]),
    ("unmark list", "quiet", [(F, UN, """        still_needed = [p for p in packages_to_remove if PackageDescriptor.package_name_key(p) in kept]
        for p in still_needed:
            self.site_packages.installed_package(p).dist_info.unmark_as_user_requested()
""")]),
    ("return loop", "quiet", [(F, RET, """        removed = set()
        for p in packages_to_remove:
            if PackageDescriptor.package_name_key(p) not in kept:
                removed.add(p)
        return removed
""")]),
    ("init loop", "quiet", [(F, INIT, """        self._preinstalled: Dict[str, InstalledPackage] = {}
        for p in preinstalled:
            self._preinstalled[p.name_key] = p

        self._user_request = user_request

    def _do_match(""")]),
    ("match ifs", "quiet", [(F, MATCH, """        key = dependency.package_name_key
        if key not in self._preinstalled:
            return []
        return [_RemovalPackage(self._preinstalled[key])]
""")]),
    # ---- violations
    ("url requests dropped", "fire", [(F, REQ, REQ.replace("if p.user_request}", "if p.user_request and not p.user_request.is_url_dependency}"))]),
    ("keyed by filter", "fire", [(F, REQ, REQ.replace("if p.user_request}", "if p.user_request and p.is_in_purelib()}"))]),
    ("marker file only", "fire", [(F, "        preinstalled_packages = list(self.site_packages.installed_packages())\n        requested_deps", "        preinstalled_packages = [p for p in self.site_packages.installed_packages() if p.is_compatible_with(self.env)]\n        requested_deps")]),
    ("two steps filter", "fire", [(F, REQ, REQ.replace("for p in preinstalled_packages if p.user_request}", "for p in [q for q in preinstalled_packages if q.is_in_purelib()] if p.user_request}"))]),
    ("pops dependencies", "fire", [(F, REQ, REQ.replace("        user_request = ", """        for p in preinstalled_packages:
            for d in p.dependencies(self):
                requested_deps.pop(d.package_name_key, None)

        user_request = """))]),
    ("clears", "fire", [(F, REQ, REQ.replace("        user_request = ", """        if len(packages_to_remove) == len(preinstalled_packages):
            requested_deps.clear()

        user_request = """))]),
    ("break", "fire", [(F, REQ, """        named = {PackageDescriptor.package_name_key(n) for n in packages_to_remove}
        requests = []
        for p in preinstalled_packages:
            if p.name_key in named:
                break
            if p.user_request:
                requests.append(p.user_request)
        user_request = _UserRequestPackage(requests)
""")]),
    ("universe without named", "fire", [(F, REP, """        named = {PackageDescriptor.package_name_key(n) for n in packages_to_remove}
        installation_repo = _RemovalRepository([p for p in preinstalled_packages if p.name_key not in named], user_request)
""")]),
    ("plan filtered", "fire", [(F, PLAN, PLAN.replace("installation,", "[p for p in installation if p.name not in packages_to_remove],"))]),
    ("direct removal", "fire", [(F, PLAN, PLAN + """        for name in packages_to_remove:
            self.force_remove(name)
""")]),
    ("not executed", "fire", [(F, PLAN, """        if len(installation) > 1:
            InstallationPlan(self, installation, {}).execute()
""")]),
    ("unmark all kept", "fire", [(F, UN, """        for p in installation:
            if found := self.site_packages.installed_package(p.name):
                found.dist_info.unmark_as_user_requested()
""")]),
    ("unmark if removed", "fire", [(F, UN, UN.replace(" in kept:", " not in kept:"))]),
    ("mark stays sometimes", "fire", [(F, UN, UN.replace(" in kept:", " in kept and p in requested_deps:"))]),
    ("no unmark", "fire", [(F, UN, "")]),
    ("report all", "fire", [(F, RET, "        return set(packages_to_remove)\n")]),
    ("report others", "fire", [(F, RET, RET.replace("not in kept", "in kept"))]),
    ("init filter", "fire", [(F, INIT, INIT.replace("for p in preinstalled\n", "for p in preinstalled if p.user_request is None or p.site\n"))]),
    ("match version", "fire", [(F, MATCH, """        match = self._preinstalled.get(dependency.package_name_key)
        return [_RemovalPackage(match)] if match and not dependency.extras else []
""")]),
]
