F = "api/packages/package_installation.py"
POP = """        for package_name in packages_to_remove:
            requested_deps.pop(PackageDescriptor.package_name_key(package_name), None)
"""
REQ = "        requested_deps = {p.name_key: p.user_request for p in preinstalled_packages if p.user_request}\n        for"
REPO = "installation_repo = _RemovalRepository(preinstalled_packages, user_request)"
EXEC = "        InstallationPlan(self, installation, {}).execute()\n"
KEPT = "        kept = {p.name_key for p in installation}\n"
UNMARK = """        for p in packages_to_remove:
            if PackageDescriptor.package_name_key(p) in kept:
                self.site_packages.installed_package(p).dist_info.unmark_as_user_requested()
"""
RET = "return {p for p in packages_to_remove if PackageDescriptor.package_name_key(p) not in kept}"
DEPS = "return [d for d in self.package.dependencies(target, extras) if sitep.installed_package(d.package_name)]"
OFFER = """        match = self._preinstalled.get(dependency.package_name_key)
        return [_RemovalPackage(match)] if match else []
"""
VARIANTS = [
    ("no-pop", "fire", [(F, POP, "")]),
    ("pop-first", "fire", [(F, POP, POP + "            break\n")]),
    ("pop-spelled", "fire", [(F, "requested_deps.pop(PackageDescriptor.package_name_key(package_name), None)", "requested_deps.pop(package_name, None)")]),
    ("pop-other", "fire", [(F, POP, POP.replace("requested_deps.pop(Pack", "requested_deps.popitem() if False else requested_deps.pop(Pack").replace("            requested_deps.popitem() if False else ", "            if len(package_name) > 1:\n                "))]),
    ("clear", "fire", [(F, POP, "        requested_deps.clear()\n")]),
    ("no-requests", "fire", [(F, "user_request = _UserRequestPackage(list(requested_deps.values()))\n        installation_repo = _Rem", "user_request = _UserRequestPackage([])\n        installation_repo = _Rem")]),
    ("other-filter", "fire", [(F, REQ, REQ.replace("if p.user_request}", "if p.user_request and p.user_request.extras}"))]),
    ("offers-some", "fire", [(F, REPO, "installation_repo = _RemovalRepository([p for p in preinstalled_packages if p.user_request], user_request)")]),
    ("not-executed", "fire", [(F, EXEC, "        InstallationPlan(self, installation, {})\n")]),
    ("executed-if-some", "fire", [(F, EXEC, "        if installation:\n            InstallationPlan(self, installation, {}).execute()\n")]),
    ("keeps-rest", "fire", [(F, EXEC, "        InstallationPlan(self, installation + preinstalled_packages, {}).execute()\n")]),
    ("plan-preinstalled", "fire", [(F, EXEC, "        InstallationPlan(self, preinstalled_packages, {}).execute()\n")]),
    ("plan-part", "fire", [(F, EXEC, "        InstallationPlan(self, [p for p in installation if p.name_key in requested_deps], {}).execute()\n")]),
    ("no-unmark", "fire", [(F, UNMARK, "")]),
    ("unmark-first", "fire", [(F, UNMARK, UNMARK + "                break\n")]),
    ("unmark-some", "fire", [(F, UNMARK, UNMARK.replace("in kept:", "in kept and p in requested_deps:"))]),
    ("unmark-inverted", "fire", [(F, UNMARK, UNMARK.replace("in kept:", "not in kept:"))]),
    ("return-all", "fire", [(F, RET, "return set(packages_to_remove)")]),
    ("return-kept", "fire", [(F, RET, RET.replace("not in kept", "in kept"))]),
    ("return-none", "fire", [(F, RET, "return set()")]),
    ("deps-all", "fire", [(F, DEPS, DEPS.replace("if sitep", "if d.extras and sitep"))]),
    ("deps-none", "fire", [(F, DEPS, "return []")]),
    ("deps-no-extras", "fire", [(F, DEPS, DEPS.replace("(target, extras)", "(target)"))]),
    ("deps-first", "fire", [(F, DEPS, """result = []
        for d in self.package.dependencies(target, extras):
            if not sitep.installed_package(d.package_name):
                break
            result.append(d)
        return result""")]),
    ("offer-nothing", "fire", [(F, OFFER, "        match = self._preinstalled.get(dependency.package_name_key)\n        return [_RemovalPackage(match)] if match and match.user_request else []\n")]),
    ("request-part", "fire", [(F, "        return self._request\n", "        return [d for d in self._request if not d.extras]\n")]),
    # harmless
    ("filtered-requests", "quiet", [(F, REQ.rsplit("\n", 1)[0] + "\n" + POP, """        removed = {PackageDescriptor.package_name_key(n) for n in packages_to_remove}
        requested_deps = {p.name_key: p.user_request for p in preinstalled_packages if p.user_request and p.name_key not in removed}
""")]),
    ("del-loop", "quiet", [(F, POP, """        for package_name in packages_to_remove:
            key = PackageDescriptor.package_name_key(package_name)
            if key in requested_deps:
                del requested_deps[key]
""")]),
    ("one-loop", "quiet", [(F, UNMARK, """        removed = set()
        for p in packages_to_remove:
            if PackageDescriptor.package_name_key(p) in kept:
                self.site_packages.installed_package(p).dist_info.unmark_as_user_requested()
            else:
                removed.add(p)
"""), (F, RET, "return removed")]),
    ("unmark-continue", "quiet", [(F, UNMARK, """        for p in packages_to_remove:
            if PackageDescriptor.package_name_key(p) not in kept:
                continue
            installed = self.site_packages.installed_package(p)
            installed.dist_info.unmark_as_user_requested()
""")]),
    ("plan-var", "quiet", [(F, EXEC, "        plan = InstallationPlan(self, installation, {})\n        plan.execute()\n")]),
    ("kept-loop", "quiet", [(F, KEPT, "        kept = set()\n        for p in installation:\n            kept.add(p.name_key)\n")]),
    ("offer-if", "quiet", [(F, OFFER, """        match = self._preinstalled.get(dependency.package_name_key)
        if not match:
            return []
        return [_RemovalPackage(match)]
""")]),
    ("offer-in", "quiet", [(F, OFFER, """        if dependency.package_name_key not in self._preinstalled:
            return []
        return [_RemovalPackage(self._preinstalled[dependency.package_name_key])]
""")]),
    ("deps-loop", "quiet", [(F, DEPS, """result = []
        for d in self.package.dependencies(target, extras):
            if sitep.installed_package(d.package_name):
                result.append(d)
        return result""")]),
    ("request-copy", "quiet", [(F, "        return self._request\n", "        return list(self._request)\n")]),
]
