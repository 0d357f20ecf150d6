P = "api/packages/package.py"
I = "api/packages/package_installation.py"
D = "resolution/dependency_resolver.py"
L = "resolution/packages_lock.py"
F = "repositories/file_system_repository.py"
S = "api/packages/site_packages.py"
M = "api/repositories/repository_management.py"
R = "api/repositories/repository_loader.py"
DEP = "api/dependencies/dependency.py"
G = "api/projects/project_group.py"
UPD = "        updates = {PackageDescriptor.package_name_key(name) for name in (updates or ())}\n"
KEY = "        return PackageDescriptor.normalize_src_package_name(package_name).lower()\n"
SRC = "        return PackageDescriptor.normalize_name(package_name).translate({ord('-'): '_', ord('.'): '_'})\n"
VARIANTS = [
    ("unchanged", "quiet", []),
    ("updates loop", "quiet", [(I, UPD, "        normalized = set()\n        for name in updates or ():\n            normalized.add(PackageDescriptor.package_name_key(name))\n        updates = normalized\n")]),
    ("updates map", "quiet", [(I, UPD, "        updates = set(map(PackageDescriptor.package_name_key, updates or ()))\n")]),
    ("updates helper", "quiet", [(I, UPD, "        updates = _keys(updates)\n"), (I, "class InstallationPlan:\n", "def _keys(names):\n    return {PackageDescriptor.package_name_key(n) for n in names or ()}\n\n\nclass InstallationPlan:\n")]),
    ("updates other name", "quiet", [(I, UPD, UPD.replace("        updates =", "        to_update =")), (I, "if p.name_key not in updates]", "if p.name_key not in to_update]")]),
    ("filter", "quiet", [(I, "[p for p in installed_packages if p.name_key not in updates]", "list(filter(lambda it: it.name_key not in updates, installed_packages))")]),
    ("loop for kept", "quiet", [(I, "        kept = {p.name_key for p in installation}\n", "        kept = set()\n        for package in installation:\n            kept.add(package.name_key)\n")]),
    ("lower again", "quiet", [(I, "        kept = {p.name_key for p in installation}\n", "        kept = {p.name_key.lower() for p in installation}\n")]),
    ("key via descriptor", "quiet", [(I, "        kept = {p.name_key for p in installation}\n", "        kept = {p.descriptor.name_key for p in installation}\n")]),
    ("key computed", "quiet", [(I, "        kept = {p.name_key for p in installation}\n", "        kept = {PackageDescriptor.package_name_key(p.name) for p in installation}\n")]),
    ("dict copied", "quiet", [(I, "        store_modes = {\n            PackageDescriptor.package_name_key(name): value for name, value in (self.store_modes or {}).items()}\n        site", "        store_modes = dict(_by_key(self.store_modes or {}))\n        site"), (I, "class InstallationPlan:\n", "def _by_key(modes):\n    for name, value in modes.items():\n        yield PackageDescriptor.package_name_key(name), value\n\n\nclass InstallationPlan:\n")]),
    ("store modes once", "quiet", [(I, "        plan.store_modes = store_mode\n", "        plan.store_modes = {PackageDescriptor.package_name_key(k): v for k, v in (store_mode or {}).items()}\n")]),
    ("normalizer table", "quiet", [(P, SRC, "        return PackageDescriptor.normalize_name(package_name).translate(_SEPARATORS)\n"), (P, "@dataclass(frozen=True, eq=False)\n", "_SEPARATORS = str.maketrans('-.', '__')\n\n\n@dataclass(frozen=True, eq=False)\n")]),
    ("normalizer replace", "quiet", [(P, SRC, "        return PackageDescriptor.normalize_name(package_name).replace('-', '_').replace('.', '_')\n")]),
    ("normalizer pep503", "quiet", [(P, KEY, "        return re.sub(r\"[-_.]+\", \"_\", PackageDescriptor.normalize_name(package_name)).lower()\n")]),
    ("normalizer local", "quiet", [(P, KEY, "        src_name = PackageDescriptor.normalize_src_package_name(package_name)\n        key = src_name.lower()\n        return key\n")]),
    ("lock by def", "quiet", [(L, "            groupby(locked_packages, lambda it: it.package.name_key)", "            groupby(locked_packages, _lock_key)"), (L, "class PackagesLock:\n", "def _lock_key(lock: _LockedVersion) -> str:\n    return lock.package.name_key\n\n\nclass PackagesLock:\n")]),
    ("lock loop", "quiet", [(L, "        self._locked_packages = groupby(new_locks, lambda it: it.package.name_key)\n", "        by_name = {}\n        for lock in new_locks:\n            by_name.setdefault(lock.package.name_key, []).append(lock)\n        self._locked_packages = by_name\n")]),
    ("group index", "quiet", [(G, "            project = single_or_raise(p for p in self.children if p.name_key == name_key).path", "            by_name = {p.name_key: p for p in self.children}\n            project = by_name[name_key].path")]),
    ("descriptor tuple", "quiet", [(P, "        return self.name_key == other.name_key and self.version == other.version", "        return (self.name_key, self.version) == (other.name_key, other.version)")]),
    ("resolver key", "quiet", [(D, "_Pkg(d.package_name_key.replace('_', '-'), d.extras)", "_Pkg(d.package_name_key, d.extras)")]),
    ("site loop", "quiet", [(S, "            result[PackageDescriptor.package_name_key(di.package_name_by_dirname)] = InstalledPackage(di, self)", "            key = PackageDescriptor.package_name_key(di.package_name_by_dirname)\n            result[key] = InstalledPackage(di, self)")]),
    ("updates raw", "fire", [(I, UPD, "        updates = set(updates or ())\n")]),
    ("updates lowered", "fire", [(I, UPD, "        updates = {name.lower() for name in (updates or ())}\n")]),
    ("requested by name", "fire", [(I, "pre_requested_deps = {p.name_key: p.user_request", "pre_requested_deps = {p.name: p.user_request"), (I, "{p.name_key: p.user_request for p in preinstalled_packages if p.user_request}\n        for", "{p.name_key: p.user_request for p in preinstalled_packages if p.user_request}\n        for")]),
    ("new deps by name", "fire", [(I, "        new_deps = {d.package_name_key: d for d in dependencies}\n", "        new_deps = {d.package_name: d for d in dependencies}\n")]),
    ("names of installation", "fire", [(I, "installation_names = {i.name_key for i in installation}", "installation_names = {i.name for i in installation}")]),
    ("toinstall by name", "fire", [(I, "        toinstall: Dict[str, Package] = {\n            p.name_key: p", "        toinstall: Dict[str, Package] = {\n            p.name: p")]),
    ("match by name", "fire", [(I, "        match = self._preinstalled.get(dependency.package_name_key)", "        match = self._preinstalled.get(dependency.package_name)")]),
    ("installed packages raw", "fire", [(S, "        return self._name_to_packages.get(PackageDescriptor.package_name_key(package_name))", "        return self._name_to_packages.get(package_name)")]),
    ("installed table raw", "fire", [(S, "            result[PackageDescriptor.package_name_key(di.package_name_by_dirname)]", "            result[di.package_name_by_dirname]")]),
    ("orphans by name", "fire", [(S, "        orphans = {p.name_key: p for p in installed}", "        orphans = {p.name: p for p in installed}")]),
    ("no lower", "fire", [(P, KEY, KEY.replace(".lower()", ""))]),
    ("dots kept", "fire", [(P, SRC, SRC.replace(", ord('.'): '_'", ""))]),
    ("upper only", "fire", [(P, SRC, SRC.replace("ord('-'): '_'", "ord('-'): '-'"))]),
    ("key property", "fire", [(DEP, "        return PackageDescriptor.package_name_key(self.package_name)", "        return self.package_name.lower()")]),
    ("descriptor key property", "fire", [(P, "        return PackageDescriptor.package_name_key(self.name)", "        return self.name.lower().replace('-', '_')")]),
    ("lock pop", "fire", [(L, "self._locked_packages.pop(PackageDescriptor.package_name_key(pn), None)", "self._locked_packages.pop(pn, None)")]),
    ("lock group", "fire", [(L, "        self._locked_packages = groupby(new_locks, lambda it: it.package.name_key)\n", "        self._locked_packages = groupby(new_locks, lambda it: it.package.name)\n")]),
    ("solver package", "fire", [(D, "_Pkg(d.package_name_key.replace('_', '-'), d.extras)", "_Pkg(d.package_name, d.extras)")]),
    ("solver lowered", "fire", [(D, "_Pkg(d.package_name_key.replace('_', '-'), d.extras)", "_Pkg(d.package_name.lower(), d.extras)")]),
    ("descriptor equality", "fire", [(P, "        return self.name_key == other.name_key and", "        return self.name == other.name and")]),
    ("override raw", "fire", [(D, "            PackageDescriptor.package_name_key(name): override for name, override", "            name: override for name, override")]),
    ("binding raw", "fire", [(R, "            package = PackageDescriptor.package_name_key(package)\n", "")]),
    ("matched projects", "fire", [(M, "self._packages.get(dependency.package_name_key)", "self._packages.get(dependency.package_name)")]),
    ("grouped projects", "fire", [(M, "lambda it: it.name_key)", "lambda it: it.name)")]),
    ("file repo", "fire", [(F, "            packages[package.name_key].append(package)\n\n        return", "            packages[package.name].append(package)\n\n        return")]),
    ("cli remove", "fire", [("pkm-cli/src/pkm_cli/controllers/prj_controller.py", "set(PackageDescriptor.package_name_key(it) for it in packages)", "set(packages)")]),
    ("cli keep", "fire", [("pkm-cli/src/pkm_cli/controllers/prj_controller.py", "new_dependency_package_names = {d.package_name_key for d in dependencies}", "new_dependency_package_names = {d.package_name for d in dependencies}")]),
]
