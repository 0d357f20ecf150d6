F = "resolution/packages_lock.py"
UPD = """        new_locks = [
            lock for locks_by_name in self._locked_packages.values()
            for lock in locks_by_name
            if lock.env_markers_hash != env_hash]
"""
VARIANTS = [
    ("loop", "quiet", [(F, UPD, """        new_locks = []
        for locks_by_name in self._locked_packages.values():
            for lock in locks_by_name:
                if lock.env_markers_hash == env_hash:
                    continue
                new_locks.append(lock)
""")]),
    ("items loop", "quiet", [(F, UPD, """        new_locks = []
        for _, locks_by_name in self._locked_packages.items():
            for lock in locks_by_name:
                if env_hash != lock.env_markers_hash:
                    new_locks.append(lock)
""")]),
    ("helper", "quiet", [(F, UPD, """        new_locks = self._others(env)
"""), (F, "    def update_lock(", """    def _others(self, env):
        return [
            lock for locks_by_name in self._locked_packages.values()
            for lock in locks_by_name
            if lock.env_markers_hash != env.markers_hash]

    def update_lock(""")]),
    ("key loop", "quiet", [(F, UPD, """        new_locks = []
        for name in self._locked_packages:
            for lock in self._locked_packages[name]:
                if env_hash != lock.env_markers_hash:
                    new_locks.append(lock)
""")]),
    ("extend", "quiet", [(F, UPD, """        new_locks = []
        for group in self._locked_packages.values():
            new_locks.extend(lock for lock in group if lock.env_markers_hash != env_hash)
""")]),
    ("save loop", "quiet", [(F, """        _PackageLockConfig(locks=[lp for locks_by_name in self._locked_packages.values() for lp in locks_by_name]) \\
            .save(lock_file)""", """        locks = []
        for locks_by_name in self._locked_packages.values():
            locks += locks_by_name
        _PackageLockConfig(locks=locks).save(lock_file)""")]),
    ("save loop 2", "quiet", [(F, """        _PackageLockConfig(locks=[lp for locks_by_name in self._locked_packages.values() for lp in locks_by_name]) \\
            .save(lock_file)""", """        locks = []
        for locks_by_name in self._locked_packages.values():
            locks.extend(locks_by_name)
        _PackageLockConfig(locks).save(lock_file)""")]),
    ("new list expr", "quiet", [(F, """        for package in env.site_packages.installed_packages():
            new_locks.append(_LockedVersion(env_hash, package.descriptor))

        self._locked_packages = groupby(new_locks, lambda it: it.package.name_key)""", """        mine = [_LockedVersion(env_hash, package.descriptor) for package in env.site_packages.installed_packages()]
        self._locked_packages = groupby(new_locks + mine, lambda it: it.package.name_key)""")]),
    ("inverted", "fire", [(F, "if lock.env_markers_hash != env_hash]", "if lock.env_markers_hash == env_hash]")]),
    ("also installed names", "fire", [(F, "            if lock.env_markers_hash != env_hash]\n", "            if lock.env_markers_hash != env_hash and env.site_packages.installed_package(lock.package.name)]\n")]),
    ("not kept", "fire", [(F, UPD, "        new_locks = []\n")]),
    ("by name", "fire", [(F, "        new_locks = [\n", "        names = {p.descriptor.name for p in env.site_packages.installed_packages()}\n        new_locks = [\n"),
                          (F, "            if lock.env_markers_hash != env_hash]\n", "            if lock.package.name not in names]\n")]),
    ("group skipped", "fire", [(F, UPD, """        new_locks = []
        for name, locks_by_name in self._locked_packages.items():
            if name == 'pip':
                continue
            for lock in locks_by_name:
                if env_hash != lock.env_markers_hash:
                    new_locks.append(lock)
""")]),
    ("first of group", "fire", [(F, UPD, """        new_locks = []
        for name, locks_by_name in self._locked_packages.items():
            for lock in locks_by_name:
                if env_hash != lock.env_markers_hash:
                    new_locks.append(lock)
                    break
""")]),
    ("save only own", "fire", [(F, "for lp in locks_by_name]) \\\n", "for lp in locks_by_name[:1]]) \\\n")]),
    ("save filter", "fire", [(F, "for lp in locks_by_name]) \\\n", "for lp in locks_by_name if lp.package.version]) \\\n")]),
    ("grouping overwrites", "fire", [("utils/iterators.py", "        if lst is None:\n            result[k] = lst = []\n        lst.append(item)", "        if lst is None:\n            result[k] = lst = []\n            lst.append(item)")]),
    ("wrong hash", "fire", [(F, "new_locks.append(_LockedVersion(env_hash, package.descriptor))", "new_locks.append(_LockedVersion(new_locks[0].env_markers_hash if new_locks else env_hash, package.descriptor))")]),
]
