I = "api/packages/package_installation.py"
D = "resolution/dependency_resolver.py"
E = "api/environments/environment.py"
C = "api/environments/package_containers.py"
FAST = """            installation = resolve_dependencies(
                user_request.to_dependency(), self, installation_repo, dependencies_override)

            installation_names"""
SLOW = """            installation = resolve_dependencies(
                user_request.to_dependency(), self, installation_repo, dependencies_override)

        user_requests"""
PLAN = """        plan = self.plan_installation(
            dependencies, repository, user_requested, dependencies_override, updates
        )
"""
LOOP = """                if o := self._dependency_overrides.get(d.package_name_key):
                    result.append(Term(_Pkg.of(o), o.version_spec))
                else:
                    result.append(Term(_Pkg.of(d), d.version_spec))
"""
ENV = "            dependencies, repository, user_requested, dependencies_override, store_modes, updates)"
UPDATES = "        updates = {PackageDescriptor.package_name_key(name) for name in (updates or ())}\n"
STORED = """        self._dependency_overrides = {
            PackageDescriptor.package_name_key(name): override for name, override in (dependency_overrides or {}).items()}
"""
VARIANTS = [
    ("unchanged", "quiet", []),
    ("keyword", "quiet", [(I, SLOW, SLOW.replace("dependencies_override)", "dependency_overrides=dependencies_override)"))]),
    ("default once", "quiet", [(I, UPDATES, UPDATES + "        dependencies_override = dependencies_override or {}\n")]),
    ("copied", "quiet", [(I, UPDATES, UPDATES + "        overrides = dict(dependencies_override or {})\n"), (I, SLOW, SLOW.replace("dependencies_override)", "overrides)")), (I, FAST, FAST.replace("dependencies_override)", "overrides)"))]),
    ("normalized", "quiet", [(I, UPDATES, UPDATES + "        overrides = {PackageDescriptor.normalize_name(k): v for k, v in (dependencies_override or {}).items()}\n"), (I, SLOW, SLOW.replace("dependencies_override)", "overrides)"))]),
    ("normalized loop", "quiet", [(I, UPDATES, UPDATES + "        overrides = {}\n        for name, o in (dependencies_override or {}).items():\n            overrides[name.lower()] = o\n"), (I, SLOW, SLOW.replace("dependencies_override)", "overrides)"))]),
    ("helper", "quiet", [(I, SLOW, """            installation = self._resolve_again(user_request, installation_repo, dependencies_override)

        user_requests"""), (I, "    def force_remove(self, package", """    def _resolve_again(self, user_request, repo, overrides):
        return resolve_dependencies(user_request.to_dependency(), self, repo, overrides)

    def force_remove(self, package""")]),
    ("helper closure", "quiet", [(I, "        run_slow_path = False\n", """        def resolve(request, repo):
            return resolve_dependencies(request.to_dependency(), self, repo, dependencies_override)

        run_slow_path = False
"""), (I, SLOW, "            installation = resolve(user_request, installation_repo)\n\n        user_requests")]),
    ("kwargs", "quiet", [(I, PLAN, """        plan = self.plan_installation(
            dependencies, repository, user_requested=user_requested,
            dependencies_override=dependencies_override, updates=updates)
""")]),
    ("env keywords", "quiet", [(E, ENV, "            dependencies, repository, user_requested,\n            dependencies_override=dependencies_override, store_mode=store_modes, updates=updates)")]),
    ("container local", "quiet", [(C, "dependencies_override=app_config.dependency_overwrites,", "dependencies_override=overwrites,"), (C, "            app_config = app.config.pkm_application\n", "            app_config = app.config.pkm_application\n            overwrites = app_config.dependency_overwrites\n")]),
    ("container helper", "quiet", [(C, """            contained_target.install(
                app_config.dependencies, dependencies_override=app_config.dependency_overwrites,
                repository=app.attached_repository,
                store_mode={d.package_name: store_mode for d in app_config.dependencies},
                updates=[d.package_name for d in app_config.dependencies])
""", """            self._install_dependencies(contained_target, app, app_config, store_mode)
"""), (C, "    def _get_or_install(self", """    def _install_dependencies(self, target, app, app_config, store_mode):
        target.install(
            app_config.dependencies, dependencies_override=app_config.dependency_overwrites,
            repository=app.attached_repository,
            store_mode={d.package_name: store_mode for d in app_config.dependencies},
            updates=[d.package_name for d in app_config.dependencies])

    def _get_or_install(self""")]),
    ("lookup in", "quiet", [(D, LOOP, """                if d.package_name_key in self._dependency_overrides:
                    d = self._dependency_overrides[d.package_name_key]
                result.append(Term(_Pkg.of(d), d.version_spec))
""")]),
    ("lookup default", "quiet", [(D, LOOP, """                effective = self._dependency_overrides.get(d.package_name_key) or d
                result.append(Term(_Pkg.of(effective), effective.version_spec))
""")]),
    ("lookup get default", "quiet", [(D, LOOP, """                d = self._dependency_overrides.get(d.package_name_key, d)
                result.append(Term(_Pkg.of(d), d.version_spec))
""")]),
    ("lookup helper", "quiet", [(D, LOOP, """                effective = self._overridden(d)
                result.append(Term(_Pkg.of(effective), effective.version_spec))
"""), (D, "    def get_versions(self", """    def _overridden(self, d):
        o = self._dependency_overrides.get(d.package_name_key)
        return d if o is None else o

    def get_versions(self""")]),
    ("slow lost", "fire", [(I, SLOW, SLOW.replace(", dependencies_override)", ")"))]),
    ("fast lost", "fire", [(I, FAST, FAST.replace(", dependencies_override)", ")"))]),
    ("plan lost", "fire", [(I, PLAN, PLAN.replace("dependencies_override, updates", "updates=updates"))]),
    ("plan only with updates", "fire", [(I, PLAN, PLAN.replace("dependencies_override, updates", "dependencies_override if updates else None, updates"))]),
    ("plan swapped", "fire", [(I, PLAN, PLAN.replace("dependencies_override, updates", "updates, dependencies_override"))]),
    ("some overrides", "fire", [(I, UPDATES, UPDATES + "        overrides = {k: v for k, v in (dependencies_override or {}).items() if k in updates}\n"), (I, SLOW, SLOW.replace("dependencies_override)", "overrides)"))]),
    ("env lost", "fire", [(E, ENV, "            dependencies, repository, user_requested, None, store_modes, updates)")]),
    ("container lost", "fire", [(C, "dependencies_override=app_config.dependency_overwrites,", "")]),
    ("container empty", "fire", [(C, "dependencies_override=app_config.dependency_overwrites,", "dependencies_override={},")]),
    ("problem lost", "fire", [(D, "repo, root, dependency_overrides)\n    solver", "repo, root)\n    solver")]),
    ("not stored", "fire", [(D, STORED, "        self._dependency_overrides = {}\n")]),
    ("not with extras", "fire", [(D, LOOP, LOOP.replace("if o := self._dependency_overrides.get(d.package_name_key):", "if not d.extras and (o := self._dependency_overrides.get(d.package_name_key)):"))]),
    ("not for urls", "fire", [(D, LOOP, LOOP.replace("                if o :=", "                if d.required_url():\n                    result.append(Term(_Pkg.of(d), d.version_spec))\n                elif o :="))]),
    ("both", "fire", [(D, LOOP, LOOP.replace("                else:\n    ", "                if True:\n    "))]),
    ("only root", "fire", [(D, LOOP, LOOP.replace("if o := self._dependency_overrides.get(d.package_name_key):", "if package.name == self._root.package_name and (o := self._dependency_overrides.get(d.package_name_key)):"))]),
    ("spec of requirement", "fire", [(D, LOOP, LOOP.replace("o.version_spec", "d.version_spec if d.required_url() else o.version_spec"))]),
    ("stored plain", "quiet", [(D, STORED, "        self._dependency_overrides = dependency_overrides or {}\n")]),
    ("not asked", "fire", [(D, LOOP, "                result.append(Term(_Pkg.of(d), d.version_spec))\n")]),
]
