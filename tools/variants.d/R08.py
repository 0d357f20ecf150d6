L = "api/repositories/repository_loader.py"
M = "api/repositories/repository_management.py"
BOUND = """        if repo_name := self._package_binding.get(dependency.package_name_key):
            if not (repo := first_or_none(it for it in self._package_search_list if it.name == repo_name)):
                raise NoSuchElementException(f"package: {dependency.package_name} is bound to "
                                             f"repository: {repo_name}, but this repository is not defined")
            return repo.match(dependency, env)
"""
REST = """        for repo in self._package_search_list:
            if repo.name not in self._binding_only_repositories and (result := repo.match(dependency, env)):
                return result

        return []
"""
REPOS = """        for defined_name, definition in config.repos.items():
            instance = self.build(defined_name, definition.type, **definition.args)
            package_search_list.append(instance)
            if definition.bind_only:
                binding_only_repositories.add(defined_name)
"""
INH = """        if config.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_CONTEXT:
            package_search_list.append(next_in_context)
        elif config.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_GLOBAL:
            package_search_list.append(self.global_repo)
"""
BIND = """            package = PackageDescriptor.package_name_key(package)
            if isinstance(binding, str):
                package_binding[package] = binding
            else:
                args = dict(binding)
                type_ = args.pop('type')
                binding = self.build(f"{name}:{package}", type_, **args)
                binding_only_repositories.add(binding.name)
                package_search_list.append(binding)
                package_binding[package] = binding.name
"""
BUILD = """        key = _CachedRepositoryKey(name, builder, args)
        if not (cached := self._cached_instances.get(key)):
            if not (builder := self._builders.get(builder)):
                raise KeyError(f"unknown repository type: {builder}")
            cached = builder.build(name, **{k.replace("-", "_"): v for k, v in args.items()})
            self._cached_instances[key] = cached

        return cached
"""
ATT = """        for rman in reversed(self.package_lookup_chain()):
            if not isinstance(rman, PkmRepositoryManagement) and rman.configuration.path.exists():
                repo = self._loader.load(str(rman.configuration.path), rman.configuration, repo)
            repo = rman._wrap_attached_repository(repo)
"""
VARIANTS = [
    ("falls through", "fire", [(L, "            return repo.match(dependency, env)\n\n        for", "            if found := repo.match(dependency, env):\n                return found\n\n        for")]),
    ("undefined is silent", "fire", [(L, BOUND, """        if repo_name := self._package_binding.get(dependency.package_name_key):
            repo = first_or_none(it for it in self._package_search_list if it.name == repo_name)
            return repo.match(dependency, env) if repo else []
""")]),
    ("undefined falls through", "fire", [(L, BOUND, """        if repo_name := self._package_binding.get(dependency.package_name_key):
            if repo := first_or_none(it for it in self._package_search_list if it.name == repo_name):
                return repo.match(dependency, env)
""")]),
    ("spelled lookup", "fire", [(L, "_package_binding.get(dependency.package_name_key)", "_package_binding.get(dependency.package_name)")]),
    ("reserved asked", "fire", [(L, "            if repo.name not in self._binding_only_repositories and (result := repo.match(dependency, env)):", "            if result := repo.match(dependency, env):")]),
    ("reserved inverted", "fire", [(L, "repo.name not in self._binding_only", "repo.name in self._binding_only")]),
    ("binding prefix", "fire", [(L, "if it.name == repo_name)", "if it.name.startswith(repo_name))")]),
    ("merged", "fire", [(L, REST, """        result = []
        for repo in self._package_search_list:
            if repo.name not in self._binding_only_repositories:
                result.extend(repo.match(dependency, env))
        return result
""")]),
    ("last wins", "fire", [(L, "for repo in self._package_search_list:\n            if repo.name", "for repo in reversed(self._package_search_list):\n            if repo.name")]),
    ("by name", "fire", [(L, "for repo in self._package_search_list:\n            if repo.name", "for repo in sorted(self._package_search_list, key=lambda it: it.name):\n            if repo.name")]),
    ("first answers", "fire", [(L, REST, """        for repo in self._package_search_list:
            if repo.name not in self._binding_only_repositories:
                return repo.match(dependency, env)

        return []
""")]),
    ("url to all", "fire", [(L, "for repo in self._url_handlers[url.protocol]:", "for repo in self._package_search_list:")]),
    ("raw binding keys", "fire", [(L, "            package = PackageDescriptor.package_name_key(package)\n", "")]),
    ("bind only ignored", "fire", [(L, "            if definition.bind_only:\n                binding_only_repositories.add(defined_name)\n", "")]),
    ("bind only all", "fire", [(L, "            if definition.bind_only:\n                binding_only_repositories.add(defined_name)\n", "            binding_only_repositories.add(defined_name)\n")]),
    ("bind only not listed", "fire", [(L, REPOS, """        for defined_name, definition in config.repos.items():
            instance = self.build(defined_name, definition.type, **definition.args)
            if definition.bind_only:
                binding_only_repositories.add(defined_name)
            else:
                package_search_list.append(instance)
""")]),
    ("context first", "fire", [(L, REPOS + "\n" + INH, INH + "\n" + REPOS)]),
    ("always context", "fire", [(L, INH, "        package_search_list.append(next_in_context)\n")]),
    ("modes swapped", "fire", [(L, "Mode.INHERIT_CONTEXT:", "Mode.INHERIT_GLOBAL:"), ]),
    ("global for none", "fire", [(L, "        elif config.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_GLOBAL:", "        else:")]),
    ("context if it has none", "fire", [(L, "        return _CompositeRepository(name, package_search_list", "        if not package_search_list:\n            return next_in_context\n\n        return _CompositeRepository(name, package_search_list")]),
    ("context if no repos", "fire", [(L, "        package_search_list = []\n        binding_only", "        if not config.repos and config.inheritance_mode != RepositoriesConfigInheritanceMode.INHERIT_GLOBAL:\n            return next_in_context\n        package_search_list = []\n        binding_only")]),
    ("inline not reserved", "fire", [(L, "                binding_only_repositories.add(binding.name)\n", "")]),
    ("inline shared name", "fire", [(L, 'self.build(f"{name}:{package}", type_', "self.build(name, type_")]),
    ("inline pops", "fire", [(L, "args = dict(binding)", "args = binding")]),
    ("inline not listed", "fire", [(L, "                package_search_list.append(binding)\n", "")]),
    ("key without name", "fire", [(L, "    name: str\n    builder: str", "    builder: str"), (L, "_CachedRepositoryKey(name, builder, args)", "_CachedRepositoryKey(builder, args)"), (L, "            .regular(self.name) \\\n", "")]),
    ("key without args", "fire", [(L, "key = _CachedRepositoryKey(name, builder, args)", "key = (name, builder)")]),
    ("no bindings given", "fire", [(L, "binding_only_repositories, package_binding)\n\n    def build", "binding_only_repositories, {})\n\n    def build")]),
    ("no reserve given", "fire", [(L, "package_search_list, binding_only_repositories, package_binding)\n\n    def build", "package_search_list, set(), package_binding)\n\n    def build")]),
    ("only nonreserved kept", "fire", [(L, "            if repo.accept_non_url_packages():\n", "            if repo.accept_non_url_packages() and repo.name not in binding_only_repositories:\n")]),
    ("chain forward", "fire", [(M, "in reversed(self.package_lookup_chain()):", "in self.package_lookup_chain():")]),
    ("load without inherited", "fire", [(M, "rman.configuration, repo)", "rman.configuration, None)")]),
    ("wraps only without configuration", "fire", [(M, ATT, """        for rman in reversed(self.package_lookup_chain()):
            if not isinstance(rman, PkmRepositoryManagement) and rman.configuration.path.exists():
                repo = self._loader.load(str(rman.configuration.path), rman.configuration, repo)
            else:
                repo = rman._wrap_attached_repository(repo)
""")]),
    ("loads only with repos", "fire", [(M, "and rman.configuration.path.exists():", "and rman.configuration.repos:")]),
    ("global without own", "fire", [(M, "return [self, pkm.repository_management]", "return [pkm.repository_management]")]),
    ("none with global", "fire", [(M, "            return [self]\n", "            return [self, pkm.repository_management]\n")]),
    ("env drops", "fire", [(M, "        return [(self.env.zoo or pkm, True)]\n\n    def _wrap_attached_repository(self, inherited: Optional[Repository]) -> Repository:\n        return inherited", "        return [(self.env.zoo or pkm, True)]\n\n    def _wrap_attached_repository(self, inherited: Optional[Repository]) -> Repository:\n        return self._loader.pypi")]),
    ("zoo over global", "quiet", [(M, "        if self.zoo.config.package_sharing.enabled:\n            inherited = SharedPackagesRepository(self.zoo.path / \".zoo/shared\", inherited)\n\n        return inherited", "        if not self.zoo.config.package_sharing.enabled:\n            return inherited\n        return SharedPackagesRepository(self.zoo.path / \".zoo/shared\", inherited)")]),
    ("project without base", "fire", [(M, "'project-repository', [self.project], inherited)", "'project-repository', [self.project])")]),
    ("others forgotten", "fire", [(M, "                **others,\n", "")]),
    ("others of the repo", "fire", [(M, "if PackageDescriptor.package_name_key(p) not in names", "if r != repo")]),
    ("remove all", "fire", [(M, "for p, r in self.configuration.package_bindings.items() if r != name}", "for p, r in self.configuration.package_bindings.items() if not isinstance(r, str)}")]),
    ("remove clears", "fire", [(M, "            p: r for p, r in self.configuration.package_bindings.items() if r != name}", "            p: r for p, r in self.configuration.package_bindings.items() if r == name and not r}")]),

    ("helper methods", "quiet", [(L, BOUND, """        if bound := self._bound(dependency):
            return bound.match(dependency, env)
"""), (L, "    def accepted_url_protocols(self) -> Iterable[str]:\n        return self._url_handlers.keys()", """    def _bound(self, dependency):
        repo_name = self._package_binding.get(dependency.package_name_key)
        if not repo_name:
            return None
        for repo in self._package_search_list:
            if repo.name == repo_name:
                return repo
        raise NoSuchElementException(f"package: {dependency.package_name} is bound to {repo_name}")

    def accepted_url_protocols(self) -> Iterable[str]:
        return self._url_handlers.keys()""")]),
    ("in test", "quiet", [(L, "        if repo_name := self._package_binding.get(dependency.package_name_key):\n", "        key = dependency.package_name_key\n        if key in self._package_binding:\n            repo_name = self._package_binding[key]\n")]),
    ("next", "quiet", [(L, "first_or_none(it for it in self._package_search_list if it.name == repo_name)", "next((it for it in self._package_search_list if it.name == repo_name), None)")]),
    ("continue", "quiet", [(L, REST, """        for repo in self._package_search_list:
            if repo.name in self._binding_only_repositories:
                continue
            result = repo.match(dependency, env)
            if result:
                return result
        return []
""")]),
    ("break", "quiet", [(L, REST, """        result = []
        for repo in self._package_search_list:
            if repo.name in self._binding_only_repositories:
                continue
            result = repo.match(dependency, env)
            if result:
                break
        return result
""")]),
    ("filtered list", "quiet", [(L, REST, """        open_repositories = [it for it in self._package_search_list if it.name not in self._binding_only_repositories]
        for repo in open_repositories:
            if result := repo.match(dependency, env):
                return result

        return []
""")]),
    ("lazy", "quiet", [(L, REST, """        matches = (
            repo.match(dependency, env) for repo in self._package_search_list
            if repo.name not in self._binding_only_repositories)
        return next((it for it in matches if it), [])
""")]),
    ("lookup table", "quiet", [(L, "            if not (repo := first_or_none(it for it in self._package_search_list if it.name == repo_name)):", "            by_name = {it.name: it for it in reversed(self._package_search_list)}\n            if not (repo := by_name.get(repo_name)):")]),
    ("comprehensions", "quiet", [(L, "        package_search_list = []\n        binding_only_repositories = set()\n\n" + REPOS, """        package_search_list = [self.build(n, d.type, **d.args) for n, d in config.repos.items()]
        binding_only_repositories = {n for n, d in config.repos.items() if d.bind_only}
""")]),
    ("by key", "quiet", [(L, REPOS, """        for defined_name in config.repos:
            definition = config.repos[defined_name]
            if definition.bind_only:
                binding_only_repositories.add(defined_name)
            package_search_list.append(self.build(name=defined_name, builder=definition.type, **definition.args))
""")]),
    ("inherited helper", "quiet", [(L, INH, "        package_search_list.extend(self._inherited(config, next_in_context))\n"), (L, "    def build(self, name: str", """    def _inherited(self, config, next_in_context):
        mode = config.inheritance_mode
        if mode == RepositoriesConfigInheritanceMode.INHERIT_CONTEXT:
            return [next_in_context]
        if mode == RepositoriesConfigInheritanceMode.INHERIT_GLOBAL:
            return [self.global_repo]
        return []

    def build(self, name: str""")]),
    ("inherited optional", "quiet", [(L, INH, """        inherited = None
        if config.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_CONTEXT:
            inherited = next_in_context
        elif config.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_GLOBAL:
            inherited = self._global_repo
        if inherited is not None:
            package_search_list.append(inherited)
""")]),
    ("inherited is", "quiet", [(L, "config.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_CONTEXT", "config.inheritance_mode is RepositoriesConfigInheritanceMode.INHERIT_CONTEXT"), (L, "config.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_GLOBAL", "config.inheritance_mode is RepositoriesConfigInheritanceMode.INHERIT_GLOBAL")]),
    ("inline spread", "quiet", [(L, """                args = dict(binding)
                type_ = args.pop('type')
                binding = self.build(f"{name}:{package}", type_, **args)
""", """                args = {k: v for k, v in binding.items() if k != 'type'}
                binding = self.build(f"{name}:{package}", binding['type'], **args)
""")]),
    ("inline helper", "quiet", [(L, BIND, """            package = PackageDescriptor.package_name_key(package)
            if not isinstance(binding, str):
                inline = self._inline(f"{name}:{package}", binding)
                binding_only_repositories.add(inline.name)
                package_search_list.append(inline)
                binding = inline.name
            package_binding[package] = binding
"""), (L, "    def build(self, name: str", """    def _inline(self, name, definition):
        args = {**definition}
        return self.build(name, args.pop('type'), **args)

    def build(self, name: str""")]),
    ("key tuple", "quiet", [(L, "key = _CachedRepositoryKey(name, builder, args)", "key = (name, builder, tuple(sorted(args.items())))")]),
    ("build in", "quiet", [(L, BUILD, """        key = _CachedRepositoryKey(name, builder, args)
        if key in self._cached_instances:
            return self._cached_instances[key]
        if builder not in self._builders:
            raise KeyError(f"unknown repository type: {builder}")
        instance = self._builders[builder].build(name, **{k.replace("-", "_"): v for k, v in args.items()})
        self._cached_instances[key] = instance
        return instance
""")]),
    ("init comprehension", "quiet", [(L, """        self._package_search_list = []
        self._binding_only""", """        self._package_search_list = [it for it in package_search_list if it.accept_non_url_packages()]
        self._binding_only"""), (L, """            if repo.accept_non_url_packages():
                self._package_search_list.append(repo)
""", "")]),
    ("init copies", "quiet", [(L, "self._package_binding = package_bindings", "self._package_binding = dict(package_bindings)"), (L, "self._binding_only_repositories = binding_only_repositories", "self._binding_only_repositories = frozenset(binding_only_repositories)")]),
    ("chain list", "quiet", [(M, ATT, """        for rman in self.package_lookup_chain()[::-1]:
            has_configuration = rman.configuration.path.exists()
            if has_configuration and not isinstance(rman, PkmRepositoryManagement):
                repo = self._loader.load(str(rman.configuration.path), rman.configuration, repo)
            repo = rman._wrap_attached_repository(repo)
""")]),
    ("chain reverse", "quiet", [(M, ATT, """        chain = list(self.package_lookup_chain())
        chain.reverse()
        for rman in chain:
            repo = self._attach(rman, repo)
"""), (M, "    def _update_config(self):", """    def _attach(self, rman, repo):
        if not isinstance(rman, PkmRepositoryManagement) and rman.configuration.path.exists():
            repo = self._loader.load(str(rman.configuration.path), rman.configuration, repo)
        return rman._wrap_attached_repository(repo)

    def _update_config(self):""")]),
    ("modes once", "quiet", [(M, """        if self.configuration.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_GLOBAL:
            return [self, pkm.repository_management]
        elif self.configuration.inheritance_mode != RepositoriesConfigInheritanceMode.INHERIT_CONTEXT:
            return [self]
""", """        mode = self.configuration.inheritance_mode
        if mode == RepositoriesConfigInheritanceMode.NO_INHERITANCE:
            return [self]
        if mode == RepositoriesConfigInheritanceMode.INHERIT_GLOBAL:
            result = [self]
            result.append(pkm.repository_management)
            return result
""")]),
    ("register loop", "quiet", [(M, """        others = {
            p: r for p, r in self.configuration.package_bindings.items()
            if PackageDescriptor.package_name_key(p) not in names
        }
""", """        others = {}
        for p, r in self.configuration.package_bindings.items():
            if PackageDescriptor.package_name_key(p) in names:
                continue
            others[p] = r
""")]),
    ("remove loop", "quiet", [(M, """        self.configuration.package_bindings = {
            p: r for p, r in self.configuration.package_bindings.items() if r != name}
""", """        for p, r in list(self.configuration.package_bindings.items()):
            if r == name:
                del self.configuration.package_bindings[p]
""")]),
]
