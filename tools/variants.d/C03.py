ENV, PR, PG = "api/environments/environment.py", "api/projects/project.py", "api/projects/project_group.py"
CF = "config/configclass.py"
VARIANTS = [
    ("swap", "fire", [("repositories/pypi_repository.py", "return [self.name, self._fetch_url, self._publish_url]", "return [self.name, self._publish_url, self._fetch_url]")]),
    ("drop-last", "fire", [("repositories/pypi_repository.py", "return [self.name, self._fetch_url, self._publish_url]", "return [self.name, self._fetch_url]")]),
    ("drop-metadata", "fire", [("repositories/pypi_repository.py", "self._artifacts, self._repo, self._published_metadata]", "self._artifacts, self._repo, None]")]),
    ("env-drop", "fire", [(ENV, "{'use_user_site': self._use_user_site, 'zoo': self.zoo}", "{'zoo': self.zoo}")]),
    ("env-swap", "fire", [(ENV, "[[self._env_path, self._interpreter_path],", "[[self._interpreter_path, self._env_path],")]),
    ("init-new-param", "fire", [("repositories/simple_repository.py", "    def __init__(self, descriptor: PackageDescriptor, artifacts: List[PackageArtifact]):\n        super().__init__(descriptor, artifacts)\n",
                                 "    def __init__(self, descriptor: PackageDescriptor, artifacts: List[PackageArtifact], index: Optional[str] = None):\n        super().__init__(descriptor, artifacts)\n        self._index = index\n")]),
    ("site-same", "fire", [("api/packages/site_packages.py", "return [self.env, self._purelib, self._platlib]", "return [self.env, self._purelib, self._purelib]")]),
    ("installed-order", "fire", [("api/packages/site_packages.py", "return [self._dist_info, self.site]", "return [self.site, self._dist_info]")]),
    ("config-path", "fire", [(CF, "        self.path = state[1]\n", "        self.path = None\n")]),
    ("config-content", "fire", [(CF, "        cls._io().codec.parse(state[0], cls, self)\n", "        cls._io().codec.parse({}, cls, self)\n")]),
    ("no-getstate", "fire", [("repositories/git_repository.py", "    def __getstate__(self):\n        return [self._project]\n", "")]),
    ("str-path", "fire", [("api/distributions/distinfo.py", "return [self.path]", "return [str(self.path)]")]),
    ("url-desc", "fire", [("repositories/url_repository.py", "return [self.descriptor, self._url]", "return [self.descriptor, self.descriptor.version]")]),
    ("symbol-id", "fire", [("utils/symbol.py", "self._name, self._id = state", "self._id, self._name = state")]),
    ("removal", "fire", [("api/packages/package_installation.py", "    def __getstate__(self):\n        return [self.package]\n", "    def __getstate__(self):\n        return [self.package.descriptor]\n")]),
    ("tuple", "quiet", [("repositories/pypi_repository.py", "return [self.name, self._fetch_url, self._publish_url]", "return (self.name, self._fetch_url, self._publish_url)")]),
    ("local", "quiet", [("repositories/pypi_repository.py", "        return [self.name, self._fetch_url, self._publish_url]", "        state = [self.name, self._fetch_url, self._publish_url]\n        return state")]),
    ("dict", "quiet", [("api/distributions/distinfo.py", "return [self.path]", "return {'path': self.path}"), ("api/distributions/distinfo.py", "        self.__init__(*state)\n", "        self.__init__(**state)\n")]),
    ("direct", "quiet", [("repositories/git_repository.py", "        self.__init__(*state)\n", "        self._project = state[0]\n")]),
    ("unpack", "quiet", [(PR, "        self.__init__(*state)\n", "        pyproject, group = state\n        self.__init__(pyproject, group=group)\n")]),
    ("str-path-back", "quiet", [("api/distributions/distinfo.py", "return [self.path]", "return [str(self.path)]"), ("api/distributions/distinfo.py", "        self.__init__(*state)\n", "        self.__init__(Path(state[0]))\n")]),
    ("env-flat", "quiet", [(ENV, "        return [[self._env_path, self._interpreter_path], {'use_user_site': self._use_user_site, 'zoo': self.zoo}]\n",
                            "        return self._env_path, self._interpreter_path, self._use_user_site, self.zoo\n"),
                           (ENV, "        self.__init__(*state[0], **state[1])\n", "        env_path, interpreter_path, user_site, zoo = state\n        self.__init__(env_path, interpreter_path, use_user_site=user_site, zoo=zoo)\n")]),
    ("init-helper", "quiet", [("repositories/pypi_repository.py", "        self._publish_url = publish_url\n", "        self._set_publish(publish_url)\n\n    def _set_publish(self, url):\n        self._publish_url = url\n")]),
    ("new-cache", "quiet", [("repositories/simple_repository.py", "    def __init__(self, descriptor: PackageDescriptor, artifacts: List[PackageArtifact]):\n        super().__init__(descriptor, artifacts)\n",
                             "    def __init__(self, descriptor: PackageDescriptor, artifacts: List[PackageArtifact]):\n        super().__init__(descriptor, artifacts)\n        self._cache = {}\n        self._failed = None\n")]),
    ("append", "quiet", [("repositories/pypi_repository.py", "        return [self.name, self._fetch_url, self._publish_url]", "        state = [self.name, self._fetch_url]\n        state.append(self._publish_url)\n        return state")]),
]
