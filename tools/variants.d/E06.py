S = "build/source_build_cache.py"
G = "repositories/git_repository.py"
P = "api/projects/project.py"
K = "api/pkm.py"
Z = "api/environments/environments_zoo.py"
SP = "api/packages/site_packages.py"
SH = "repositories/shared_pacakges_repo.py"
H = "utils/http/http_client.py"
F = "utils/files.py"
RM = "            shutil.rmtree(base_cache_dir)\n"
BASE = """        base_cache_dir = self.workspace / _normalize(dist.owner_package.name) / \\
                         _normalize(str(dist.owner_package.version)) / \\
                         target.env.markers_hash
"""
VARIANTS = [
    ("helper", "quiet", [(S, RM, "            remove_tree(base_cache_dir)\n"), (S, "from pkm.utils.files import ", "from pkm.utils.files import remove_tree, "),
                         (F, "def is_root_path(", "def remove_tree(path: Path):\n    shutil.rmtree(path)\n\n\ndef is_root_path(")]),
    ("import name", "quiet", [(G, "            shutil.rmtree(target_dir, ignore_errors=True)", "            rmtree(target_dir, ignore_errors=True)"),
                              (G, "import shutil\n", "from shutil import rmtree\n")]),
    ("joinpath", "quiet", [(S, BASE, """        owner = dist.owner_package
        base_cache_dir = self.workspace.joinpath(_normalize(owner.name), _normalize(str(owner.version)), target.env.markers_hash)
""")]),
    ("method", "quiet", [(S, BASE, "        base_cache_dir = self._base_dir(target, dist)\n"), (S, "    def get_or_build_wheel(", """    def _base_dir(self, target, dist):
        return self.workspace / _normalize(dist.owner_package.name) / _normalize(str(dist.owner_package.version)) / target.env.markers_hash

    def get_or_build_wheel(""")]),
    ("loop over caches", "quiet", [(K, """        shutil.rmtree(self.repository_loader.workspace, ignore_errors=True)
        shutil.rmtree(self.source_build_cache.workspace, ignore_errors=True)
        shutil.rmtree(self.httpclient.workspace, ignore_errors=True)
""", """        for part in (self.repository_loader, self.source_build_cache, self.httpclient):
            shutil.rmtree(part.workspace, ignore_errors=True)
""")]),
    ("home constant", "quiet", [(K, "        return HttpClient(self.home / 'resources/http')", "        home = self.home\n        return HttpClient(home / 'resources' / 'http')")]),
    ("iterdir children", "quiet", [(H, "        shutil.rmtree(self.workspace)\n", "        for d in self.workspace.iterdir():\n            shutil.rmtree(d, ignore_errors=True)\n")]),
    ("dist var", "quiet", [(P, "        return ProjectDirectories(packages, project_path / 'dist', etc_pkm)", "        dist = project_path / 'dist'\n        return ProjectDirectories(packages, dist, etc_pkm)")]),
    ("dist-info local", "quiet", [(SP, "        if self._dist_info.path.exists():\n            shutil.rmtree(self._dist_info.path)", "        metadata = self.dist_info.path\n        if metadata.exists():\n            shutil.rmtree(metadata)")]),
    ("early return", "quiet", [(P, """        if not Environment.is_venv_path(env_path):
            if env_path.exists():
""", """        if Environment.is_venv_path(env_path):
            return Environment(env_path)
        else:
            if env_path.exists():
""")]),
    ("home itself", "fire", [(K, "        shutil.rmtree(self.httpclient.workspace, ignore_errors=True)", "        shutil.rmtree(self.home, ignore_errors=True)")]),
    ("client at home", "fire", [(K, "HttpClient(self.home / 'resources/http')", "HttpClient(self.home)")]),
    ("configured dist", "fire", [(P, "project_path / 'dist', etc_pkm)", "project_path, etc_pkm)")]),
    ("raw version", "fire", [(S, "_normalize(str(dist.owner_package.version)) / \\\n                         target", "str(dist.owner_package.version) / \\\n                         target")]),
    ("git unguarded", "fire", [(G, "        if target_path.is_absolute() or '..' in target_path.parts:\n            raise ValueError(f\"malformed git url: {version.url}\")\n", "")]),
    ("git half guard", "fire", [(G, "if target_path.is_absolute() or '..'", "if '..'")]),
    ("marker text", "fire", [(SH, "        for package_dir in self._workspace.iterdir():\n", "        for used in used_packages:\n            shutil.rmtree(Path(used))\n\n        for package_dir in self._workspace.iterdir():\n")]),
    ("uninstall parent", "fire", [(SP, "                shutil.rmtree(precompiled, ignore_errors=True)", "                shutil.rmtree(parent, ignore_errors=True)")]),
    ("resource root", "fire", [(H, "        shutil.rmtree(self.workspace)\n", "        shutil.rmtree(self.workspace.parent)\n")]),
    ("any dist-info", "fire", [(SH, "    dist_info = DistInfo.load(dist_info_path)\n", "    dist_info = DistInfo.load(dist_info_path, non_standard_name_ok=True)\n")]),
    ("load lax", "fire", [("api/distributions/distinfo.py", "        if path.suffix != '.dist-info' and not non_standard_name_ok:", "        if path.suffix == '' and not non_standard_name_ok:")]),
    ("attached unguarded", "fire", [(P, "                if env_path != self.path / \".venv\" and not is_empty_directory(env_path):\n", "                if env_path.is_file():\n")]),
    ("zoo lax", "fire", [(Z, "        if env_path.parent != self.path:", "        if env_path == self.path:")]),
    ("zoo unidentified", "fire", [(Z, "        env_path = self.load_environment(name).path\n", "        env_path = self.path / name\n")]),
    ("rm program", "fire", [(G, "            shutil.rmtree(target_dir, ignore_errors=True)", "            monitored_run('rm', ['rm', '-rf', repository_url])")]),
]
