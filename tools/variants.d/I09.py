S = "api/packages/site_packages.py"
D = "api/distributions/distinfo.py"
T = "api/packages/package_installation.py"
C = "api/environments/package_containers.py"
LOOP = """        parents_to_check = set()
        for installed_file in self._dist_info.installed_files():
            installed_file.unlink(missing_ok=True)
            parents_to_check.add(installed_file.parent)
"""
FILES = """        root = self.path.parent
        for record in self.load_record_cfg().records:
            file = Path(root, record.file)
            yield file.parent.resolve() / file.name  # the recorded file itself, also when it is a symlink

        yield self.record_path()
"""
TREE = """        if self._dist_info.path.exists():
            shutil.rmtree(self._dist_info.path)
"""
REL = """        if self.site:
            self.site.reload()
"""
VARIANTS = [
    ("no unlink", "fire", [(S, LOOP, LOOP.replace("            installed_file.unlink(missing_ok=True)\n", ""))]),
    ("stops at missing", "fire", [(S, LOOP, LOOP.replace("missing_ok=True", ""))]),
    ("break", "fire", [(S, LOOP, LOOP + "            if installed_file.name == 'RECORD':\n                break\n")]),
    ("break outside", "fire", [(S, LOOP, LOOP.replace("            installed_file.unlink", "            if '..' in installed_file.parts:\n                break\n            installed_file.unlink"))]),
    ("skips links", "fire", [(S, LOOP, LOOP.replace("            installed_file.unlink", "            if installed_file.is_symlink():\n                continue\n            installed_file.unlink"))]),
    ("skips dangling", "fire", [(S, LOOP, LOOP.replace("            installed_file.unlink", "            if not installed_file.exists():\n                continue\n            installed_file.unlink"))]),
    ("only files", "fire", [(S, LOOP, LOOP.replace("            installed_file.unlink(missing_ok=True)\n", "            if installed_file.is_file():\n                installed_file.unlink(missing_ok=True)\n"))]),
    ("comprehension filter", "fire", [(S, LOOP, LOOP.replace("in self._dist_info.installed_files():", "in [f for f in self._dist_info.installed_files() if f.suffix != '.pyc']:"))]),
    ("scripts skipped", "fire", [(D, FILES, FILES.replace("            file = Path", "            if record.file.startswith('..'):\n                continue\n            file = Path"))]),
    ("unsigned skipped", "fire", [(D, FILES, FILES.replace("records:\n", "records:\n            if not record.hash_signature:\n                continue\n"))]),
    ("other path", "fire", [(S, LOOP, LOOP.replace("installed_file.unlink(missing_ok=True)", "installed_file.with_suffix('.pyc').unlink(missing_ok=True)"))]),
    ("metadata kept", "fire", [(S, TREE, "")]),
    ("metadata if empty", "fire", [(S, TREE, "        if is_empty_directory(self._dist_info.path):\n            shutil.rmtree(self._dist_info.path)\n")]),
    ("metadata first", "fire", [(S, TREE, ""), (S, LOOP, TREE + LOOP)]),
    ("no reload", "fire", [(S, REL, "")]),
    ("reload first", "fire", [(S, REL, ""), (S, LOOP, REL + LOOP)]),
    ("reload only with files", "fire", [(S, REL, REL.replace("if self.site:", "if self.site and parents_to_check:"))]),
    ("early return", "fire", [(S, "        installation_site = self.dist_info.path.parent\n", "        if not self._dist_info.load_record_cfg().records:\n            return\n        installation_site = self.dist_info.path.parent\n")]),
    ("container only forgets", "fire", [(C, "        self.package.uninstall()\n", "        self._target.reload()\n")]),
    ("force keeps", "fire", [(T, "            installed.uninstall()\n            return True\n", "            if not installed.dist_info.is_user_requested():\n                installed.uninstall()\n            return True\n")]),

    ("list of files", "quiet", [(S, LOOP, """        files = list(self._dist_info.installed_files())
        parents_to_check = {f.parent for f in files}
        for f in files:
            f.unlink(missing_ok=True)
""")]),
    ("try", "quiet", [(S, LOOP, LOOP.replace("            installed_file.unlink(missing_ok=True)\n", """            try:
                installed_file.unlink()
            except FileNotFoundError:
                pass
"""))]),
    ("suppress", "quiet", [(S, LOOP, LOOP.replace("            installed_file.unlink(missing_ok=True)\n", """            with contextlib.suppress(FileNotFoundError):
                os.unlink(installed_file)
""")), (S, "import shutil\n", "import contextlib\nimport os\nimport shutil\n")]),
    ("helper", "quiet", [(S, LOOP, "        parents_to_check = self._delete_files()\n"), (S, "    def uninstall(self):", """    def _delete_files(self):
        parents = set()
        for installed_file in self._dist_info.installed_files():
            installed_file.unlink(missing_ok=True)
            parents.add(installed_file.parent)
        return parents

    def uninstall(self):""")]),
    ("plain join", "quiet", [(D, FILES, """        for record in self.load_record_cfg().records:
            yield self.path.parent / record.file

        yield self.record_path()
""")]),
    ("list result", "quiet", [(D, FILES, """        root = self.path.parent
        result = []
        for record in self.load_record_cfg().records:
            file = Path(root, record.file)
            result.append(file.parent.resolve() / file.name)
        result.append(self.record_path())
        return result
""")]),
    ("comp result", "quiet", [(D, FILES, """        files = [Path(self.path.parent, record.file) for record in self.load_record_cfg().records]
        return [f.parent.resolve() / f.name for f in files] + [self.record_path()]
""")]),
    ("always tree", "quiet", [(S, TREE, "        shutil.rmtree(self._dist_info.path, ignore_errors=True)\n")]),
    ("tree local", "quiet", [(S, TREE, """        metadata = self._dist_info.path
        if not metadata.exists():
            pass
        else:
            shutil.rmtree(metadata)
""")]),
    ("reload local", "quiet", [(S, REL, """        site = self.site
        if site is None:
            return
        site.reload()
""")]),
    ("force early", "quiet", [(T, "        if installed := self.site_packages.installed_package(package):\n            installed.uninstall()\n            return True\n        return False\n", """        installed = self.site_packages.installed_package(package)
        if installed is None:
            return False
        installed.uninstall()
        return True
""")]),
]
