F = "api/packages/site_packages.py"
D = "api/distributions/distinfo.py"
U = "utils/files.py"
LOOP = '''            if parent == installation_site or not is_relative_to(parent, installation_site):
                continue

            if (precompiled := parent / "__pycache__").exists():
                shutil.rmtree(precompiled, ignore_errors=True)

            if is_empty_directory(parent):
                parent.rmdir()
                parents_to_check.add(parent.parent)
'''
VARIANTS = [
    ("text", "fire", [(U, "    path, root = path.absolute(), root.absolute()\n    return path == root or root in path.parents\n", "    return str(path.absolute()).startswith(str(root.absolute()))\n")]),
    ("text2", "fire", [(U, "    path, root = path.absolute(), root.absolute()\n    return path == root or root in path.parents\n", "    path_str, root_str = str(path.absolute()), str(root.absolute())\n    return path_str[:len(root_str)] == root_str\n")]),
    ("native", "quiet", [(U, "    path, root = path.absolute(), root.absolute()\n    return path == root or root in path.parents\n", "    try:\n        path.absolute().relative_to(root.absolute())\n        return True\n    except ValueError:\n        return False\n")]),
    ("resolve", "fire", [(D, "            file = Path(root, record.file)\n            yield file.parent.resolve() / file.name  # the recorded file itself, also when it is a symlink\n", "            yield Path(root, record.file).resolve()\n")]),
    ("abspath", "quiet", [(D, "            file = Path(root, record.file)\n            yield file.parent.resolve() / file.name  # the recorded file itself, also when it is a symlink\n", "            yield Path(root, record.file).absolute()\n")]),
    ("join", "quiet", [(D, "            file = Path(root, record.file)\n            yield file.parent.resolve() / file.name  # the recorded file itself, also when it is a symlink\n", "            file = root / record.file\n            yield file\n")]),
    ("only_site", "fire", [(F, "if parent == installation_site or not is_relative_to(parent, installation_site):", "if parent == installation_site:")]),
    ("no_strict", "fire", [(F, "if parent == installation_site or not is_relative_to(parent, installation_site):", "if not is_relative_to(parent, installation_site):")]),
    ("cache_first", "fire", [(F, LOOP, '''            if (precompiled := parent / "__pycache__").exists():
                shutil.rmtree(precompiled, ignore_errors=True)

            if parent == installation_site or not is_relative_to(parent, installation_site):
                continue

            if is_empty_directory(parent):
                parent.rmdir()
                parents_to_check.add(parent.parent)
''')]),
    ("rmtree_pkg", "fire", [(F, "            if is_empty_directory(parent):\n                parent.rmdir()\n", "            if not any(f.suffix == '.py' for f in parent.iterdir()):\n                shutil.rmtree(parent)\n")]),
    ("env_root", "fire", [(F, "        installation_site = self.dist_info.path.parent\n", "        installation_site = self.dist_info.path.parent.parent\n")]),
    ("top_level", "fire", [(F, "        if self._dist_info.path.exists():\n", "        shutil.rmtree(self._dist_info.path.parent / self.name, ignore_errors=True)\n        if self._dist_info.path.exists():\n")]),
    ("stem", "fire", [(F, "            installed_file.unlink(missing_ok=True)\n", "            installed_file.unlink(missing_ok=True)\n            installed_file.with_suffix('.pyc').unlink(missing_ok=True)\n")]),
    ("glob", "fire", [(F, "            installed_file.unlink(missing_ok=True)\n", "            for f in installed_file.parent.glob(installed_file.stem + '*'):\n                f.unlink(missing_ok=True)\n")]),
    ("other_record", "fire", [(F, "for installed_file in self._dist_info.installed_files():", "for installed_file in [f for p in self.site.installed_packages() for f in p.dist_info.installed_files()]:")]),
    ("parents", "quiet", [(F, "if parent == installation_site or not is_relative_to(parent, installation_site):", "if installation_site not in parent.parents:")]),
    ("positive", "quiet", [(F, LOOP, '''            if parent != installation_site and is_relative_to(parent, installation_site):
                precompiled = parent / "__pycache__"
                if precompiled.exists():
                    shutil.rmtree(precompiled, ignore_errors=True)

                if is_empty_directory(parent):
                    parent.rmdir()
                    parents_to_check.add(parent.parent)
''')]),
    ("helper", "quiet", [(F, "        installation_site = self.dist_info.path.parent\n        while parents_to_check:\n", "        self._prune(parents_to_check)\n        parents_to_check = set()\n        installation_site = self.dist_info.path.parent\n        while parents_to_check:\n"),
        (F, "    def uninstall(self):\n", '''    def _prune(self, candidates):
        site = self.dist_info.path.parent
        for directory in sorted(candidates, key=lambda it: len(it.parts), reverse=True):
            while is_relative_to(directory, site) and directory != site:
                if not is_empty_directory(directory):
                    break
                directory.rmdir()
                directory = directory.parent

    def uninstall(self):
''')]),
    ("os_remove", "quiet", [(F, "            installed_file.unlink(missing_ok=True)\n", "            if installed_file.exists():\n                import os\n                os.remove(str(installed_file))\n")]),
    ("collect_first", "quiet", [(F, "        for installed_file in self._dist_info.installed_files():\n            installed_file.unlink(missing_ok=True)\n            parents_to_check.add(installed_file.parent)\n",
        "        files = list(self._dist_info.installed_files())\n        for installed_file in files:\n            installed_file.unlink(missing_ok=True)\n        parents_to_check = {f.parent for f in files}\n")]),
]
