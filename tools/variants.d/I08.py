F = "repositories/shared_pacakges_repo.py"
Z = "api/environments/environments_zoo.py"
VISIT = """        for package_user in package_users:
            sites = [package_user.site_packages]
            for container in package_user.package_containers.containers():
                sites.append(container.installation_target.site_packages)

            for site in sites:
                for used_package in site.installed_packages():
                    if (shared_marker := used_package.dist_info.path / "SHARED").exists():
                        used_packages.add(Path(shared_marker.read_text()).resolve())
"""
DEL = """                    if shared_dir.resolve() not in used_packages:
                        shutil.rmtree(shared_dir)
"""
MARK = """        shared_marker = (distinfo_path / "SHARED")
        shared_marker.write_text(str(shared.path.absolute()))
        ct.touch(shared_marker)
"""
LIST = """            if Environment.is_venv_path(e_path):
                yield Environment(e_path, zoo=self)
"""
VARIANTS = [
    ("helper", "quiet", [(F, VISIT, """        for package_user in package_users:
            used_packages.update(self._links_of(package_user.site_packages))
            for container in package_user.package_containers.containers():
                used_packages.update(self._links_of(container.installation_target.site_packages))
"""), (F, "    def remove_unused_packages(", """    @staticmethod
    def _links_of(site) -> Set[Path]:
        result = set()
        for package in site.installed_packages():
            marker = package.dist_info.path / "SHARED"
            if not marker.exists():
                continue
            result.add(Path(marker.read_text()).resolve())
        return result

    def remove_unused_packages(""")]),
    ("generator", "quiet", [(F, VISIT, """        for package_user in package_users:
            for site in self._sites_of(package_user):
                for used_package in site.installed_packages():
                    shared_marker = used_package.dist_info.path / "SHARED"
                    if shared_marker.exists():
                        used_packages.add(Path(shared_marker.read_text()).resolve())
"""), (F, "    def remove_unused_packages(", """    @staticmethod
    def _sites_of(user):
        yield user.site_packages
        for container in user.package_containers.containers():
            yield container.installation_target.site_packages

    def remove_unused_packages(""")]),
    ("comprehensions", "quiet", [(F, VISIT, """        for package_user in package_users:
            targets = [package_user.installation_target]
            targets.extend(c.installation_target for c in package_user.package_containers.containers())
            markers = [p.dist_info.path / "SHARED" for t in targets for p in t.site_packages.installed_packages()]
            used_packages |= {Path(m.read_text().strip()).resolve() for m in markers if m.exists()}
""")]),
    ("one comprehension", "quiet", [(F, VISIT, """        for package_user in package_users:
            sites = [package_user.site_packages] + [
                c.installation_target.site_packages for c in package_user.package_containers.containers()]
            for site in sites:
                used_packages.update(
                    Path((p.dist_info.path / "SHARED").read_text()).resolve()
                    for p in site.installed_packages() if (p.dist_info.path / "SHARED").exists())
""")]),
    ("list and continue", "quiet", [(F, VISIT, VISIT.replace("package_users:", "list(package_users):")), (F, DEL, """                    if shared_dir.resolve() in used_packages:
                        continue
                    shutil.rmtree(shared_dir)
""")]),
    ("strings of resolved", "quiet", [(F, VISIT, VISIT.replace("Path(shared_marker.read_text()).resolve()", "str(Path(shared_marker.read_text()).resolve())")),
                                      (F, DEL, DEL.replace("shared_dir.resolve()", "str(shared_dir.resolve())"))]),
    ("prune helper", "quiet", [(F, DEL, """                    self._prune(shared_dir, used_packages)
"""), (F, "    def remove_unused_packages(", """    @staticmethod
    def _prune(path, used):
        is_used = path.resolve() in used
        if not is_used:
            shutil.rmtree(path)

    def remove_unused_packages(""")]),
    ("mark constant", "quiet", [(F, MARK, """        (distinfo_path / _MARKER).write_text(str(shared.path.resolve()))
        ct.touch(distinfo_path / _MARKER)
"""), (F, VISIT, VISIT.replace('"SHARED"', "_MARKER")), (F, "class SharedPackagesRepository(", """_MARKER = "SHARED"


class SharedPackagesRepository(""")]),
    ("list comp", "quiet", [(Z, LIST, """            if not Environment.is_venv_path(e_path):
                continue
            yield Environment(e_path, zoo=self)
""")]),
    ("given list", "quiet", [(Z, "repo.remove_unused_packages(self.list())", "repo.remove_unused_packages(list(self.list()))")]),
    ("given comp", "quiet", [(Z, "repo.remove_unused_packages(self.list())", "repo.remove_unused_packages(iter([e for e in self.list()]))")]),
    # ---- violations
    ("no containers", "fire", [(F, VISIT, VISIT.replace("            for container in package_user.package_containers.containers():\n                sites.append(container.installation_target.site_packages)\n", ""))]),
    ("no own site", "fire", [(F, VISIT, VISIT.replace("sites = [package_user.site_packages]", "sites = []"))]),
    ("first package only", "fire", [(F, VISIT, VISIT + "                        break\n")]),
    ("only requested", "fire", [(F, VISIT, VISIT.replace("if (shared_marker :=", "if used_package.user_request and (shared_marker :="))]),
    ("only requested list", "fire", [(F, VISIT, VISIT.replace("site.installed_packages()", "site.find_requested_packages()"))]),
    ("reset per user", "fire", [(F, VISIT, VISIT.replace("            sites = [", "            used_packages = set()\n            sites = ["))]),
    ("delete while visiting", "fire", [(F, VISIT, VISIT.replace("            sites = [", "            self._prune(used_packages)\n            sites = [")), (F, "    def remove_unused_packages(", """    def _prune(self, used):
        for path in self._workspace.iterdir():
            if path.resolve() not in used:
                shutil.rmtree(path)

    def remove_unused_packages(""")]),
    ("inverted", "fire", [(F, DEL, DEL.replace("not in used", "in used"))]),
    ("by name", "fire", [(F, DEL, DEL.replace("shared_dir.resolve() not in", "shared_dir.name not in"))]),
    ("version dir", "fire", [(F, DEL, DEL.replace("shutil.rmtree(shared_dir)", "shutil.rmtree(version_dir)"))]),
    ("empty or", "fire", [(F, DEL, DEL.replace("not in used_packages:", "not in used_packages or not (shared_dir / 'dist-info').exists():"))]),
    ("old version", "fire", [(F, DEL, DEL + """
                if version_dir.name.startswith("0."):
                    shutil.rmtree(version_dir)
""")]),
    ("absolute", "fire", [(F, DEL, DEL.replace("shared_dir.resolve()", "shared_dir.absolute()"))]),
    ("unresolved mark", "fire", [(F, VISIT, VISIT.replace("Path(shared_marker.read_text()).resolve()", "Path(shared_marker.read_text())"))]),
    ("other mark", "fire", [(F, MARK, MARK.replace('"SHARED"', '"SHARED-FROM"'))]),
    ("mark of parent", "fire", [(F, MARK, MARK.replace("str(shared.path.absolute())", "str(shared.path.parent.absolute())"))]),
    ("relative mark", "fire", [(F, MARK, MARK.replace("str(shared.path.absolute())", "str(shared.path)"))]),
    ("mark sometimes", "fire", [(F, MARK, """        shared_marker = (distinfo_path / "SHARED")
        if shared.compatibility_tags.endswith("any"):
            shared_marker.write_text(str(shared.path.absolute()))
            ct.touch(shared_marker)
""")]),
    ("store recorded", "fire", [(F, "            ct.touch(target_script)\n", "            ct.touch(script)\n")]),
    ("active only", "fire", [(Z, LIST, LIST.replace("if Environment.is_venv_path(e_path):", "if Environment.is_venv_path(e_path) and not e_path.name.startswith('.'):"))]),
    ("one env", "fire", [(Z, "repo.remove_unused_packages(self.list())", "repo.remove_unused_packages(e for e in self.list() if e.name != '.zoo')")]),
    ("first", "fire", [(Z, "repo.remove_unused_packages(self.list())", "repo.remove_unused_packages([next(self.list())])")]),
]
