B = "build/pkm_builders.py"
D = "api/distributions/distinfo.py"
P = "api/distributions/pth_link.py"
SIGN = """        records_file = dist_info.load_record_cfg()
        records_file.sign_recursive(bc.build_dir)
        records_file.save()
"""
COPY = "        bc.copy_sources(bc.build_dir, editable)\n"
ZIP = """            for file in bc.build_dir.rglob('*'):
                wheel.write(file, file.relative_to(bc.build_dir))
"""
SDIST = """            for file in data_dir.glob('*'):
                sdist.add(file, file.relative_to(bc.build_dir))
"""
REC = """        for file in files:
            if file.exists():
                if not file.is_dir():
                    path = str(path_to(root, file))

                    hash_sig = get_or_compute(
                        precomputed_hashes, path,
                        lambda: HashSignature.compute_urlsafe_base64_nopad_encoded('sha256', file))

                    records.append(Record(
                        path,
                        hash_sig,
                        file.lstat().st_size  # size
                    ))
            else:
"""
PKGS = """        for package_dir in dirs.src_packages:
            destination = dst / package_dir.name
            if package_dir.exists():
                shutil.copytree(package_dir, destination, ignore=ignore_patterns('__pycache__'))
            else:
                raise FileNotFoundError(f"the package {package_dir}, which is specified in pyproject.toml"
                                        " has no corresponding directory in project")"""
LINKS = "links=list(distinct(p.absolute().parent for p in dirs.src_packages))"
PRJ = "api/projects/project.py"
VARIANTS = [
    ("sign before sources", "fire", [(B, COPY + SIGN, SIGN + COPY)]),
    ("not saved", "fire", [(B, "        records_file.save()\n", "")]),
    ("save after zip", "fire", [(B, "        records_file.save()\n", ""), (B, "    return wheel_path\n\n\n@contextmanager", "        records_file.save()\n    return wheel_path\n\n\n@contextmanager")]),
    ("sign dist info only", "fire", [(B, "sign_recursive(bc.build_dir)", "sign_recursive(dist_info_path)")]),
    ("sign py only", "fire", [(D, 'content_root.rglob("*")', 'content_root.rglob("*.py")')]),
    ("sign top only", "fire", [(D, 'content_root.rglob("*")', 'content_root.glob("*")')]),
    ("sign wrong root", "fire", [(D, 'content_root.rglob("*"), content_root)', 'content_root.rglob("*"), content_root.parent)')]),
    ("licence late", "fire", [(B, "        records_file.save()\n", "        records_file.save()\n        dist_info.license_path().write_text(project.config.project.license_content())\n")]),
    ("sources late", "fire", [(B, COPY, ""), (B, SIGN, SIGN + COPY)]),
    ("marker late", "fire", [(B, "        wheel_path = target_dir / bc.wheel_file_name()\n", "        wheel_path = target_dir / bc.wheel_file_name()\n        (bc.build_dir / 'py.typed').touch()\n")]),
    ("hidden skipped", "fire", [(B, ZIP, """            for file in bc.build_dir.rglob('*'):
                if not file.name.startswith('.'):
                    wheel.write(file, file.relative_to(bc.build_dir))
""")]),
    ("zip two levels", "fire", [(B, "bc.build_dir.rglob('*'):", "bc.build_dir.glob('*/*'):")]),
    ("zip name only", "fire", [(B, "wheel.write(file, file.relative_to(bc.build_dir))", "wheel.write(file, file.name)")]),
    ("zip rooted higher", "fire", [(B, "wheel.write(file, file.relative_to(bc.build_dir))", "wheel.write(file, file.relative_to(bc.build_dir.parent))")]),
    ("empty files not signed", "fire", [(D, "                if not file.is_dir():\n", "                if not file.is_dir() and file.lstat().st_size:\n")]),
    ("init not signed", "fire", [(D, "                if not file.is_dir():\n", "                if not file.is_dir() and file.name != '__init__.py':\n")]),
    ("hash of path", "fire", [(D, "compute_urlsafe_base64_nopad_encoded('sha256', file))\n\n                    records", "compute_urlsafe_base64_nopad_encoded('sha256', root / 'RECORD'))\n\n                    records")]),
    ("record name only", "fire", [(D, "                    path = str(path_to(root, file))\n", "                    path = file.name\n")]),
    ("precomputed by name", "fire", [(D, "                        precomputed_hashes, path,\n", "                        precomputed_hashes, file.name,\n")]),
    ("break on missing", "fire", [(D, '                warnings.warn(f"requiring to sign non existing file - {file}, skipping it")', '                break')]),
    ("missing package skipped", "fire", [(B, """                raise FileNotFoundError(f"the package {package_dir}, which is specified in pyproject.toml"
                                        " has no corresponding directory in project")""", "                continue")]),
    ("tests ignored", "fire", [(B, "ignore_patterns('__pycache__')", "ignore_patterns('__pycache__', 'test*')")]),
    ("first package", "fire", [(B, PKGS, PKGS + "\n            break")]),
    ("private package", "fire", [(B, "            destination = dst / package_dir.name\n", "            if package_dir.name.startswith('_'):\n                continue\n            destination = dst / package_dir.name\n")]),
    ("all to dst", "fire", [(B, "            destination = dst / package_dir.name\n", "            destination = dst / 'src'\n")]),
    ("first link", "fire", [(B, LINKS, "links=[dirs.src_packages[0].absolute().parent]")]),
    ("existing links", "fire", [(B, LINKS, "links=list(distinct(p.absolute().parent for p in dirs.src_packages if p.exists()))")]),
    ("link not written", "fire", [(P, "            for link in self.links:\n", "            for link in self.links:\n                if not link.exists():\n                    continue\n")]),
    ("sdist visible only", "fire", [(B, SDIST, """            for file in data_dir.glob('[!.]*'):
                sdist.add(file, file.relative_to(bc.build_dir))
""")]),
    ("sdist flat", "fire", [(B, "sdist.add(file, file.relative_to(bc.build_dir))", "sdist.add(file, file.relative_to(bc.build_dir), recursive=False)")]),
    ("sdist no pyproject", "fire", [(B, "        bc.pyproject.save(data_dir / 'pyproject.toml')\n", "")]),
    ("sdist sources late", "fire", [(B, """        if bc.pyproject.pkm_project.packages:
            bc.copy_sources(data_dir)
        else:
            bc.copy_sources(data_dir / 'src')

""", ""), (B, SDIST, SDIST + "        bc.copy_sources(data_dir / 'src')\n")]),
    ("sdist sources only if declared", "fire", [(B, """        else:
            bc.copy_sources(data_dir / 'src')

        with tarfile""", """
        with tarfile""")]),
    ("no entry points", "fire", [(B, "        entrypoints.save()\n", "")]),
    # the same behaviour
    ("sorted zip", "quiet", [(B, "for file in bc.build_dir.rglob('*'):", "for file in sorted(bc.build_dir.rglob('*')):")]),
    ("glob stars", "quiet", [(B, "for file in bc.build_dir.rglob('*'):", "for file in bc.build_dir.glob('**/*'):")]),
    ("zip files only", "quiet", [(B, ZIP, """            for file in bc.build_dir.rglob('*'):
                if file.is_dir():
                    continue
                wheel.write(file, str(file.relative_to(bc.build_dir)))
""")]),
    ("zip files comp", "quiet", [(B, ZIP, """            for file in [f for f in bc.build_dir.rglob('*') if f.is_file()]:
                wheel.write(file, file.relative_to(bc.build_dir))
""")]),
    ("zip helper", "quiet", [(B, ZIP, "            _add_all(wheel, bc.build_dir)\n"), (B, "@contextmanager\ndef _build_context", """def _add_all(archive: ZipFile, root: Path):
    for file in root.rglob('*'):
        archive.write(file, file.relative_to(root))


@contextmanager
def _build_context""")]),
    ("sign helper", "quiet", [(B, SIGN, "        bc.sign(dist_info)\n"), (B, "    def copy_sources(self", """    def sign(self, dist_info: DistInfo):
        record = dist_info.load_record_cfg()
        record.sign_recursive(self.build_dir)
        record.save()

    def copy_sources(self""")]),
    ("chained", "quiet", [(B, SIGN, "        dist_info.load_record_cfg().sign_recursive(bc.build_dir).save()\n")]),
    ("sign files directly", "quiet", [(B, "records_file.sign_recursive(bc.build_dir)", "records_file.sign_files(bc.build_dir.rglob('*'), bc.build_dir)")]),
    ("mkdir earlier", "quiet", [(B, "        target_dir.mkdir(parents=True, exist_ok=True)\n        with ZipFile", "        with ZipFile"), (B, "    with _build_context(project) as bc:\n        if only_meta:", "    target_dir.mkdir(parents=True, exist_ok=True)\n    with _build_context(project) as bc:\n        if only_meta:")]),
    ("local root", "quiet", [(B, "        dist_info_path = bc.build_dir / bc.dist_info_dir_name()\n        dist_info = bc.build_dist_info(dist_info_path)\n", "        root = bc.build_dir\n        dist_info = bc.build_dist_info(root / bc.dist_info_dir_name())\n"), (B, "bc.build_dir.rglob('*'):", "root.rglob('*'):")]),
    ("early continue signing", "quiet", [(D, REC + """                warnings.warn(f"requiring to sign non existing file - {file}, skipping it")
""", """        for file in files:
            if not file.exists():
                warnings.warn(f"requiring to sign non existing file - {file}, skipping it")
                continue
            if file.is_dir():
                continue

            path = str(path_to(root, file))
            hash_sig = precomputed_hashes.get(path)
            if hash_sig is None:
                hash_sig = HashSignature.compute_urlsafe_base64_nopad_encoded('sha256', file)
            size = file.lstat().st_size
            records.append(Record(path, hash_sig, size))
""")]),
    ("record helper", "quiet", [(D, """                    records.append(Record(
                        path,
                        hash_sig,
                        file.lstat().st_size  # size
                    ))
""", """                    self._add(path, hash_sig, file)
"""), (D, "    def sign_recursive(self", """    def _add(self, path, hash_sig, file):
        self.records.append(Record(path, hash_sig, file.lstat().st_size))

    def sign_recursive(self""")]),
    ("tree local", "quiet", [(D, '        return self.sign_files(content_root.rglob("*"), content_root)', '        files = sorted(content_root.rglob("*"))\n        return self.sign_files(files, root=content_root)')]),
    ("check first", "quiet", [(B, PKGS, """        for package_dir in dirs.src_packages:
            if not package_dir.exists():
                raise FileNotFoundError(f"the package {package_dir} has no corresponding directory in project")
            shutil.copytree(package_dir, dst / package_dir.name, ignore=ignore_patterns('__pycache__', '*.pyc'))""")]),
    ("copy helper", "quiet", [(B, PKGS, """        for package_dir in dirs.src_packages:
            self._copy_package(package_dir, dst)

    def _copy_package(self, package_dir: Path, dst: Path):
        if not package_dir.exists():
            raise FileNotFoundError(f"the package {package_dir} has no corresponding directory in project")
        shutil.copytree(package_dir, dst / package_dir.name, ignore=ignore_patterns('__pycache__'))""")]),
    ("links list", "quiet", [(B, "            PthLink(\n", "            parents = [p.absolute().parent for p in dirs.src_packages]\n            PthLink(\n"), (B, LINKS, "links=list(distinct(parents))")]),
    ("link saved via var", "quiet", [(B, """            PthLink(
                dst / f"{self._project_and_version_file_prefix()}.pth",
                links=list(distinct(p.absolute().parent for p in dirs.src_packages))
            ).save()
            return
""", """            parents = list(distinct(p.absolute().parent for p in dirs.src_packages))
            link = PthLink(dst / f"{self._project_and_version_file_prefix()}.pth", parents)
            link.save()
            return
""")]),
    ("one write", "quiet", [(P, """            for link in self.links:
                out.write(str(link.absolute()))
                out.write('\\n')
""", """            for link in self.links:
                out.write(f"{link.absolute()}\\n")
""")]),
    ("writelines", "quiet", [(P, """            for link in self.links:
                out.write(str(link.absolute()))
                out.write('\\n')
""", """            out.writelines(f"{link.absolute()}\\n" for link in self.links)
""")]),
    ("sdist iterdir", "quiet", [(B, "data_dir.glob('*'):", "data_dir.iterdir():")]),
    ("sdist whole", "quiet", [(B, SDIST, "            sdist.add(data_dir, data_dir.name)\n")]),
    ("sdist sources ternary", "quiet", [(B, """        if bc.pyproject.pkm_project.packages:
            bc.copy_sources(data_dir)
        else:
            bc.copy_sources(data_dir / 'src')
""", """        declared = bc.pyproject.pkm_project.packages
        bc.copy_sources(data_dir if declared else data_dir / 'src')
""")]),
    ("unused stat", "quiet", [(B, "        records_file.save()\n", "        records_file.save()\n        _ = len(records_file.records)\n")]),
    ("existing declared", "fire", [(PRJ, "packages = [project_path / p for p in packages_relative]", "packages = [project_path / p for p in packages_relative if (project_path / p).exists()]")]),
    ("only packages with init", "fire", [(PRJ, "packages = [p for p in src_dir.iterdir() if p.is_dir()]", "packages = [p for p in src_dir.iterdir() if p.is_dir() and (p / '__init__.py').exists()]")]),
    ("first declared", "fire", [(PRJ, "packages = [project_path / p for p in packages_relative]", "packages = [project_path / packages_relative[0]]")]),
    ("no caches", "quiet", [(PRJ, "packages = [p for p in src_dir.iterdir() if p.is_dir()]", "packages = [p for p in src_dir.iterdir() if p.is_dir() and p.name != '__pycache__']")]),
    ("sorted dirs", "quiet", [(PRJ, "packages = [p for p in src_dir.iterdir() if p.is_dir()]", "packages = sorted(p for p in src_dir.iterdir() if p.is_dir())")]),
    ("append dirs", "quiet", [(PRJ, "packages = [p for p in src_dir.iterdir() if p.is_dir()]", """packages = []
            for child in src_dir.iterdir():
                if child.is_dir():
                    packages.append(child)""")]),
]
