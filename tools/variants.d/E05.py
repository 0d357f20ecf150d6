A = "utils/archives.py"
X = "launchers/executables.py"
L = "launchers/__init__.py"
H = "utils/http/http_client.py"
G = "repositories/git_repository.py"
C = "repositories/conda-pkm-repo/src/conda_pkm_repo/conda_distribution.py"
W = "api/distributions/wheel_distribution.py"
GZ = "        with tarfile.open(archive_path) as tar:\n            tar.extractall(target_directory, filter='data')"
NORM = "Path(posixpath.normpath('/' + url.path).lstrip('/'))"
CONDA = "                    if path.is_absolute() or '..' in path.parts:\n                        raise InstallationException(f\"path: {path} leads out of the package\")\n"
GIT = "        if target_path.is_absolute() or '..' in target_path.parts:\n            raise ValueError(f\"malformed git url: {version.url}\")\n"
VARIANTS = [
 ("gz no filter", "fire", [(A, "with tarfile.open(archive_path) as tar:\n            tar.extractall(target_directory, filter='data')", "with tarfile.open(archive_path) as tar:\n            tar.extractall(target_directory)")]),
 ("bz2 tar filter", "fire", [(A, "with tarfile.open(archive_path, 'r:bz2') as tar:\n            tar.extractall(target_directory, filter='data')", "with tarfile.open(archive_path, 'r:bz2') as tar:\n            tar.extractall(target_directory, filter='tar')")]),
 ("unpack_archive", "fire", [(A, GZ, "        import shutil\n        shutil.unpack_archive(str(archive_path), str(target_directory))")]),
 ("unpack_archive data", "quiet", [(A, GZ, "        import shutil\n        shutil.unpack_archive(str(archive_path), str(target_directory), filter='data')")]),
 ("fully trusted", "fire", [(A, GZ, GZ.replace("'data'", "'fully_trusted'"))]),
 ("data_filter", "quiet", [(A, GZ, GZ.replace("'data'", "tarfile.data_filter"))]),
 ("no with", "quiet", [(A, GZ, "        tar = tarfile.open(archive_path)\n        try:\n            tar.extractall(target_directory, filter='data')\n        finally:\n            tar.close()")]),
 ("helper", "quiet", [(A, GZ, "        _extract_tar(archive_path, 'r:gz', target_directory)"), (A, "def extract_archive(", "def _extract_tar(path, mode, target):\n    with tarfile.open(path, mode) as tar:\n        tar.extractall(target, filter='data')\n\n\ndef extract_archive(")]),
 ("helper unfiltered", "fire", [(A, GZ, "        _extract_tar(archive_path, 'r:gz', target_directory)"), (A, "def extract_archive(", "def _extract_tar(path, mode, target):\n    with tarfile.open(path, mode) as tar:\n        tar.extractall(target)\n\n\ndef extract_archive(")]),
 ("helper given tar", "quiet", [(A, GZ, "        with tarfile.open(archive_path) as tar:\n            _extract_tar(tar, target_directory)"), (A, "def extract_archive(", "def _extract_tar(tar, target):\n    tar.extractall(target, filter='data')\n\n\ndef extract_archive(")]),
 ("members by hand", "fire", [(A, GZ, "        with tarfile.open(archive_path) as tar:\n            for m in tar.getmembers():\n                tar.extract(m, target_directory)")]),
 ("zip by hand", "fire", [(A, "            z.extractall(target_directory)", "            for name in z.namelist():\n                out = target_directory / name\n                out.parent.mkdir(parents=True, exist_ok=True)\n                out.write_bytes(z.read(name))")]),
 ("zip by hand checked", "quiet", [(A, "            z.extractall(target_directory)", "            for name in z.namelist():\n                out = target_directory / name\n                if not out.resolve().is_relative_to(target_directory.resolve()):\n                    raise ValueError(name)\n                out.parent.mkdir(parents=True, exist_ok=True)\n                out.write_bytes(z.read(name))")]),
 ("zip by hand relative_to", "quiet", [(A, "            z.extractall(target_directory)", "            for name in z.namelist():\n                out = (target_directory / name).resolve()\n                out.relative_to(target_directory.resolve())\n                out.parent.mkdir(parents=True, exist_ok=True)\n                out.write_bytes(z.read(name))")]),
 ("zip prefix only", "fire", [(A, "            z.extractall(target_directory)", "            for name in z.namelist():\n                out = target_directory / name\n                if not str(out).startswith(str(target_directory)):\n                    raise ValueError(name)\n                out.parent.mkdir(parents=True, exist_ok=True)\n                out.write_bytes(z.read(name))")]),
 ("zip extract loop", "quiet", [(A, "            z.extractall(target_directory)", "            for name in z.namelist():\n                z.extract(name, target_directory)")]),
 ("no name check", "fire", [(X, "        validate_executable_name(file_name)\n", "")]),
 ("windows no check", "fire", [(L, "    validate_executable_name(file_name)\n    op_plat", "    op_plat")]),
 ("check weak", "fire", [(L, "    if Path(file_name).name != file_name:", "    if not Path(file_name).name:")]),
 ("check slash", "quiet", [(L, "    if Path(file_name).name != file_name:", "    if '/' in file_name or '\\\\' in file_name:")]),
 ("check only absolute", "fire", [(L, "    if Path(file_name).name != file_name:", "    if Path(file_name).is_absolute():")]),
 ("name cut", "quiet", [(X, "        validate_executable_name(file_name)\n", "        file_name = Path(file_name).name\n")]),
 ("name basename", "quiet", [(X, "        validate_executable_name(file_name)\n", "        file_name = os.path.basename(file_name)\n")]),
 ("generate in wheel", "quiet", [(W, "script = Executables.generate_for_entrypoint(target.env, entrypoint, generated_scripts)", "script = Executables.generate(target.env, generated_scripts, entrypoint.name, entrypoint.ref.execution_script_snippet())")]),
 ("script by hand", "fire", [(W, "script = Executables.generate_for_entrypoint(target.env, entrypoint, generated_scripts)", "script = generated_scripts / entrypoint.name\n                        script.write_text(entrypoint.ref.execution_script_snippet())")]),
 ("copied by entry name", "fire", [(W, "ct.copy(script, scripts_path / script.name)", "ct.copy(script, scripts_path / entrypoint.name)"), (X, "        validate_executable_name(file_name)\n", "")]),
 ("url dots", "fire", [(H, NORM, "Path(url.path.lstrip('/'))")]),
 ("url relative norm", "fire", [(H, NORM, "Path(posixpath.normpath(url.path).lstrip('/'))")]),
 ("url only name", "quiet", [(H, "        url_path = " + NORM, "        url_path = Path(Path(url.path).name)")]),
 ("url fstring norm", "quiet", [(H, NORM, "Path(posixpath.normpath(f'/{url.path}').lstrip('/'))")]),
 ("url two steps", "quiet", [(H, "        url_path = " + NORM, "        normal = posixpath.normpath('/' + url.path)\n        url_path = Path(normal[1:])")]),
 ("git unchecked", "fire", [(G, GIT, "")]),
 ("git dots only", "fire", [(G, "target_path.is_absolute() or ", "")]),
 ("git absolute only", "fire", [(G, " or '..' in target_path.parts", "")]),
 ("git split checks", "quiet", [(G, GIT, "        if target_path.is_absolute():\n            raise ValueError(f\"malformed git url: {version.url}\")\n        if '..' in target_path.parts:\n            raise ValueError(f\"malformed git url: {version.url}\")\n")]),
 ("git check resolve", "quiet", [(G, GIT, ""), (G, "        target_dir = self._workspace / target_path\n", "        target_dir = (self._workspace / target_path).resolve()\n        target_dir.relative_to(self._workspace.resolve())\n")]),
 ("git branch later", "fire", [(G, "url.path.lstrip('/'), branch or '')", "url.path.lstrip('/'))"), (G, "        target_dir = self._workspace / target_path\n", "        target_dir = self._workspace / target_path\n        if branch:\n            target_dir /= branch\n")]),
 ("conda unchecked", "fire", [(C, CONDA, "")]),
 ("conda dots only", "fire", [(C, "path.is_absolute() or ", "")]),
 ("conda helper", "quiet", [(C, CONDA, "                    _inside(path)\n"), (C, "class CondaDistribution", "def _inside(path):\n    if path.is_absolute() or '..' in path.parts:\n        raise InstallationException(f\"path: {path} leads out of the package\")\n\n\nclass CondaDistribution")]),
 ("conda any", "quiet", [(C, CONDA, "                    if '..' in path.parts or file.startswith('/'):\n                        raise InstallationException(f\"path: {path} leads out of the package\")\n")]),
 ("conda checks later", "fire", [(C, CONDA, ""), (C, "                    ct.copy(abs_path, target_path)\n", "                    ct.copy(abs_path, target_path)\n"+CONDA)]),
]
