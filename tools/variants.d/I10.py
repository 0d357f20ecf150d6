F = "utils/files.py"
W = "api/distributions/wheel_distribution.py"
X = "launchers/executables.py"
LOOP = """        for file in source.iterdir():
            if not accept(file):
                continue

            if file.is_dir():
                self.copy_tree(file, target / file.name, accept, file_copy)
            else:
                cp(file, target / file.name)
"""
SITE = "site_packages = Path(target.purelib if wheel_file.root_is_purelib else target.platlib)"
TOP = "ct.copy_tree(d, site_packages / d.name, accept=lambda it: it != records_file.path)"
DATA = """if k.name == 'headers':
                                # the include directory of the interpreter may be outside of the environment
                                target_path = Path(target.data, 'include', 'site', package.name)
                            else:
                                target_path = getattr(target, k.name) or Path(target.data, k.name)"""
KCOPY = """                            else:
                                ct.copy_tree(k, Path(target_path))
"""
SCRIPT = """                    if entrypoint.is_script():
                        script = Executables.generate_for_entrypoint(target.env, entrypoint, generated_scripts)
                        ct.copy(script, scripts_path / script.name)
"""
ROOTF = """                else:
                    ct.copy(d, site_packages / d.name)
"""
CPY = "        shutil.copy(source, self.prepare(target))\n"
VARIANTS = [
    ("tree-break", "fire", [(F, LOOP, LOOP + "                break\n")]),
    ("tree-first-dir", "fire", [(F, LOOP, LOOP.replace("accept, file_copy)\n", "accept, file_copy)\n                break\n"))]),
    ("tree-hidden", "fire", [(F, LOOP, LOOP.replace("if not accept(file):", "if not accept(file) or file.name.startswith('.'):"))]),
    ("tree-no-recursion", "fire", [(F, LOOP, LOOP.replace("self.copy_tree(file, target / file.name, accept, file_copy)", "self.mkdir(target / file.name)"))]),
    ("tree-flat", "fire", [(F, LOOP, LOOP.replace("self.copy_tree(file, target / file.name,", "self.copy_tree(file, target,"))]),
    ("tree-no-accept", "fire", [(F, LOOP, LOOP.replace("target / file.name, accept, file_copy)", "target / file.name, file_copy=file_copy)"))]),
    ("tree-no-copier", "fire", [(F, LOOP, LOOP.replace("target / file.name, accept, file_copy)", "target / file.name, accept)"))]),
    ("tree-existing", "fire", [(F, LOOP, LOOP.replace("            else:\n", "            elif not (target / file.name).exists():\n"))]),
    ("tree-glob", "fire", [(F, LOOP, LOOP.replace("source.iterdir()", "source.glob('*.*')"))]),
    ("copy-newer", "fire", [(F, CPY, "        if not target.exists() or target.stat().st_mtime < source.stat().st_mtime:\n            shutil.copy(source, self.prepare(target))\n")]),
    ("copy-only-prepared", "fire", [(F, CPY, "        self.prepare(target)\n        if source.stat().st_size:\n            shutil.copy(source, target)\n")]),
    ("site-pure", "fire", [(W, SITE, "site_packages = Path(target.purelib)")]),
    ("site-swapped", "fire", [(W, SITE, SITE.replace("purelib if", "platlib if").replace("else target.platlib", "else target.purelib"))]),
    ("top-flat", "fire", [(W, TOP, TOP.replace("site_packages / d.name", "site_packages"))]),
    ("top-skip-cache", "fire", [(W, TOP, TOP.replace("it != records_file.path", "it != records_file.path and it.name != '__pycache__'"))]),
    ("top-skip-names", "fire", [(W, TOP, TOP.replace("it != records_file.path", "it.suffix != '.pyc'"))]),
    ("root-files-lost", "fire", [(W, ROOTF, "")]),
    ("root-py-only", "fire", [(W, ROOTF, ROOTF.replace("else:", "elif d.suffix == '.py':"))]),
    ("data-one-dir", "fire", [(W, DATA, "target_path = Path(target.data, k.name)")]),
    ("data-headers-fail", "fire", [(W, DATA, "target_path = getattr(target, k.name) or Path(target.data, k.name)")]),
    ("data-headers-lib", "fire", [(W, DATA, DATA.replace("Path(target.data, 'include', 'site', package.name)", "Path(target.purelib, package.name)"))]),
    ("data-into-site", "fire", [(W, DATA, "target_path = site_packages")]),
    ("data-scripts-only", "fire", [(W, KCOPY, "")]),
    ("data-first", "fire", [(W, KCOPY, KCOPY + "                            break\n")]),
    ("data-missing-skipped", "fire", [(W, DATA, "target_path = getattr(target, k.name, None)\n                            if not target_path:\n                                continue")]),
    ("scripts-console", "fire", [(W, SCRIPT, SCRIPT.replace("entrypoint.is_script()", "entrypoint.group == 'console_scripts'"))]),
    ("scripts-existing", "fire", [(W, SCRIPT, SCRIPT.replace("                        ct.copy(script", "                        if not (scripts_path / script.name).exists():\n                            ct.copy(script"))]),
    ("scripts-misplaced", "fire", [(W, "scripts_path = Path(target.scripts)", "scripts_path = Path(target.data, 'Scripts')")]),
    ("scripts-first", "fire", [(W, SCRIPT, SCRIPT + "                        break\n")]),
    ("shebang-only", "fire", [(X, "            target_fd.write(script_fd.read())\n", "            if first_line.startswith(b'#!'):\n                target_fd.write(script_fd.read())\n")]),
    ("isscript-console", "fire", [("utils/entrypoints.py", "return self.group in (EntryPoint.G_CONSOLE_SCRIPTS, EntryPoint.G_GUI_SCRIPTS)", "return self.group == EntryPoint.G_CONSOLE_SCRIPTS")]),
    ("isscript-no-gui", "fire", [("utils/entrypoints.py", "return self.group in (EntryPoint.G_CONSOLE_SCRIPTS, EntryPoint.G_GUI_SCRIPTS)", "if self.group == EntryPoint.G_GUI_SCRIPTS:\n            return False\n        return self.group in (EntryPoint.G_CONSOLE_SCRIPTS, EntryPoint.G_GUI_SCRIPTS)")]),
    # harmless
    ("isscript-or", "quiet", [("utils/entrypoints.py", "return self.group in (EntryPoint.G_CONSOLE_SCRIPTS, EntryPoint.G_GUI_SCRIPTS)", "return self.group == EntryPoint.G_CONSOLE_SCRIPTS or self.group == EntryPoint.G_GUI_SCRIPTS")]),
    ("isscript-if", "quiet", [("utils/entrypoints.py", "return self.group in (EntryPoint.G_CONSOLE_SCRIPTS, EntryPoint.G_GUI_SCRIPTS)", "if self.group == EntryPoint.G_CONSOLE_SCRIPTS:\n            return True\n        return self.group == EntryPoint.G_GUI_SCRIPTS")]),
    ("tree-nested", "quiet", [(F, LOOP, """        for file in sorted(source.iterdir()):
            if accept(file):
                destination = target / file.name
                if not file.is_dir():
                    cp(file, destination)
                else:
                    self.copy_tree(file, destination, accept=accept, file_copy=file_copy)
""")]),
    ("tree-split", "quiet", [(F, LOOP, """        entries = [file for file in source.iterdir() if accept(file)]
        for file in entries:
            self._copy_entry(file, Path(target, file.name), accept, file_copy, cp)
"""), (F, "    def mkdir(self, target", """    def _copy_entry(self, file, destination, accept, file_copy, cp):
        if file.is_dir():
            self.copy_tree(file, destination, accept, file_copy)
        else:
            cp(file, destination)

    def mkdir(self, target""")]),
    ("copy-var", "quiet", [(F, CPY, "        destination = self.prepare(target)\n        shutil.copy(source, destination)\n")]),
    ("site-if", "quiet", [(W, SITE, """if wheel_file.root_is_purelib:
            site_packages = Path(target.purelib)
        else:
            site_packages = Path(target.platlib)""")]),
    ("data-if", "quiet", [(W, DATA, """target_path = getattr(target, k.name, None)
                            if not target_path:
                                target_path = Path(target.data, k.name)""")]),
    ("data-headers", "quiet", [(W, DATA, """if k.name == 'headers':
                                target_path = Path(target.include, package.name)
                            else:
                                target_path = getattr(target, k.name) or Path(target.data, k.name)""")]),
    ("data-helper", "quiet", [(W, DATA, "target_path = _scheme_dir(target, k.name)"), (W, "def _find_dist_info(", """def _scheme_dir(target, name):
    if name == 'headers':
        return target.include
    return getattr(target, name, None) or Path(target.data) / name


def _find_dist_info(""")]),
    ("scripts-continue", "quiet", [(W, SCRIPT, """                    if not entrypoint.is_script():
                        continue
                    script = Executables.generate_for_entrypoint(target.env, entrypoint, generated_scripts)
                    ct.copy(script, scripts_path / script.name)
""")]),
    ("scripts-listed", "quiet", [(W, SCRIPT.join(["                for entrypoint in entrypoints:\n", ""]), """                for entrypoint in [e for e in entrypoints if e.is_script()]:
                    script = Executables.generate_for_entrypoint(target.env, entrypoint, generated_scripts)
                    ct.copy(script, scripts_path / script.name)
""")]),
    ("method", "quiet", [(W, """                            if k.name == 'scripts':
                                ct.copy_tree(
                                    k, Path(target_path),
                                    file_copy=lambda s, t: Executables.patch_shabang_for_interpreter(
                                        s, t, target.env.interpreter_path))
""" + KCOPY, """                            _copy_scheme(ct, k, Path(target_path), target)
"""), (W, "def _find_dist_info(", """def _copy_scheme(ct, k, path, target):
    def patch(s, t):
        Executables.patch_shabang_for_interpreter(s, t, target.env.interpreter_path)

    ct.copy_tree(k, path, file_copy=patch if k.name == 'scripts' else None)


def _find_dist_info(""")]),
]
