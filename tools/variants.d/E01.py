ENV = "api/environments/environment.py"
ZOO = "api/environments/environments_zoo.py"
TR = "pkm-cli/src/pkm_cli/api/tasks/tasks_runner.py"
ACT = '''        env["PATH"] = new_path
        env["VIRTUAL_ENV"] = new_venv

        try:
            yield
        finally:
            if old_path is not None:
                env["PATH"] = old_path
            else:
                env.pop("PATH", None)

            if old_venv is not None:
                env["VIRTUAL_ENV"] = old_venv
            else:
                env.pop("VIRTUAL_ENV", None)
'''
VARIANTS = [
    ("no finally", "fire", [(ENV, ACT, ACT.replace("        try:\n            yield\n        finally:\n", "        yield\n        if True:\n"))]),
    ("except instead of finally", "fire", [(ENV, ACT, ACT.replace("        finally:\n", "        except Exception:\n"))]),
    ("empty restored as absent", "fire", [(ZOO, "if prev_path is not None:", "if prev_path:")]),
    ("del raises", "fire", [(ENV, 'env.pop("PATH", None)', 'del env["PATH"]')]),
    ("venv left empty", "fire", [(ENV, 'env.pop("VIRTUAL_ENV", None)', 'env["VIRTUAL_ENV"] = ""')]),
    ("restores new value", "fire", [(ENV, 'env["PATH"] = old_path', 'env["PATH"] = new_path')]),
    ("swapped", "fire", [(ENV, 'env["VIRTUAL_ENV"] = old_venv', 'env["VIRTUAL_ENV"] = old_path')]),
    ("venv not restored", "fire", [(ENV, '''            if old_venv is not None:
                env["VIRTUAL_ENV"] = old_venv
            else:
                env.pop("VIRTUAL_ENV", None)
''', "")]),
    ("third variable", "fire", [(ENV, '        env["VIRTUAL_ENV"] = new_venv\n', '        env["VIRTUAL_ENV"] = new_venv\n        env.pop("PYTHONHOME", None)\n')]),
    ("raise between change and try", "fire", [(ENV, '        env["VIRTUAL_ENV"] = new_venv\n', '        env["VIRTUAL_ENV"] = str(self.path.resolve())\n')]),
    ("default changed", "fire", [(TR, 'os.environ.get("PYTHONPATH"):\n                    pythonpath = pythonpath', 'os.environ.get("PYTHONPATH", ""):\n                    pythonpath = pythonpath')]),
    ("activate leaks when nested restore saved late", "fire", [(ENV, "        old_venv = env.get('VIRTUAL_ENV')\n", ""),
        (ENV, '        env["VIRTUAL_ENV"] = new_venv\n', '        env["VIRTUAL_ENV"] = new_venv\n        old_venv = env.get("VIRTUAL_ENV")\n')]),
    ("new chdir", "fire", [(TR, "        with temp_dir() as tdir:\n", "        with temp_dir() as tdir:\n            os.chdir(tdir)\n")]),
    ("new sys.path", "fire", [(TR, "        with temp_dir() as tdir:\n", "        import sys\n        sys.path.insert(0, 'x')\n        with temp_dir() as tdir:\n")]),
    ("helper", "quiet", [(ENV, ACT, '''        env["PATH"] = new_path
        env["VIRTUAL_ENV"] = new_venv

        try:
            yield
        finally:
            _put_back(env, "PATH", old_path)
            _put_back(env, "VIRTUAL_ENV", old_venv)
'''), (ENV, "class Environment(", '''def _put_back(mapping, key, value):
    if value is None:
        mapping.pop(key, None)
        return
    mapping[key] = value


class Environment(''')]),
    ("loop over saved", "quiet", [(ENV, ACT, '''        saved = {k: env.get(k) for k in ("PATH", "VIRTUAL_ENV")}
        env["PATH"] = new_path
        env["VIRTUAL_ENV"] = new_venv

        try:
            yield
        finally:
            for k, v in saved.items():
                if v is None:
                    env.pop(k, None)
                else:
                    env[k] = v
''')]),
    ("loop over literal", "quiet", [(ENV, ACT, '''        env["PATH"] = new_path
        env["VIRTUAL_ENV"] = new_venv

        try:
            yield
        finally:
            for k, v in (("PATH", old_path), ("VIRTUAL_ENV", old_venv)):
                if v is None:
                    env.pop(k, None)
                else:
                    env[k] = v
''')]),
    ("nested try", "quiet", [(ENV, ACT, ACT.replace('''        env["PATH"] = new_path
        env["VIRTUAL_ENV"] = new_venv

        try:
''', '''        try:
            env["VIRTUAL_ENV"] = new_venv
            env["PATH"] = new_path
'''))]),
    ("update", "quiet", [(ENV, '''        env["PATH"] = new_path
        env["VIRTUAL_ENV"] = new_venv
''', '''        env.update({"PATH": new_path, "VIRTUAL_ENV": new_venv})
''')]),
    ("in test", "quiet", [(ZOO, '''        prev_path = env.get("PATH")
''', '''        had_path = "PATH" in env
        prev_path = env["PATH"] if had_path else ""
'''), (ZOO, "if prev_path is not None:", "if had_path:")]),
    ("chdir restored", "quiet", [(TR, "        with temp_dir() as tdir:\n", "        with temp_dir() as tdir:\n            before = os.getcwd()\n            try:\n                os.chdir(tdir)\n            finally:\n                os.chdir(before)\n")]),
    ("decorated helper in the runner", "quiet", [(TR, '''                os.environ["PYTHONPATH"] = pythonpath
                try:''', '''                os.environ.update(PYTHONPATH=pythonpath)
                try:''')]),
]
