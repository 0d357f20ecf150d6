M = "api/dependencies/env_markers.py"
T = "config/toml.py"
P = "utils/processes.py"
W = "utils/multiproc/__init__.py"
G = "repositories/git_repository.py"
H = "utils/http/http_client.py"
EV = 'eval(f"{repr(str(a))} {string_op} {repr(str(b))}")'
VARIANTS = [
 ("toml-eval", "fire", [(T, "        return literal_eval(nstr)", "        return eval(nstr)")]),
 ("cmd-eval", "fire", [(P, "        return literal_eval(s)", "        return eval(s)")]),
 ("marker-quotes", "fire", [(M, EV, """eval(f"'{a}' {string_op} '{b}'")""")]),
 ("marker-one-side", "fire", [(M, EV, """eval(f"{repr(str(a))} {string_op} {b}")""")]),
 ("marker-env-eval", "fire", [(M, EV, 'eval(f"a {string_op} " + str(b), {"a": str(a)})')]),
 ("alias", "fire", [(P, "        return literal_eval(s)", "        parse = eval\n        return parse(s)")]),
 ("map-eval", "fire", [(P, "        return literal_eval(s)", "        return next(map(eval, [s]))")]),
 ("compile", "fire", [(P, "        return literal_eval(s)", "        import builtins\n        return builtins.eval(s)")]),
 ("shell", "fire", [(G, "[self._git_cmd, 'pull'], cwd=str(repo_dir))", "f'{self._git_cmd} -C {repo_dir} pull', shell=True)")]),
 ("os-system", "fire", [(G, "        monitored_run(\n            f'fetch {package_name}', [self._git_cmd, 'pull'], cwd=str(repo_dir)).check_returncode()", "        import os\n        os.system('git -C ' + str(repo_dir) + ' pull')")]),
 ("bash-c", "fire", [(G, "[self._git_cmd, 'pull']", "['/bin/bash', '-c', f'git pull {package_name}']")]),
 ("pickle-file", "fire", [(H, "        with self.data.open('r') as inp:\n            return json.load(inp)", "        import pickle\n        with self.data.open('rb') as inp:\n            return pickle.load(inp)")]),
 ("pickle-bytes", "fire", [(H, "        with self.data.open('r') as inp:\n            return json.load(inp)", "        from pickle import loads\n        return loads(self.data.read_bytes())")]),
 ("worker-file", "fire", [(W, "cmd: _Command = pickle.load(self._stdin)", "cmd: _Command = pickle.load(open(os.environ['CMD'], 'rb'))")]),
 ("helper-evals", "fire", [(P, "        return literal_eval(s)", "        return _value(s)"), (P, "class _CommandParser", "def _value(text):\n    return eval(text)\n\n\nclass _CommandParser")]),
 ("q-operators", "quiet", [(M, "            return " + EV, "            contained = str(a) in str(b)\n            return contained if string_op == 'in' else not contained")]),
 ("q-helper", "quiet", [(M, EV, "_compare(a, string_op, b)"), (M, "class EnvironmentMarker", "def _compare(left, op, right):\n    return eval(f\"{str(left)!r} {op} {str(right)!r}\")\n\n\nclass EnvironmentMarker")]),
 ("q-concat", "quiet", [(M, EV, "eval(repr(str(a)) + ' ' + string_op + ' ' + repr(str(b)))")]),
 ("q-locals", "quiet", [(M, EV, "eval(expression)"), (M, "            return eval(expression)", "            left, right = repr(str(a)), repr(str(b))\n            expression = f\"{left} {string_op} {right}\"\n            return eval(expression)")]),
 ("q-branches", "quiet", [(M, '''        string_op: str = self.match("in") or (self.match("not", "in") and "not in")
''', '''        if self.match("in"):
            string_op = "in"
        elif self.match("not", "in"):
            string_op = "not in"
        else:
            string_op = None
''')]),
 ("q-pickle-helper", "quiet", [(W, "cmd: _Command = pickle.load(self._stdin)", "cmd: _Command = _read(self._stdin)"), (W, "class _Worker:", "def _read(stream):\n    return pickle.load(stream)\n\n\nclass _Worker:")]),
 ("q-proc-local", "quiet", [(W, "proc_result: _CommandResult = pickle.load(self._proc.stderr)", "answers = self._proc.stderr\n                        proc_result: _CommandResult = pickle.load(answers)")]),
 ("q-shell-false", "quiet", [(G, "[self._git_cmd, 'pull'], cwd=str(repo_dir))", "[self._git_cmd, 'pull'], shell=False, cwd=str(repo_dir))")]),
 ("q-literal", "quiet", [(T, "        return literal_eval(nstr)", "        return float(nstr) if '.' in nstr else int(nstr)")]),
]
