G = "repositories/git_repository.py"
P = "utils/processes.py"
I = "api/environments/environment_introspection.py"
L = "api/environments/installed_pythons_locator.py"
B = "build/external_builders.py"
T = "pkm-cli/src/pkm_cli/api/tasks/tasks_runner.py"
X = "pkm-cli/src/pkm_cli/api/tasks/tasks_executor.py"
C = "repositories/conda-pkm-repo/src/conda_pkm_repo/conda_distribution.py"
N = "repositories/download-torch-pkm-repo/src/download_torch_pkm_repo/cuda_compatibility.py"
VARIANTS = [
 ("pull unchecked", "fire", [(G, "[self._git_cmd, 'pull'], cwd=str(repo_dir)).check_returncode()", "[self._git_cmd, 'pull'], cwd=str(repo_dir))")]),
 ("checkout unchecked", "fire", [(G, "                    cwd=str(target_dir)).check_returncode()", "                    cwd=str(target_dir))")]),
 ("clone failure swallowed", "fire", [(G, "            shutil.rmtree(target_dir, ignore_errors=True)\n            raise", "            shutil.rmtree(target_dir, ignore_errors=True)")]),
 ("monitored_run says 0", "fire", [(P, "return CompletedProcess(cmd, rcode)", "return CompletedProcess(cmd, 0)")]),
 ("monitored_run says returncode at start", "fire", [(P, "        stdout = proc.stdout\n", "        stdout = proc.stdout\n        rcode = 0\n"), (P, "while (line := stdout.readline()) or (rcode := proc.poll()) is None:", "while (line := stdout.readline()) or proc.poll() is None:")]),
 ("monitored_run waits", "quiet", [(P, "while (line := stdout.readline()) or (rcode := proc.poll()) is None:", "while line := stdout.readline():"), (P, "        ProcessExecutionExitEvent(rcode).notify(mpo)", "        rcode = proc.wait()\n        ProcessExecutionExitEvent(rcode).notify(mpo)")]),
 ("monitored_run returncode attr", "quiet", [(P, "return CompletedProcess(cmd, rcode)", "return CompletedProcess(cmd, proc.returncode)")]),
 ("monitored_run kw", "quiet", [(P, "return CompletedProcess(cmd, rcode)", "return CompletedProcess(args=cmd, returncode=rcode)")]),
 ("execvpe drops", "fire", [(P, "sys.exit(subprocess.run([cmd, *args], env=env).returncode)", "subprocess.run([cmd, *args], env=env)\n        sys.exit()")]),
 ("execvpe check", "quiet", [(P, "sys.exit(subprocess.run([cmd, *args], env=env).returncode)", "sys.exit(subprocess.call([cmd, *args], env=env))")]),
 ("introspect unchecked", "fire", [(I, "            proc_result.check_returncode()\n", "")]),
 ("introspect check kw", "quiet", [(I, "            proc_result.check_returncode()\n", ""), (I, "                                         capture_output=True)\n            output", "                                         capture_output=True, check=True)\n            output")]),
 ("introspect check_output", "quiet", [(I, "            proc_result = subprocess.run(", "            output = subprocess.check_output("), (I, ",\n                                         capture_output=True)\n            proc_result.check_returncode()\n            output = proc_result.stdout.decode()", ").decode()")]),
 ("introspect if", "quiet", [(I, "            proc_result.check_returncode()\n", "            if proc_result.returncode:\n                raise IOError('introspection failed')\n")]),
 ("introspect only negative", "fire", [(I, "            proc_result.check_returncode()\n", "            if proc_result.returncode < 0:\n                raise IOError('introspection failed')\n")]),
 ("introspect fallback", "fire", [(I, "            proc_result.check_returncode()\n            output = proc_result.stdout.decode()", "            output = proc_result.stdout.decode() if proc_result.returncode == 0 else '{}'")]),
 ("locator unchecked", "fire", [(L, "                cmdout.check_returncode()\n", "")]),
 ("locator if", "quiet", [(L, "                cmdout.check_returncode()\n", "                if cmdout.returncode != 0:\n                    continue\n")]),
 ("locator helper", "quiet", [(L, "                cmdout.check_returncode()\n", "                _ensure(cmdout)\n"), (L, "class InstalledPythonsLocator:", "def _ensure(process):\n    process.check_returncode()\n\n\nclass InstalledPythonsLocator:")]),
 ("locator records failing", "fire", [(L, "                cmdout.check_returncode()\n", "                if cmdout.returncode != 0:\n                    executeables_matched.add(interpreter_path)\n")]),
 ("build ignores", "fire", [(B, "        if process_results.returncode != 0:", "        if process_results.returncode != 0 and not (tdir_path / 'output').exists():")]),
 ("build negative only", "fire", [(B, "        if process_results.returncode != 0:", "        if process_results.returncode < 0:")]),
 ("build positive only", "fire", [(B, "        if process_results.returncode != 0:", "        if process_results.returncode > 0:")]),
 ("monitored_run clamps", "fire", [(P, "return CompletedProcess(cmd, rcode)", "return CompletedProcess(cmd, max(rcode, 0))")]),
 ("build truthy", "quiet", [(B, "        if process_results.returncode != 0:", "        if process_results.returncode:")]),
 ("build not eq", "quiet", [(B, "        if process_results.returncode != 0:", "        failed = not (process_results.returncode == 0)\n        if failed:")]),
 ("task describe unchecked", "fire", [(T, "if mode != 'run':", "if mode == 'run-attached':")]),
 ("task attached unchecked", "fire", [(T, "if mode != 'run':", "if mode == 'describe':")]),
 ("task always check", "quiet", [(T, "if mode != 'run':", "if True:")]),
 ("first unchecked", "fire", [(T, "            ], env=env).check_returncode()", "            ], env=env)")]),
 ("executor unchecked", "fire", [(X, "        ], env=env).check_returncode()", "        ], env=env)")]),
 ("executor check kw", "quiet", [(X, "        ], env=env).check_returncode()", "        ], env=env, check=True)")]),
 ("executor check False", "fire", [(X, "        ], env=env).check_returncode()", "        ], env=env, check=False)")]),
 ("conda bash", "fire", [(C, "                            \"/bin/bash\", str(script_path)\n                        ], env=env).check_returncode()", "                            \"/bin/bash\", str(script_path)\n                        ], env=env)")]),
 ("conda via helper", "quiet", [(C, "                        monitored_run(f\"conda installation hook: {script_name}\", [\n                            \"/bin/bash\", str(script_path)\n                        ], env=env).check_returncode()", "                        done = monitored_run(f\"conda installation hook: {script_name}\", [\n                            \"/bin/bash\", str(script_path)\n                        ], env=env)\n                        if done.returncode != 0:\n                            raise InstallationException('hook failed')")]),
 ("nvidia", "fire", [(N, "        proc.check_returncode()\n", "")]),
 ("nvidia none", "quiet", [(N, "        proc.check_returncode()\n", "        if proc.returncode != 0:\n            return None\n")]),
 ("git helper", "quiet", [(G, "            f'fetch {package_name}', [self._git_cmd, 'pull'], cwd=str(repo_dir)).check_returncode()", "            f'fetch {package_name}', [self._git_cmd, 'pull'], cwd=str(repo_dir)).check_returncode()\n\n    def _git(self, name, *args, **kw):\n        return monitored_run(name, [self._git_cmd, *args], **kw)"), (G, "            monitored_run(\n                f'fetch {package_name}', [self._git_cmd, 'clone', repository_url, str(target_dir)]).check_returncode()", "            self._git(f'fetch {package_name}', 'clone', repository_url, str(target_dir)).check_returncode()")]),
 ("git helper unchecked", "fire", [(G, "            f'fetch {package_name}', [self._git_cmd, 'pull'], cwd=str(repo_dir)).check_returncode()", "            f'fetch {package_name}', [self._git_cmd, 'pull'], cwd=str(repo_dir)).check_returncode()\n\n    def _git(self, name, *args, **kw):\n        return monitored_run(name, [self._git_cmd, *args], **kw)"), (G, "            monitored_run(\n                f'fetch {package_name}', [self._git_cmd, 'clone', repository_url, str(target_dir)]).check_returncode()", "            self._git(f'fetch {package_name}', 'clone', repository_url, str(target_dir))")]),
 ("git any", "fire", [(G, "        monitored_run(\n            f'fetch {package_name}', [self._git_cmd, 'pull'], cwd=str(repo_dir)).check_returncode()", "        for args in (['pull'], ['submodule', 'update']):\n            monitored_run(f'fetch {package_name}', [self._git_cmd, *args], cwd=str(repo_dir))")]),
 ("os.system", "fire", [(G, "        monitored_run(\n            f'fetch {package_name}', [self._git_cmd, 'pull'], cwd=str(repo_dir)).check_returncode()", "        os.system('git pull')"), (G, "import shutil", "import os\nimport shutil")]),
 ("status loop all", "quiet", [(G, "        monitored_run(\n            f'fetch {package_name}', [self._git_cmd, 'pull'], cwd=str(repo_dir)).check_returncode()", "        for args in (['pull'], ['submodule', 'update']):\n            monitored_run(f'fetch {package_name}', [self._git_cmd, *args], cwd=str(repo_dir)).check_returncode()")]),
]
