B = "build/external_builders.py"
CHECK = '''    if not put_if_absent(current_build_path, project.descriptor, True):
        def pstr('''
SET = "        setattr(build_env, _CURRENT_BUILD_PATH_ATTR, current_build_path)\n"
VARIANTS = [
 ("mark left on error", "fire", [(B, "    try:\n        yield\n    finally:\n        current_build_path.pop(descriptor, None)", "    yield\n    current_build_path.pop(descriptor, None)")]),
 ("mark left on interrupt", "fire", [(B, "    try:\n        yield\n    finally:\n        current_build_path.pop(descriptor, None)", "    try:\n        yield\n    except Exception:\n        current_build_path.pop(descriptor, None)\n        raise\n    current_build_path.pop(descriptor, None)")]),
 ("not handed down", "fire", [(B, SET, "")]),
 ("handed down late", "fire", [(B, SET, ""), (B, "        # start build life-cycle:\n        # 1. check for wheel", SET + "        # start build life-cycle:\n        # 1. check for wheel")]),
 ("fresh always", "fire", [(B, "    if not target_env or (current_build_path := getattr(target_env, _CURRENT_BUILD_PATH_ATTR, None)) is None:\n        current_build_path = dict()", "    current_build_path = dict()")]),
 ("copy", "fire", [(B, SET, SET.replace("current_build_path)", "dict(current_build_path))"))]),
 ("inherited when empty dropped", "quiet", [(B, "    if not target_env or (current_build_path :=", "    if target_env is None or (current_build_path :=")]),
 ("empty inherited replaced", "fire", [(B, "    if not target_env or (current_build_path := getattr(target_env, _CURRENT_BUILD_PATH_ATTR, None)) is None:\n        current_build_path = dict()", "    current_build_path = dict()\n    if target_env and len(getattr(target_env, _CURRENT_BUILD_PATH_ATTR, None) or ()) > 1:\n        current_build_path = getattr(target_env, _CURRENT_BUILD_PATH_ATTR, None)")]),
 ("only metadata marks", "fire", [(B, CHECK, CHECK.replace("    if not put", "    if not only_meta and not put"))]),
 ("no raise", "fire", [(B, "        raise BuildError(\n            f\"build cycle detected", "        print(\n            f\"build cycle detected")]),
 ("overwrite", "fire", [(B, CHECK, "    seen = project.descriptor in current_build_path\n    current_build_path[project.descriptor] = True\n    if seen and not only_meta:\n        def pstr(")]),
 ("other attr", "fire", [(B, SET, SET.replace("_CURRENT_BUILD_PATH_ATTR", "'_build_path'"))]),
 ("removed before cycle error", "fire", [(B, "        raise BuildError(\n            f\"build cycle detected", "        current_build_path.pop(project.descriptor)\n        raise BuildError(\n            f\"build cycle detected")]),
 ("inline check", "quiet", [(B, CHECK, "    if project.descriptor in current_build_path:\n        def pstr("), (B, "    dist = 'editable_wheel' if editable", "    current_build_path[project.descriptor] = True\n    dist = 'editable_wheel' if editable")]),
 ("helper env", "quiet", [(B, "        build_env = EnvironmentBuilder.create(tdir / 'venv', interpreter_path)\n" + SET, "        build_env = _mk(tdir, interpreter_path, current_build_path)\n"), (B, "@contextmanager\ndef _unmark", "def _mk(tdir, interpreter_path, path):\n    from pkm.api.environments.environment_builder import EnvironmentBuilder\n    env = EnvironmentBuilder.create(tdir / 'venv', interpreter_path)\n    setattr(env, _CURRENT_BUILD_PATH_ATTR, path)\n    return env\n\n\n@contextmanager\ndef _unmark")]),
]
