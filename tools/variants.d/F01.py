F = "config/configclass.py"
P = "api/projects/pyproject_configuration.py"
M = "                    _merge_missing(target_config, value)\n                    continue\n"
VARIANTS = [
    ("setdefault at top", "fire", [(F, M, "                    for k, v in value.items():\n                        target_config.setdefault(k, v)\n                    continue\n")]),
    ("update", "fire", [(F, M, "                    target_config.update(value)\n                    continue\n")]),
    ("merge overwrites", "fire", [(F, "        if key not in config_:\n            config_[key] = value\n        elif isinstance(value, Mapping) and isinstance(config_[key], Mapping):\n            _merge_missing(config_[key], value)", "        if isinstance(value, Mapping) and isinstance(config_.get(key), Mapping):\n            _merge_missing(config_[key], value)\n        else:\n            config_[key] = value")]),
    ("merge drops", "fire", [(F, "        if key not in config_:\n            config_[key] = value\n        elif isinstance(value, Mapping) and isinstance(config_[key], Mapping):\n            _merge_missing(config_[key], value)", "        if key not in config_:\n            config_[key] = value")]),
    ("no leftovers", "fire", [(F, M, "                    continue\n")]),
    ("falsy skipped", "fire", [(F, "            if value is not None:\n                if schema.leftover:", "            if value:\n                if schema.leftover:")]),
    ("defaults skipped", "fire", [(F, "            if value is not None:\n                if schema.leftover:", "            if value is not None and value != schema.default:\n                if schema.leftover:")]),
    ("early continue", "quiet", [(F, "            if value is not None:\n                if schema.leftover:\n" + M, "            if value is None:\n                continue\n            if True:\n                if schema.leftover:\n" + M)]),
    ("other merge", "quiet", [(F, "        if key not in config_:\n            config_[key] = value\n        elif isinstance(value, Mapping) and isinstance(config_[key], Mapping):\n            _merge_missing(config_[key], value)",
                              "        if key in config_:\n            if isinstance(value, Mapping) and isinstance(config_[key], Mapping):\n                _merge_missing(config_[key], value)\n            continue\n        config_[key] = value")]),
    ("not read", "fire", [(F, "            if schema.leftover:\n                value = config_\n", "            if schema.leftover:\n                value = {}\n")]),
    ("read copy", "quiet", [(F, "            if schema.leftover:\n                value = config_\n", "            if schema.leftover:\n                value = dict(config_)\n")]),
    ("optional type", "fire", [(P, "    description: str = None\n", "    description: Optional[str] = None\n")]),
    ("set type", "fire", [(P, "    keywords: List[str] = None\n", "    keywords: Set[str] = None\n")]),
    ("leftovers removed", "fire", [(P, "    leftovers = config_field(leftover=True)\n\n    # all_fields", "    # all_fields")]),
    ("file leftovers removed", "fire", [(P, "    _leftovers = config_field(leftover=True)\n", "")]),
    ("renamed leftovers", "quiet", [(P, "    _leftovers = config_field(leftover=True)\n", "    _unknown = config_field(leftover=True)\n")]),
    ("post init", "fire", [(P, "    def package_descriptor(self)", "    def __post_init__(self):\n        self.name = PackageDescriptor.normalize_name(self.name)\n\n    def package_descriptor(self)")]),
    ("new section", "fire", [(P, "@dataclass(eq=True)\n@config\nclass PkmProjectConfig:", "@dataclass(eq=True)\n@config\nclass PkmScripts:\n    pre: str = None\n\n\n@dataclass(eq=True)\n@config\nclass PkmProjectConfig:\n    scripts: PkmScripts = None")]),
]
