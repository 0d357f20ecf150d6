C = "api/projects/pyproject_configuration.py"
M = "api/packages/package_metadata.py"
D = "api/distributions/distinfo.py"
B = "build/pkm_builders.py"
EPS = """        if self._gui_scripts:
            result[EntryPoint.G_GUI_SCRIPTS] \\
                .extend(_entrypoints_from_config(EntryPoint.G_GUI_SCRIPTS, self._gui_scripts))
"""
UPD = "            result.update({g: _entrypoints_from_config(g, eps) for g, eps in self._entry_points.items()})\n"
ALL = "        return [e for points in self.entry_points.values() for e in points]\n"
DEPS = """        for od_group, deps in optional_deps.items():
            extra_rx = re.compile(f'extra\\\\s*==\\\\s*(\\'{od_group}\\'|"{od_group}")')
            for dep in deps:
                if not dep.env_marker or not extra_rx.match(str(dep.env_marker)):
                    new_marker = f"({str(dep.env_marker).rstrip(';')}) and " if dep.env_marker else ''
                    new_marker = f"{new_marker}extra==\\'{od_group}\\'"
                    all_deps.append(replace(dep, env_marker=EnvironmentMarker.parse_pep508(new_marker)))
                else:
                    all_deps.append(dep)
        return all_deps
"""
NM1 = "                    new_marker = f\"({str(dep.env_marker).rstrip(';')}) and \" if dep.env_marker else ''\n"
NM2 = "                    new_marker = f\"{new_marker}extra==\\'{od_group}\\'\"\n"
FIRST = "        all_deps = [d for d in (self.dependencies or [])]\n"
ME = "        maintainer_emails = [m.email for m in (prjc.maintainers or []) if m.email]\n"
AN = "        author_names = [a.formatted_name() for a in (prjc.authors or []) if a.name]\n"
RD = "            'Requires-Dist': [str(d) for d in all_deps], 'Requires-Python': str(prjc.requires_python),\n"
PE = """            'Provides-Extra': extras, 'Project-URL': [f"{label}, {url}" for label, url in (prjc.urls or {}).items()],\n"""
W = """            if isinstance(value, List):
                for item in value:
                    msg[key] = item
"""
MSG = "        msg = EmailMessage(EmailPolicy(utf8=True, max_line_length=None))\n"
SET = """        by_group: Dict[str, List[EntryPoint]] = groupby(entrypoints, key=lambda e: e.group)
        new_data = {group: {e.name: e.ref for e in entries} for group, entries in by_group.items()}
        self._data.update(new_data)
"""
META = "        PackageMetadata.from_project_config(project_config).save(di.metadata_path())\n"
ENT = """        entrypoints = di.load_entrypoints_cfg()
        entrypoints.entrypoints = self.pyproject.project.all_entrypoints()
        entrypoints.save()
"""

VARIANTS = [
    ("maintainers are authors", "fire", [(M, ME, ME.replace("prjc.maintainers", "prjc.authors"))]),
    ("emails are names", "fire", [(M, ME, "        maintainer_emails = [m.name for m in (prjc.maintainers or []) if m.name]\n")]),
    ("authors with email only", "fire", [(M, AN, AN.replace("if a.name]", "if a.name and not a.email]"))]),
    ("first author only", "fire", [(M, AN, AN.replace("(prjc.authors or [])", "(prjc.authors or [])[:1]"))]),
    ("summary is readme", "fire", [(M, "            'Summary': prjc.description, 'Description'", "            'Summary': prjc.readme_content(), 'Description'")]),
    ("no python", "fire", [(M, RD, "            'Requires-Dist': [str(d) for d in all_deps],\n")]),
    ("plain deps only", "fire", [(M, "        all_deps = prjc.all_dependencies\n", "        all_deps = prjc.dependencies or []\n")]),
    ("deps without url only", "fire", [(M, RD, RD.replace("for d in all_deps]", "for d in all_deps if not d.extras]"))]),
    ("extras only with deps", "fire", [(M, "        extras = list((prjc.optional_dependencies or {}).keys())\n", "        extras = [k for k, v in (prjc.optional_dependencies or {}).items() if v]\n")]),
    ("urls dropped", "fire", [(M, PE, "            'Provides-Extra': extras,\n")]),
    ("constant version", "fire", [(M, "'Version': str(prjc.version)", "'Version': '0.0.0'")]),
    ("license from readme", "fire", [(M, "            'License': prjc.license_content()", "            'License': prjc.readme_content()")]),
    ("no deps", "fire", [(C, FIRST, "        all_deps = []\n")]),
    ("optional unbound", "fire", [(C, "                    all_deps.append(replace(dep, env_marker=EnvironmentMarker.parse_pep508(new_marker)))\n", "                    all_deps.append(dep)\n")]),
    ("own marker lost", "fire", [(C, NM1, "                    new_marker = ''\n")]),
    ("marker or", "fire", [(C, NM1, NM1.replace(") and ", ") or "))]),
    ("marker unparenthesised", "fire", [(C, NM1, NM1.replace("({str(dep.env_marker).rstrip(';')})", "{str(dep.env_marker).rstrip(';')}"))]),
    ("marker joined by semicolon", "fire", [(C, NM1, NM1.replace(") and ", ");"))]),
    ("extra not equal", "fire", [(C, NM2, NM2.replace("extra==", "extra!="))]),
    ("marked optional skipped", "fire", [(C, """                else:
                    all_deps.append(dep)
        return all_deps
""", "        return all_deps\n")]),
    ("break at marked", "fire", [(C, """                else:
                    all_deps.append(dep)
        return all_deps
""", """                else:
                    all_deps.append(dep)
                    break
        return all_deps
""")]),
    ("any extra marker is enough", "fire", [(C, "                if not dep.env_marker or not extra_rx.match(str(dep.env_marker)):\n", "                if not dep.env_marker:\n")]),
    ("spec lost", "fire", [(C, "replace(dep, env_marker=EnvironmentMarker.parse_pep508(new_marker))", "Dependency(dep.package_name, env_marker=EnvironmentMarker.parse_pep508(new_marker))")]),
    ("no gui", "fire", [(C, EPS, "")]),
    ("gui not added", "fire", [(C, EPS, """        if self._gui_scripts:
            _entrypoints_from_config(EntryPoint.G_GUI_SCRIPTS, self._gui_scripts)
""")]),
    ("gui as console", "fire", [(C, EPS, EPS.replace("(EntryPoint.G_GUI_SCRIPTS, self", "(EntryPoint.G_CONSOLE_SCRIPTS, self"))]),
    ("gui under other entries", "fire", [(C, EPS, EPS.replace("self._gui_scripts))", "self._scripts))"))]),
    ("groups mixed", "fire", [(C, UPD, "            result.update({g: _entrypoints_from_config('console_scripts', eps) for g, eps in self._entry_points.items()})\n")]),
    ("groups filtered", "fire", [(C, UPD, "            result.update({g: _entrypoints_from_config(g, eps) for g, eps in self._entry_points.items() if '.' not in g})\n")]),
    ("swapped entry point", "fire", [(C, "EntryPoint(group, ep_name, ObjectReference.parse(ep_oref))", "EntryPoint(ep_name, group, ObjectReference.parse(ep_oref))")]),
    ("name as ref", "fire", [(C, "EntryPoint(group, ep_name, ObjectReference.parse(ep_oref))", "EntryPoint(group, ep_name, ObjectReference.parse(ep_name))")]),
    ("console only", "fire", [(C, ALL, "        return [e for points in self.entry_points.values() for e in points if e.group == 'console_scripts']\n")]),
    ("no scripts without groups", "fire", [(C, "        if not self.entry_points:\n            return []\n", "        if not self._entry_points:\n            return []\n")]),
    ("default policy", "fire", [(M, MSG, "        msg = EmailMessage()\n")]),
    ("folded", "fire", [(M, MSG, "        msg = EmailMessage(EmailPolicy(utf8=True))\n")]),
    ("first item", "fire", [(M, W, W + "                    break\n")]),
    ("empty items", "fire", [(M, W, W.replace("                    msg[key] = item\n", "                    if ';' not in item:\n                        msg[key] = item\n"))]),
    ("no payload", "fire", [(M, "            msg.set_payload(payload)\n", "            pass\n")]),
    ("license skipped too", "fire", [(M, "            if key == 'Description':\n                continue", "            if key in ('Description', 'License'):\n                continue")]),
    ("entry key ref", "fire", [(D, SET, SET.replace("{e.name: e.ref", "{str(e.ref): e.ref"))]),
    ("one group", "fire", [(D, SET, SET.replace("lambda e: e.group", "lambda e: e.name"))]),
    ("not kept", "fire", [(D, SET, SET.replace("        self._data.update(new_data)\n", ""))]),
    ("no metadata", "fire", [(B, META, "")]),
    ("metadata if missing", "fire", [(B, META, "        if not di.metadata_path().exists():\n    " + META)]),
    ("no entry points", "fire", [(B, ENT, "")]),
    ("entry points unsaved", "fire", [(B, ENT, ENT.replace("        entrypoints.save()\n", ""))]),
    ("saved too early", "fire", [(B, ENT, """        entrypoints = di.load_entrypoints_cfg()
        entrypoints.save()
        entrypoints.entrypoints = self.pyproject.project.all_entrypoints()
""")]),
    ("no entry points for library", "fire", [(B, ENT, """        if project_config.scripts if hasattr(project_config, 'scripts') else True:
            entrypoints = di.load_entrypoints_cfg()
            entrypoints.entrypoints = self.pyproject.project.all_entrypoints()
            entrypoints.save()
""")]),

    ("loops", "quiet", [(M, AN, """        author_names = []
        for a in (prjc.authors or []):
            if not a.name:
                continue
            author_names.append(a.formatted_name())
"""), (M, PE, "            'Provides-Extra': extras, 'Project-URL': urls,\n"), (M, "        all_deps = prjc.all_dependencies\n", """        all_deps = prjc.all_dependencies
        urls = []
        for label, url in (prjc.urls or {}).items():
            urls.append(f"{label}, {url}")
""")]),
    ("helpers", "quiet", [(M, AN, "        author_names = cls._names(prjc.authors)\n"), (M, ME, "        maintainer_emails = _emails_of(prjc.maintainers)\n"), (M, "    @classmethod\n    def from_project_config", """    @staticmethod
    def _names(contacts):
        return [c.formatted_name() for c in (contacts or []) if c.name]

    @classmethod
    def from_project_config"""), (M, "class PackageMetadataIO", """def _emails_of(contacts):
    return [c.email for c in (contacts or []) if c.email]


class PackageMetadataIO""")]),
    ("stepwise data", "quiet", [(M, "            'Provides-Extra': extras, 'Project-URL'", "            'Project-URL'"), (M, "        return cls.from_config(remove_none_values(data))\n", """        data['Provides-Extra'] = extras
        data = remove_none_values(data)
        result = cls.from_config(data)
        return result
"""), (M, "        extras = list((prjc.optional_dependencies or {}).keys())\n", "        extras = list(prjc.optional_dependencies or {})\n")]),
    ("dependency built", "quiet", [(C, "replace(dep, env_marker=EnvironmentMarker.parse_pep508(new_marker))", "Dependency(dep.package_name, dep.version_spec, dep.extras, EnvironmentMarker.parse_pep508(new_marker))")]),
    ("copy of deps", "quiet", [(C, FIRST, "        all_deps = list(self.dependencies or [])\n")]),
    ("deps extended", "quiet", [(C, FIRST, "        all_deps = []\n        if self.dependencies:\n            all_deps.extend(self.dependencies)\n")]),
    ("deps helper", "quiet", [(C, DEPS, """        for od_group, deps in optional_deps.items():
            all_deps.extend(self._bind_extra(dep, od_group) for dep in deps)
        return all_deps

    @staticmethod
    def _bind_extra(dep, od_group):
        extra_rx = re.compile(f'extra\\\\s*==\\\\s*(\\'{od_group}\\'|"{od_group}")')
        if dep.env_marker and extra_rx.match(str(dep.env_marker)):
            return dep
        marker = f"extra=='{od_group}'"
        if dep.env_marker:
            marker = f"({str(dep.env_marker).rstrip(';')}) and {marker}"
        return replace(dep, env_marker=EnvironmentMarker.parse_pep508(marker))
""")]),
    ("marker if", "quiet", [(C, NM1 + NM2, """                    if dep.env_marker:
                        new_marker = "(" + str(dep.env_marker).rstrip(';') + ") and extra=='" + od_group + "'"
                    else:
                        new_marker = f"extra=='{od_group}'"
""")]),
    ("continue", "quiet", [(C, DEPS, """        for od_group, deps in optional_deps.items():
            extra_rx = re.compile(f'extra\\\\s*==\\\\s*(\\'{od_group}\\'|"{od_group}")')
            for dep in deps:
                if dep.env_marker and extra_rx.match(str(dep.env_marker)):
                    all_deps.append(dep)
                    continue
                own = f"({str(dep.env_marker).rstrip(';')}) and " if dep.env_marker else ''
                all_deps.append(replace(dep, env_marker=EnvironmentMarker.parse_pep508(f"{own}extra=='{od_group}'")))
        return all_deps
""")]),
    ("entry point loop", "quiet", [(C, ALL, """        result = []
        for points in self.entry_points.values():
            result.extend(points)
        return result
""")]),
    ("entry point loops", "quiet", [(C, ALL, """        result = []
        for group in self.entry_points:
            for point in self.entry_points[group]:
                result.append(point)
        return result
"""), (C, UPD, """            for g, eps in self._entry_points.items():
                result[g].extend(_entrypoints_from_config(g, eps))
""")]),
    ("entries local", "quiet", [(C, "        if not self.entry_points:\n            return []\n\n" + ALL, """        entry_points = self.entry_points
        return [e for points in (entry_points or {}).values() for e in points]
""")]),
    ("entries table", "quiet", [(C, EPS, """        gui = self._gui_scripts
        if gui:
            gui_points = _entrypoints_from_config(EntryPoint.G_GUI_SCRIPTS, gui)
            result[EntryPoint.G_GUI_SCRIPTS] += gui_points
""")]),
    ("entries helper loop", "quiet", [(C, "    return [EntryPoint(group, ep_name, ObjectReference.parse(ep_oref)) for ep_name, ep_oref in ep.items()]\n", """    result = []
    for ep_name, ep_oref in ep.items():
        ref = ObjectReference.parse(ep_oref)
        result.append(EntryPoint(group=group, name=ep_name, ref=ref))
    return result
""")]),
    ("policy constant", "quiet", [(M, MSG, "        msg = EmailMessage(policy=_POLICY)\n"), (M, "class PackageMetadataIO", "_POLICY = EmailPolicy(utf8=True, max_line_length=None)\n\n\nclass PackageMetadataIO")]),
    ("policy clone", "quiet", [(M, MSG, "        msg = EmailMessage(EmailPolicy(max_line_length=0, utf8=True))\n")]),
    ("one list", "quiet", [(M, """            if isinstance(value, List):
                for item in value:
                    msg[key] = item
            else:
                try:
                    msg[key] = value
                except Exception as e:
                    warnings.warn(f"malformed metadata key,value ({key}={value}) | {e}, ignoring it")
""", """            for item in value if isinstance(value, List) else [value]:
                msg.add_header(key, item)
""")]),
    ("write helper", "quiet", [(M, W, """            if isinstance(value, List):
                self._add_all(msg, key, value)
"""), (M, "    def write(self, path: Path, data: Dict[str, Any]):\n", """    def _add_all(self, msg, key, values):
        for v in values:
            msg[key] = v

    def write(self, path: Path, data: Dict[str, Any]):
""")]),
    ("payload var", "quiet", [(M, """        if payload := data.get("Description"):
            msg.set_payload(payload)
""", """        description = data.get('Description')
        if description:
            msg.set_payload(description)
""")]),
    ("setter loop", "quiet", [(D, SET, """        by_group = groupby(entrypoints, key=lambda e: e.group)
        for group, entries in by_group.items():
            section = {}
            for e in entries:
                section[e.name] = e.ref
            self._data[group] = section
""")]),
    ("setter direct", "quiet", [(D, SET, """        for e in entrypoints:
            self._data.setdefault(e.group, {})[e.name] = e.ref
""")]),
    ("build helper", "quiet", [(B, ENT, "        self._write_entrypoints(di)\n"), (B, "    def build_dist_info(self", """    def _write_entrypoints(self, di):
        cfg = di.load_entrypoints_cfg()
        cfg.entrypoints = self.pyproject.project.all_entrypoints()
        cfg.save()

    def build_dist_info(self""")]),
    ("build local", "quiet", [(B, META, """        metadata = PackageMetadata.from_project_config(project_config)
        metadata.save(di.metadata_path())
"""), (B, "self.pyproject.project.all_entrypoints()", "project_config.all_entrypoints()")]),
]
