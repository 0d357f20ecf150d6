P = "resolution/pubgrub.py"
D = "resolution/dependency_resolver.py"
S = "repositories/shared_pacakges_repo.py"
ST = "api/packages/standard_package.py"
PR = "api/projects/project.py"
PC = "api/projects/pyproject_configuration.py"
PY = "repositories/pypi_repository.py"
FETCH = """            terms: Dict[PKG, Term] = {}
            for d in version_dependencies:  # there may be several requirements on the same package
                known = terms.get(d.package)
                terms[d.package] = known.intersect(d) if known else d
"""
STD = "        return [d for d in all_deps if d.is_applicable_for(target.env, extras)]\n\n    def _unf"
LOOP = """        for d in dependencies:
            if d.is_applicable_for(self._target.env, package.extras):
                if o := self._dependency_overrides.get(d.package_name_key):
                    result.append(Term(_Pkg.of(o), o.version_spec))
                else:
                    result.append(Term(_Pkg.of(d), d.version_spec))
"""
ADD = """        for term in incompatibility.terms:
            term_incompatibilities = self._incompatibilities[term.package]
            if incompatibility not in term_incompatibilities:
                term_incompatibilities.append(incompatibility)
"""
REUSE = """            if dependency.incompatibility:  # this version was tried before
                result.append(dependency.incompatibility)
                continue
"""
REG = """        for incompatibility in incompatibilities:
            self._add_incompatibility(incompatibility)
"""
RES = """        if pkg.extras:
            continue

        result.append(problem.opened_packages[PackageDescriptor(pkg.name, version)])
"""
VARIANTS = [
    ("fetch in", "quiet", [(P, FETCH, """            terms: Dict[PKG, Term] = {}
            for d in version_dependencies:
                if d.package in terms:
                    terms[d.package] = terms[d.package].intersect(d)
                else:
                    terms[d.package] = d
""")]),
    ("fetch grouped", "quiet", [(P, FETCH, """            grouped: Dict[PKG, List[Term]] = defaultdict(list)
            for d in version_dependencies:
                grouped[d.package].append(d)
            terms = {package: Term.join(package, ts) for package, ts in grouped.items()}
""")]),
    ("fetch early out", "quiet", [(P, "        if not self.dependencies:\n            version_dependencies", "        if self.dependencies is None:\n            version_dependencies")]),
    ("std loop", "quiet", [(ST, STD, """        result = []
        for d in all_deps:
            if not d.is_applicable_for(target.env, extras):
                continue
            result.append(d)
        return result

    def _unf""")]),
    ("std filter", "quiet", [(ST, STD, """        return list(filter(lambda d: d.is_applicable_for(target.env, extras), all_deps))

    def _unf""")]),
    ("std helper", "quiet", [(ST, STD, """        return self._applicable(all_deps, target.env, extras)

    @staticmethod
    def _applicable(deps, env, extras):
        return [d for d in deps if d.is_applicable_for(env, extras)]

    def _unf""")]),
    ("terms comp", "quiet", [(D, LOOP, """        applicable = [d for d in dependencies if d.is_applicable_for(self._target.env, package.extras)]
        for d in applicable:
            required = self._dependency_overrides.get(d.package_name_key) or d
            result.append(Term(_Pkg.of(required), required.version_spec))
""")]),
    ("terms helper", "quiet", [(D, LOOP, """        for d in dependencies:
            if d.is_applicable_for(self._target.env, package.extras):
                result.append(self._term_of(d))
"""), (D, "    def get_versions(self, package: _Pkg)", """    def _term_of(self, d):
        if d.package_name in self._dependency_overrides:
            d = self._dependency_overrides[d.package_name]
        return Term(_Pkg.of(d), d.version_spec)

    def get_versions(self, package: _Pkg)""")]),
    ("index helper", "quiet", [(P, ADD, """        for term in incompatibility.terms:
            entries = self._incompatibilities[term.package]
            if incompatibility in entries:
                continue
            entries.append(incompatibility)
""")]),
    ("reuse nested", "quiet", [(P, REUSE, """            if dependency.incompatibility is not None:
                result.append(dependency.incompatibility)
                continue
""")]),
    ("compute items", "quiet", [(P, "        for dependency in self.dependencies.values():\n            if", "        for _, dependency in self.dependencies.items():\n            if")]),
    ("result filter", "quiet", [(D, RES, """        if not pkg.extras:
            result.append(problem.opened_packages[PackageDescriptor(pkg.name, version)])
""")]),
    ("register inline", "quiet", [(P, "        incompatibilities = self._add_dependency_incompatibilities(version)\n", "        incompatibilities = version.compute_incompatibilities()\n        for ic in incompatibilities:\n            self._add_incompatibility(ic)\n")]),
    ("original fetch", "fire", [(P, FETCH, "            terms = {d.package: d for d in version_dependencies}\n")]),
    ("first wins", "fire", [(P, FETCH, "            terms = {}\n            for d in version_dependencies:\n                terms.setdefault(d.package, d)\n")]),
    ("last wins", "fire", [(P, FETCH, "            terms = {}\n            for d in version_dependencies:\n                terms[d.package] = d\n")]),
    ("no reuse", "fire", [(P, REUSE, "")]),
    ("no equality", "fire", [(P, "                if not nxt_dep or nxt_dep.term.constraint != dependency.term.constraint:\n", "                if not nxt_dep:\n")]),
    ("not widened", "fire", [(P, "incompatibility.dependant.constraint.union_with(self.effective_constraint_range)", "incompatibility.dependant.constraint")]),
    ("not returned", "fire", [(P, "            result.append(dependency.incompatibility)\n\n        return result", "        return result")]),
    ("index first", "fire", [(P, ADD, ADD.replace("in incompatibility.terms:", "in incompatibility.terms[:1]:"))]),
    ("index break", "fire", [(P, ADD, ADD + "                break\n")]),
    ("index skip", "fire", [(P, ADD, ADD.replace("            term_inc", "            if term.package == self._root_package:\n                continue\n            term_inc", 1))]),
    ("register some", "fire", [(P, REG, REG.replace("in incompatibilities:", "in incompatibilities:\n            if len(incompatibility.terms) < 2:\n                continue"))]),
    ("register none", "fire", [(P, REG, "")]),
    ("not required", "fire", [(P, "            self._solution.require(version.dependencies.keys())\n", "")]),
    ("decide first", "fire", [(P, "        incompatibilities = self._add_dependency_incompatibilities(version)\n\n", ""), (P, "        conflicts = list(filter", "        incompatibilities = version.compute_incompatibilities()\n        conflicts = list(filter"), (P, "            self._solution.require(version.dependencies.keys())\n", "            self._solution.require(version.dependencies.keys())\n            self._add_dependency_incompatibilities(version)\n")]),
    ("extras lost", "fire", [(S, "            deps = self._package.dependencies(target, extras)\n", "            deps = self._package.dependencies(target)\n")]),
    ("std no extras", "fire", [(ST, STD, STD.replace("target.env, extras", "target.env, []"))]),
    ("std only versions", "fire", [(ST, STD, STD.replace("if d.is", "if d.version_spec and d.is"))]),
    ("std marker", "fire", [(ST, STD, STD.replace("if d.is_applicable_for(target.env, extras)", "if d.env_marker is None"))]),
    ("terms no extras", "fire", [(D, "if d.is_applicable_for(self._target.env, package.extras)", "if d.is_applicable_for(self._target.env, [])")]),
    ("problem no extras", "fire", [(D, ".dependencies(self._target, package.extras)", ".dependencies(self._target)")]),
    ("term all", "fire", [(D, "                    result.append(Term(_Pkg.of(d), d.version_spec))\n", "                    result.append(Term(_Pkg.of(d), AllowAllVersions))\n")]),
    ("term skip url", "fire", [(D, LOOP, LOOP.replace("            if d.is", "            if d.required_url():\n                continue\n            if d.is"))]),
    ("term skip override", "fire", [(D, "                    result.append(Term(_Pkg.of(o), o.version_spec))\n", "                    continue\n")]),
    ("base not required", "fire", [(D, "            result.append(Term(replace(package, extras=None), VersionMatch(version)))\n", "            result.append(Term(replace(package, extras=None), AllowAllVersions))\n")]),
    ("solution cut", "fire", [(D, RES, RES.replace("if pkg.extras:", "if pkg.extras or not version:"))]),
    ("optional deps", "fire", [(PC, "                else:\n                    all_deps.append(dep)\n", "")]),
    ("requires dist", "fire", [(PY, "        return [Dependency.parse(dstr) for dstr in requires_dist]", "        return [Dependency.parse(dstr) for dstr in requires_dist if ';' not in dstr]")]),
    ("dynamic", "fire", [(PR, "            all_deps = self._pyproject.project.all_dependencies\n\n        return [d", "            all_deps = self._pyproject.project.all_dependencies\n\n        return [d for d in all_deps if not d.env_marker] if not extras else [d")]),
]
