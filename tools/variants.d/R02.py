P = "resolution/pubgrub.py"
ORD = "        self._assignments_by_order = list(filtered(self._assignments_by_order))\n"
BYP = """        assignments_by_package = defaultdict(list)
        for package, assignments in self.assignments_by_package.items():
            assignments_by_package[package].extend(filtered(assignments))

        self.assignments_by_package = assignments_by_package
"""
REQ = """        self._required_packages = {
            package: req_decision_level
            for package, req_decision_level in self._required_packages.items()
            if req_decision_level <= decision_level
        }
"""
DEC = """        self._decisions = {
            package: decision
            for package, decision in self._decisions.items()
            if decision.decision_level <= decision_level
        }
"""
FIL = "            return (ass for ass in lst if ass.decision_level <= decision_level)\n"
ASS = """        self.assignments_by_package[assignment.term.package].append(assignment)
        self._assignments_by_order.append(assignment)
"""
DECD = """        if assignment.is_decision():
            # print(f"decided: {assignment}")
            self._decisions[assignment.term.package] = assignment
"""
RQ = """            if package not in required_packages:
                required_packages[package] = self._decision_level
"""
TRY = """        assignments[package].append(assignment)
        # print(f"checking if we can still assign {version} after its new incompatibilities")
        conflicts = list(filter(lambda it: it.check_satisfaction(self._solution).is_full(), incompatibilities))
        assignments[package].pop()
"""
ADJ = """        if conflicts and self._attempt_minor_adjustments(package, conflicts):
            conflicts = []
            # rebuilding assignmenr: decision level might have changed due to the minor adjustments
            assignment = self._solution.make_assignment(Term(package, VersionMatch(version.version)), None)
"""
BT = """                self._solution.backtrack(prev_satisfier_level)
                if incompatibility is not original_incompatibility:
                    self._add_incompatibility(incompatibility)
"""
DO = """            self._solution.assign(assignment)
            self._solution.require(version.dependencies.keys())
"""
VARIANTS = [
    ("unchanged", "quiet", []),
    # ---- backtrack
    ("order loop", "quiet", [(P, ORD, """        kept = []
        for assignment in self._assignments_by_order:
            if assignment.decision_level > decision_level:
                continue
            kept.append(assignment)
        self._assignments_by_order = kept
""")]),
    ("order pop", "quiet", [(P, ORD, """        while self._assignments_by_order and self._assignments_by_order[-1].decision_level > decision_level:
            self._assignments_by_order.pop()
""")]),
    ("order slice", "quiet", [(P, ORD, "        self._assignments_by_order[:] = filtered(self._assignments_by_order)\n")]),
    ("order comprehension", "quiet", [(P, ORD, "        self._assignments_by_order = [a for a in self._assignments_by_order if not a.decision_level > decision_level]\n")]),
    ("order filter", "quiet", [(P, ORD, "        self._assignments_by_order = list(filter(lambda a: a.decision_level <= decision_level, self._assignments_by_order))\n")]),
    ("package inner loop", "quiet", [(P, BYP, """        by_package = defaultdict(list)
        for package, assignments in self.assignments_by_package.items():
            for assignment in assignments:
                if assignment.decision_level <= decision_level:
                    by_package[package].append(assignment)
        self.assignments_by_package = by_package
""")]),
    ("package in place", "quiet", [(P, BYP, """        for assignments in self.assignments_by_package.values():
            assignments[:] = filtered(assignments)
""")]),
    ("package in place key", "quiet", [(P, BYP, """        for package in list(self.assignments_by_package):
            self.assignments_by_package[package] = list(filtered(self.assignments_by_package[package]))
""")]),
    ("package dict", "quiet", [(P, BYP, """        self.assignments_by_package = defaultdict(list, {
            package: list(filtered(assignments)) for package, assignments in self.assignments_by_package.items()})
""")]),
    ("package update", "quiet", [(P, BYP, """        by_package = defaultdict(list)
        by_package.update({
            package: list(filtered(assignments)) for package, assignments in self.assignments_by_package.items()})
        self.assignments_by_package = by_package
""")]),
    ("required loop", "quiet", [(P, REQ, """        required = {}
        for package, level in self._required_packages.items():
            if level <= decision_level:
                required[package] = level
        self._required_packages = required
""")]),
    ("required delete", "quiet", [(P, REQ, """        for package, level in list(self._required_packages.items()):
            if level > decision_level:
                del self._required_packages[package]
""")]),
    ("required delete keys", "quiet", [(P, REQ, """        for package in [p for p, lvl in self._required_packages.items() if lvl > decision_level]:
            self._required_packages.pop(package)
""")]),
    ("decisions keys", "quiet", [(P, DEC, """        self._decisions = {p: self._decisions[p] for p in self._decisions if self._decisions[p].decision_level <= decision_level}
""")]),
    ("decisions delete", "quiet", [(P, DEC, """        for package in list(self._decisions):
            if self._decisions[package].decision_level > decision_level:
                del self._decisions[package]
""")]),
    ("decisions copied", "quiet", [(P, DEC, """        kept = {}
        for package, decision in list(self._decisions.items()):
            if decision.decision_level <= decision_level:
                kept[package] = decision
        self._decisions = kept
""")]),
    ("order sorted", "quiet", [(P, ORD, "        self._assignments_by_order = sorted(filtered(self._assignments_by_order), key=lambda a: a.order_index)\n")]),
    ("helper", "quiet", [(P, DEC, """        self._decisions = self._until(self._decisions, decision_level)
"""), (P, "    def requires(self, package: PKG) -> bool:\n", """    @staticmethod
    def _until(decisions, level):
        return {package: decision for package, decision in decisions.items() if decision.decision_level <= level}

    def requires(self, package: PKG) -> bool:
""")]),
    ("early out", "quiet", [(P, "        def filtered(lst", "        if decision_level >= self._decision_level:\n            pass\n\n        def filtered(lst")]),
    ("order strict", "fire", [(P, FIL, FIL.replace("<=", "<"))]),
    ("order one more", "fire", [(P, FIL, FIL.replace("<= decision_level", "<= decision_level + 1"))]),
    ("order kept", "fire", [(P, ORD, "")]),
    ("order all", "fire", [(P, ORD, "        self._assignments_by_order = list(self._assignments_by_order)\n")]),
    ("derivations kept", "fire", [(P, FIL, FIL.replace("if ass", "if ass.cause or ass"))]),
    ("only decisions", "fire", [(P, FIL, FIL.replace("if ass.decision_level <= decision_level", "if ass.decision_level <= decision_level and ass.cause is not None"))]),
    ("package kept", "fire", [(P, BYP, "")]),
    ("package lists kept", "fire", [(P, BYP, BYP.replace("extend(filtered(assignments))", "extend(assignments)"))]),
    ("package last", "fire", [(P, BYP, """        for assignments in self.assignments_by_package.values():
            if assignments and assignments[-1].decision_level > decision_level:
                assignments.pop()
""")]),
    ("package cleared", "fire", [(P, BYP, "        self.assignments_by_package = defaultdict(list)\n")]),
    ("required kept", "fire", [(P, REQ, "")]),
    ("required strict", "fire", [(P, REQ, REQ.replace("<=", "<"))]),
    ("required decided", "fire", [(P, REQ, REQ.replace("if req_decision_level <= decision_level", "if package in self._decisions"))]),
    ("decisions kept", "fire", [(P, DEC, "")]),
    ("decisions strict", "fire", [(P, DEC, DEC.replace("<=", "<"))]),
    ("decisions delete at", "fire", [(P, DEC, """        for package in list(self._decisions):
            if self._decisions[package].decision_level >= decision_level:
                del self._decisions[package]
""")]),
    ("decisions one", "fire", [(P, DEC, """        for package in list(self._decisions):
            if self._decisions[package].decision_level > decision_level:
                del self._decisions[package]
                break
""")]),
    # ---- entering
    ("assign order first", "quiet", [(P, ASS, """        if assignment.is_decision():
            self._decisions[assignment.term.package] = assignment

        self._assignments_by_order.append(assignment)
        self.assignments_by_package[assignment.term.package].append(assignment)
"""), (P, DECD, "        if assignment.is_decision():\n            ...\n")]),
    ("assign cause", "quiet", [(P, DECD, DECD.replace("assignment.is_decision()", "assignment.cause is None"))]),
    ("require setdefault", "quiet", [(P, RQ, "            required_packages.setdefault(package, self._decision_level)\n")]),
    ("require level once", "quiet", [(P, "        required_packages = self._required_packages\n", "        required_packages = self._required_packages\n        level = self._decision_level\n"), (P, RQ, RQ.replace("= self._decision_level", "= level"))]),
    ("require continue", "quiet", [(P, RQ, "            if package in required_packages:\n                continue\n            required_packages[package] = self._decision_level\n")]),
    ("not by order", "fire", [(P, "        self._assignments_by_order.append(assignment)\n", "")]),
    ("not by package", "fire", [(P, "        self.assignments_by_package[assignment.term.package].append(assignment)\n", "")]),
    ("by order only derived", "fire", [(P, "        self._assignments_by_order.append(assignment)\n", "        if not assignment.is_decision():\n            self._assignments_by_order.append(assignment)\n")]),
    ("decision not recorded", "fire", [(P, "            self._decisions[assignment.term.package] = assignment\n", "            pass\n")]),
    ("all decisions", "fire", [(P, DECD, DECD.replace("if assignment.is_decision()", "if assignment"))]),
    ("require overwrites", "fire", [(P, RQ, "            required_packages[package] = self._decision_level\n")]),
    # ---- the solver
    ("try finally", "quiet", [(P, TRY, """        assignments[package].append(assignment)
        try:
            conflicts = list(filter(lambda it: it.check_satisfaction(self._solution).is_full(), incompatibilities))
        finally:
            assignments[package].pop()
""")]),
    ("try del", "quiet", [(P, TRY, TRY.replace("assignments[package].pop()", "del assignments[package][-1]"))]),
    ("try alias", "quiet", [(P, TRY, """        of_package = assignments[package]
        of_package.append(assignment)
        conflicts = [it for it in incompatibilities if it.check_satisfaction(self._solution).is_full()]
        of_package.pop()
""")]),
    ("try helper", "quiet", [(P, TRY, "        conflicts = self._conflicts_of(assignment, package, incompatibilities)\n"),
                             (P, "    def _add_dependency_incompatibilities", """    def _conflicts_of(self, assignment, package, incompatibilities):
        tried = self._solution.assignments_by_package[package]
        tried.append(assignment)
        result = [it for it in incompatibilities if it.check_satisfaction(self._solution).is_full()]
        tried.pop()
        return result

    def _add_dependency_incompatibilities""")]),
    ("adjust flag", "quiet", [(P, ADJ, """        if conflicts:
            if self._attempt_minor_adjustments(package, conflicts):
                conflicts = []
                assignment = self._solution.make_assignment(Term(package, VersionMatch(version.version)), None)
""")]),
    ("assign late", "quiet", [(P, ADJ, """        if conflicts and self._attempt_minor_adjustments(package, conflicts):
            conflicts = []
"""), (P, "            self._solution.assign(assignment)\n", "            self._solution.assign(Term(package, VersionMatch(version.version)))\n")]),
    ("conflict order", "quiet", [(P, BT, """                if incompatibility is not original_incompatibility:
                    self._add_incompatibility(incompatibility)

                self._solution.backtrack(prev_satisfier_level)
""")]),
    ("always learned", "quiet", [(P, BT, """                self._solution.backtrack(prev_satisfier_level)
                self._add_incompatibility(incompatibility)
""")]),
    ("conflict inline", "quiet", [(P, "                self._solution.backtrack(prev_satisfier_level)\n", "                solution = self._solution\n                solution.backtrack(prev_satisfier_level)\n")]),
    ("not taken back", "fire", [(P, "        assignments[package].pop()\n", "")]),
    ("taken back if conflicts", "fire", [(P, "        assignments[package].pop()\n", "        if conflicts:\n            assignments[package].pop()\n")]),
    ("taken back late", "fire", [(P, "        assignments[package].pop()\n", ""), (P, "        if not conflicts:\n            # print(\"we can!\")", "        assignments[package].pop()\n        if not conflicts:\n            # print(\"we can!\")")]),
    ("not rebuilt", "fire", [(P, "            # rebuilding assignmenr: decision level might have changed due to the minor adjustments\n            assignment = self._solution.make_assignment(Term(package, VersionMatch(version.version)), None)\n", "")]),
    ("conflict stale", "fire", [(P, "                satisfaction = incompatibility.check_satisfaction(self._solution)\n                assert satisfaction.is_almost_full(), \\\n                    \"new", "                assert satisfaction.is_almost_full(), \\\n                    \"new")]),
    ("conflict checked first", "fire", [(P, "                self._solution.backtrack(prev_satisfier_level)\n", ""), (P, "                term = satisfaction.undecided_term\n                # print(f\"conflict", "                self._solution.backtrack(prev_satisfier_level)\n                term = satisfaction.undecided_term\n                # print(f\"conflict")]),
    ("not learned", "fire", [(P, BT, "                self._solution.backtrack(prev_satisfier_level)\n")]),
    ("learned original", "fire", [(P, "if incompatibility is not original_incompatibility:", "if incompatibility is original_incompatibility:")]),
    ("learned sometimes", "fire", [(P, "if incompatibility is not original_incompatibility:", "if len(incompatibility.terms) > 1 and incompatibility is not original_incompatibility:")]),
    ("forgets", "fire", [(P, "        while changed:\n            package = changed.pop()\n", "        while changed:\n            package = changed.pop()\n            if len(self._incompatibilities[package]) > 1000:\n                self._incompatibilities[package].pop(0)\n")]),
    ("forgets reset", "fire", [(P, "        while changed:\n            package = changed.pop()\n", "        while changed:\n            package = changed.pop()\n            self._incompatibilities[package] = self._incompatibilities[package][-50:]\n")]),
    ("required first", "fire", [(P, DO, "            self._solution.require(version.dependencies.keys())\n            self._solution.assign(assignment)\n")]),
]
