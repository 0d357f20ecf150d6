F = "api/versions/version_specifiers.py"
V = "api/versions/version.py"
VARIANTS = [
    ("alias", "fire", [(F, "        new_segments = [*self.segments]\n", "        new_segments = self.segments\n")]),
    ("old", "fire", [(F, "[*other.segments] if isinstance", "other.segments if isinstance")]),
    ("blacklist", "fire", [(F, "            blacklist = set(self.blacklist)\n", "            blacklist = self.blacklist\n")]),
    ("helper", "fire", [(F, "            blacklist = set(self.blacklist)\n            if other.allow:\n                blacklist.remove(other.version)\n            else:\n                blacklist.add(other.version)\n\n            return HetroVersionIntersection.create(blacklist, self.standard_spec)",
        "            return HetroVersionIntersection.create(self._adjusted(self.blacklist, other), self.standard_spec)"),
        (F, "    def inverse(self) -> VersionSpecifier:\n        union = [*(Ver", "    def _adjusted(self, blacklist, other):\n        if other.allow:\n            blacklist.remove(other.version)\n        else:\n            blacklist.add(other.version)\n        return blacklist\n\n    def inverse(self) -> VersionSpecifier:\n        union = [*(Ver")]),
    ("helper_ok", "quiet", [(F, "            blacklist = set(self.blacklist)\n            if other.allow:\n                blacklist.remove(other.version)\n            else:\n                blacklist.add(other.version)\n\n            return HetroVersionIntersection.create(blacklist, self.standard_spec)",
        "            return HetroVersionIntersection.create(self._adjusted(set(self.blacklist), other), self.standard_spec)"),
        (F, "    def inverse(self) -> VersionSpecifier:\n        union = [*(Ver", "    def _adjusted(self, blacklist, other):\n        if other.allow:\n            blacklist.remove(other.version)\n        else:\n            blacklist.add(other.version)\n        return blacklist\n\n    def inverse(self) -> VersionSpecifier:\n        union = [*(Ver")]),
    ("set_aug", "fire", [(F, "                self.blacklist.union(other.blacklist), self.standard", "                self._merge(other), self.standard"),
        (F, "    def inverse(self) -> VersionSpecifier:\n        union = [*(Ver", "    def _merge(self, other):\n        b = self.blacklist\n        b |= other.blacklist\n        return b\n\n    def inverse(self) -> VersionSpecifier:\n        union = [*(Ver")]),
    ("set_op", "quiet", [(F, "                self.blacklist.union(other.blacklist), self.standard", "                self._merge(other), self.standard"),
        (F, "    def inverse(self) -> VersionSpecifier:\n        union = [*(Ver", "    def _merge(self, other):\n        b = self.blacklist\n        b = b | other.blacklist\n        return b\n\n    def inverse(self) -> VersionSpecifier:\n        union = [*(Ver")]),
    ("set_copy", "quiet", [(F, "                self.blacklist.union(other.blacklist), self.standard", "                self._merge(other), self.standard"),
        (F, "    def inverse(self) -> VersionSpecifier:\n        union = [*(Ver", "    def _merge(self, other):\n        b = self.blacklist.copy()\n        b |= other.blacklist\n        b.update(other.blacklist)\n        return b\n\n    def inverse(self) -> VersionSpecifier:\n        union = [*(Ver")]),
    ("invert_in_place", "fire", [(F, "        return VersionMatch(self.version, not self.allow)\n", "        self.allow = not self.allow\n        return self\n")]),
    ("invert_result", "fire", [(F, "        return self.intersect_with(other.inverse())\n", "        inv = other.inverse()\n        res = self.intersect_with(inv)\n        if isinstance(res, VersionMatch):\n            res.allow = bool(res.allow)\n        return res\n")]),
    ("shallow", "fire", [(F, "        new_segments = [*self.segments]\n", "        import copy\n        dup = copy.copy(self)\n        new_segments = dup.segments\n")]),
    ("eq_sorts", "fire", [(F, "            return sorted(self.blacklist) < sorted(other.blacklist)\n", "            self.standard_spec.segments.sort(key=str)\n            return sorted(self.blacklist) < sorted(other.blacklist)\n")]),
    ("create_shared", "fire", [(F, "        blacklist = {it for it in blacklist if not isinstance(it, StandardVersion) or standard_spec.allows_version(it)}\n",
        "        for it in [*blacklist]:\n            if isinstance(it, StandardVersion) and not standard_spec.allows_version(it):\n                blacklist.discard(it)\n")]),
    ("loop_rewrite", "quiet", [(F, "        result = RestrictAllVersions\n        for segment in self.segments:\n            result = result.union_with(segment.intersect_with(other))\n        return result",
        "        parts = [segment.intersect_with(other) for segment in self.segments]\n        result = RestrictAllVersions\n        while parts:\n            result = result.union_with(parts.pop(0))\n        return result")]),
    ("memo", "quiet", [(F, "        segs = self.segments\n        if len(segs) == 2:", "        self._txt = None\n        segs = list(self.segments)\n        segs.sort()\n        if len(segs) == 2:")]),
    ("without_local", "fire", [(F, "            if self == other:\n                return self\n\n            my_ver, ot_ver", "            if self == other:\n                other.version = self.version\n                return self\n\n            my_ver, ot_ver")]),
]
