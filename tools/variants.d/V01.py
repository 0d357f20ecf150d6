V = "api/versions/version.py"
S = "api/versions/version_specifiers.py"
D = "resolution/dependency_resolver.py"
L = "api/repositories/repository_loader.py"
HL = "        s = self.standartize()\n        return hash((s.release, s.epoch or 0, s.dev_release, s.post_release, s.pre_release, s.local_label))\n"
VARIANTS = [
 ("raw-release", "fire", [(V, HL, "        return hash((self.release, self.epoch or 0, self.dev_release, self.post_release, self.pre_release, self.local_label))\n")]),
 ("raw-epoch", "fire", [(V, "s.epoch or 0", "s.epoch")]),
 ("hash-str", "fire", [(V, HL, "        return hash(str(self))\n")]),
 ("ignore-local", "fire", [(V, "        return self.equals_to(other, True)\n", "        return self.equals_to(other, False)\n")]),
 ("strip-once", "fire", [(V, "        while len(release) > 1 and release[-1] == 0:\n            release = release[:-1]\n", "        if len(release) > 3:\n            release = release[:-1]\n")]),
 ("url-hash", "fire", [(V, "        return hash((self.protocol, self.url))\n", "        return hash(str(self))\n")]),
 ("url-case", "fire", [(V, "self.protocol == other.protocol and self.url == other.url", "self.protocol == other.protocol and self.url.rstrip('/') == other.url.rstrip('/')")]),
 ("named-case", "fire", [(V, "isinstance(other, NamedVersion) and self.name == other.name", "isinstance(other, NamedVersion) and self.name.lower() == other.name.lower()")]),
 ("blacklist-ordered", "fire", [(S, "HashBuilder().unordered_seq(self.blacklist)", "HashBuilder().ordered_seq(self.blacklist)")]),
 ("union-as-set", "fire", [(S, "isinstance(other, VersionsUnion) and self.segments == other.segments", "isinstance(other, VersionsUnion) and set(self.segments) == set(other.segments)")]),
 ("match-eq-weak", "fire", [(S, "               and self.allow == other.allow and self.version == other.version\n", "               and self.version == other.version\n")]),
 ("match-local", "fire", [(S, "               and self.allow == other.allow and self.version == other.version\n", "               and self.allow == other.allow and self.version.without_local() == other.version.without_local()\n")]),
 ("range-eq-weak", "fire", [(S, "and self.includes_max == other.includes_max and self.min == other.min", "and self.min == other.min")]),
 ("pkg-extras-set", "fire", [(D, "    def __hash__(self):\n        hb", "    def __eq__(self, other):\n        return isinstance(other, _Pkg) and self.name == other.name and set(self.extras or ()) == set(other.extras or ())\n\n    def __hash__(self):\n        hb")]),
 ("pkg-len", "quiet", [(D, "hb.ordered_seq(self.extras)", "hb.regular(len(self.extras))")]),
 ("key-args-order", "fire", [(L, "            .unordered_mapping(self.args) \\\n", "            .ordered_seq(self.args.items()) \\\n")]),
 ("xor-order", "fire", [("utils/hashes.py", "            result ^= item_hash(item)\n\n        self._result = self._result * 31 + result", "            result = result * 31 + item_hash(item)\n\n        self._result = self._result * 31 + result")]),
 ("subclass-hash", "fire", [(V, "@dataclass(frozen=True)\nclass NamedVersion(Version):\n    name: str\n", "@dataclass(frozen=True)\nclass NamedVersion(Version):\n    name: str\n    origin: str = ''\n")]),
 # --- same behaviour
 ("q-hash-tuple-var", "quiet", [(V, HL, "        s = self.standartize()\n        parts = (s.release, s.epoch or 0, s.dev_release, s.post_release, s.pre_release, s.local_label)\n        return hash(parts)\n")]),
 ("q-key", "quiet", [(V, HL, "        return hash(self._key())\n\n    def _key(self):\n        s = self.standartize()\n        return s.release, s.epoch or 0, s.dev_release, s.post_release, s.pre_release, s.local_label\n")]),
 ("q-hash-name", "quiet", [(V, "        return hash((self.protocol, self.url))\n", "        return hash(self.url)\n")]),
 ("q-eq-early", "quiet", [(S, "        return isinstance(other, HetroVersionIntersection) \\\n               and self.blacklist == other.blacklist and self.standard_spec == other.standard_spec\n",
   "        if not isinstance(other, HetroVersionIntersection):\n            return False\n        if self.blacklist != other.blacklist:\n            return False\n        return self.standard_spec == other.standard_spec\n")]),
 ("q-eq-early-std", "quiet", [(V, "        if not isinstance(other, StandardVersion):\n            return False\n\n        v1, v2 = StandardVersion.normalized(self, other)\n        return (v1.epoch or 0) == (other.epoch or 0) \\\n               and v1.release == v2.release \\\n",
   "        if not isinstance(other, StandardVersion):\n            return False\n        if (self.epoch or 0) != (other.epoch or 0):\n            return False\n\n        v1, v2 = StandardVersion.normalized(self, other)\n        return v1.release == v2.release \\\n")]),
 ("q-key-both", "quiet", [(V, "        v1, v2 = StandardVersion.normalized(self, other)\n        return (v1.epoch or 0) == (other.epoch or 0) \\\n               and v1.release == v2.release \\\n               and v1.pre_release == v2.pre_release \\\n               and v1.post_release == v2.post_release \\\n               and v1.dev_release == v2.dev_release \\\n               and (not compare_locals or self.local_label == other.local_label)  # noqa\n",
   "        mine, theirs = self.standartize(), other.standartize()\n        if mine.release != theirs.release or (mine.epoch or 0) != (theirs.epoch or 0):\n            return False\n        return (self.pre_release, self.post_release, self.dev_release) == (other.pre_release, other.post_release, other.dev_release) \\\n               and (not compare_locals or self.local_label == other.local_label)\n")]),
 ("q-strip-pop", "quiet", [(V, "        release = self.release\n        while len(release) > 1 and release[-1] == 0:\n            release = release[:-1]\n", "        end = len(self.release)\n        while end > 1 and self.release[end - 1] == 0:\n            end -= 1\n        release = self.release[:end]\n")]),
 ("q-sorted-blacklist", "quiet", [(S, "HashBuilder().unordered_seq(self.blacklist)", "HashBuilder().ordered_seq(sorted(self.blacklist))")]),
 ("q-frozen", "quiet", [(S, "        return HashBuilder().unordered_seq(self.blacklist).regular(self.standard_spec).build()\n", "        return hash((frozenset(self.blacklist), self.standard_spec))\n")]),
 ("q-pkg", "quiet", [(D, "        hb = HashBuilder().regular(self.name)\n        if self.extras:\n            hb.ordered_seq(self.extras)\n\n        return hb.build()\n", "        return hash((self.name, tuple(self.extras or ())))\n")]),
 ("q-hb-helper", "quiet", [("utils/hashes.py", "        result = 7 * 31\n        for item in seq:\n            result ^= item_hash(item)\n", "        result = 7 * 31\n        for item in seq:\n            h = item_hash(item)\n            result = result ^ h\n")]),
]
