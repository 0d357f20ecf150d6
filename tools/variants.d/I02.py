PY, SI, UR, HC = "repositories/pypi_repository.py", "repositories/simple_repository.py", "repositories/url_repository.py", "utils/http/http_client.py"
CO = "repositories/conda-pkm-repo/src/conda_pkm_repo/conda_channel_subdir.py"
VARIANTS = [
    ("pypi-none", "fire", [(PY, "            if hash_function is not None and not resource.is_hash_valid(hash_function, digests[hash_function]):\n                raise InstallationException(f\"invalid hash for resource downloaded from {url}\")\n", "            pass\n")]),
    ("pypi-sha-only", "fire", [(PY, "            if hash_function not in digests:\n                hash_function = first_or_none(digests.keys())\n", "            if hash_function not in digests:\n                return resource.data\n")]),
    ("pypi-log", "fire", [(PY, "                raise InstallationException(f\"invalid hash for resource downloaded from {url}\")\n", "                resource.delete()\n")]),
    ("pypi-other-resource", "fire", [(PY, "        return resource.data\n", "        return self._repo._http.fetch_resource(url.replace('http:', 'https:')).data\n")]),
    ("pypi-wheels-only", "fire", [(PY, "        if digests := artifact.other_info['digests']:", "        if artifact.is_binary() and (digests := artifact.other_info['digests']):")]),
    ("pypi-self", "fire", [(PY, "resource.is_hash_valid(hash_function, digests[hash_function])", "resource.is_hash_valid(hash_function, resource.fetch_info_data.hash.get(hash_function))")]),
    ("simple-https", "fire", [(SI, "        if fragment:\n", "        if fragment and not url.startswith('https'):\n")]),
    ("simple-inverted", "fire", [(SI, "if hash_function and hash_value and not resource.is_hash_valid", "if hash_function and hash_value and resource.is_hash_valid")]),
    ("simple-sha256-only", "fire", [(SI, "            if hash_function and hash_value and", "            if hash_function == 'sha256' and hash_value and")]),
    ("simple-url-cut", "fire", [(SI, "            url = attrs.get('href')\n", "            url = attrs.get('href').split('#')[0]\n")]),
    ("simple-no-url", "fire", [(SI, "requires_python, {'url': url})", "requires_python, {'file': url})")]),
    ("url-none", "fire", [(UR, "            if not resource.is_hash_valid(digest.group(1), digest.group(2)):", "            if not resource.exists():")]),
    ("conda-none", "fire", [(CO, "        if (hash_value := artifact.info.get(hash_function)) and not resource", "        if (hash_value := artifact.info.get(hash_function)) and hash_function == 'md5' and not resource")]),
    ("conda-after", "fire", [(CO, "        hash_function = 'sha256' if artifact", "        CondaDistribution(self.descriptor, resource.data).install_to(target)\n        hash_function = 'sha256' if artifact")]),
    ("conda-md5-only", "fire", [(CO, "        hash_function = 'sha256' if artifact.info.get('sha256') else 'md5'\n", "        hash_function = 'md5'\n")]),
    ("pypi-artifact-record", "fire", [(PY, "VersionSpecifier.parse(requires_python) if requires_python else None, release\n", "VersionSpecifier.parse(requires_python) if requires_python else None, {'url': release['url'].partition('#')[0]}\n")]),
    ("hash-first-block", "fire", [(HC, "                    if not next_:\n                        break\n                    hash_.update(next_)\n", "                    hash_.update(next_)\n                    break\n")]),
    ("hash-any-remembered", "fire", [(HC, "fetch_hash = fetch_info.hash.get(hash_function)", "fetch_hash = next(iter(fetch_info.hash.values()), None)")]),
    ("hash-wrong-key", "fire", [(HC, "fetch_info.hash[hash_function] = fetch_hash", "fetch_info.hash[hash_function] = hash_hex_value")]),
    ("hash-prefix", "fire", [(HC, "        return fetch_hash == hash_hex_value\n", "        return fetch_hash.startswith(hash_hex_value)\n")]),
    ("hash-empty-ok", "fire", [(HC, "        return fetch_hash == hash_hex_value\n", "        return not hash_hex_value or fetch_hash == hash_hex_value\n")]),
    ("hash-md5", "fire", [(HC, "hash_ = hashlib.new(hash_function)", "hash_ = hashlib.new('md5')")]),
    ("save-keeps-info", "fire", [(HC, "        if self.fetch_info.exists():\n            self.fetch_info.unlink()\n", "")]),
    ("save-updates-info", "fire", [(HC, "            fetch_info = self.fetch_info_data = FetchInfoConfig()\n", "            fetch_info = self.fetch_info_data\n")]),
    ("pypi-loop", "quiet", [(PY, "            hash_function = 'sha256'\n            if hash_function not in digests:\n                hash_function = first_or_none(digests.keys())\n\n            if hash_function is not None and not resource.is_hash_valid(hash_function, digests[hash_function]):\n                raise InstallationException(f\"invalid hash for resource downloaded from {url}\")\n",
                             "            for hash_function, value in digests.items():\n                if not resource.is_hash_valid(hash_function, value):\n                    raise InstallationException(f\"invalid hash for resource downloaded from {url}\")\n")]),
    ("pypi-helper", "quiet", [(PY, "        if digests := artifact.other_info['digests']:\n            hash_function = 'sha256'\n            if hash_function not in digests:\n                hash_function = first_or_none(digests.keys())\n\n            if hash_function is not None and not resource.is_hash_valid(hash_function, digests[hash_function]):\n                raise InstallationException(f\"invalid hash for resource downloaded from {url}\")\n\n        return resource.data\n",
                               "        self._validate(resource, artifact, url)\n        return resource.data\n\n    def _validate(self, resource, artifact, url):\n        digests = artifact.other_info.get('digests')\n        if not digests:\n            return\n        hash_function = 'sha256' if 'sha256' in digests else first_or_none(digests.keys())\n        if hash_function is not None and not resource.is_hash_valid(hash_function, digests[hash_function]):\n            raise InstallationException(f\"invalid hash for resource downloaded from {url}\")\n")]),
    ("simple-early", "quiet", [(SI, "        if fragment:\n            hash_function, _, hash_value = fragment.partition(\"=\")\n            if hash_function and hash_value and not resource.is_hash_valid(hash_function, hash_value):\n                raise InstallationException(f\"Invalid hash for a resource received from {url}\")\n",
                                "        if not fragment:\n            return resource.data\n        hash_function, _, hash_value = fragment.partition(\"=\")\n        if hash_function and hash_value:\n            valid = resource.is_hash_valid(hash_function, hash_value)\n            if not valid:\n                raise InstallationException(f\"Invalid hash for a resource received from {url}\")\n")]),
    ("conda-split", "quiet", [(CO, "        hash_function = 'sha256' if artifact.info.get('sha256') else 'md5'\n        if (hash_value := artifact.info.get(hash_function)) and not resource.is_hash_valid(hash_function, hash_value):\n            raise InstallationException(f\"Invalid hash for a resource received from {url}\")\n",
                               "        info = artifact.info\n        if sha256 := info.get('sha256'):\n            valid = resource.is_hash_valid('sha256', sha256)\n        elif md5 := info.get('md5'):\n            valid = resource.is_hash_valid('md5', md5)\n        else:\n            valid = True\n        if not valid:\n            raise InstallationException(f\"Invalid hash for a resource received from {url}\")\n")]),
    ("hash-walrus", "quiet", [(HC, "                while True:\n                    next_ = f.read(8192)\n                    if not next_:\n                        break\n                    hash_.update(next_)\n", "                while chunk := f.read(65536):\n                    hash_.update(chunk)\n")]),
    ("hash-bytes", "quiet", [(HC, "            with open(self.data, 'rb') as f:\n                while True:\n                    next_ = f.read(8192)\n                    if not next_:\n                        break\n                    hash_.update(next_)\n", "            hash_.update(self.data.read_bytes())\n")]),
    ("hash-lower", "quiet", [(HC, "        return fetch_hash == hash_hex_value\n", "        return fetch_hash.lower() == hash_hex_value.lower()\n")]),
    ("hash-early", "quiet", [(HC, "        return fetch_hash == hash_hex_value\n", "        if fetch_hash != hash_hex_value:\n            return False\n        return True\n")]),
    ("save-missing-ok", "quiet", [(HC, "        if self.fetch_info.exists():\n            self.fetch_info.unlink()\n", "        self.fetch_info.unlink(missing_ok=True)\n")]),
]
VARIANTS.append(("pypi-loop-some", "fire", [(PY, "            hash_function = 'sha256'\n            if hash_function not in digests:\n                hash_function = first_or_none(digests.keys())\n\n            if hash_function is not None and not resource.is_hash_valid(hash_function, digests[hash_function]):\n                raise InstallationException(f\"invalid hash for resource downloaded from {url}\")\n",
                             "            for hash_function, value in digests.items():\n                if hash_function == 'sha256' and not resource.is_hash_valid(hash_function, value):\n                    raise InstallationException(f\"invalid hash for resource downloaded from {url}\")\n")]))
