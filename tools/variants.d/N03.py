H = "utils/http/http_client.py"
Y = "repositories/pypi_repository.py"
A = "pkm-cli/src/pkm_cli/auth/publish_auth_store.py"
C = "pkm-cli/src/pkm_cli/controllers/prj_controller.py"
M = "pkm-cli/src/pkm_cli/main2.py"
P = "api/projects/project.py"
AU = "utils/http/auth.py"
HD = """            headers = dict([
                BasicAuthentication(**auth_args).as_header(),
                ("Content-Type", payload.content_type()),
            ])
"""
POST = """            with self._http.post(f"{self._publish_url}/", payload, headers=headers,
                                 max_redirects=0) as response:
"""
FAIL = "                    raise HttpException(f\"publish failed, server responded with {response.status}, {content}\")\n"
SAVE = "        configuration_path.write_bytes(self._cipher.encrypt(configuration_str.encode()))\n"
LOOP = "        while num_connection_retries < self._max_connection_retries and num_redirects_performed <= max_redirects:\n"
PUB = "                publisher.publish(auth_args, metadata, distribution)\n"
VARIANTS = [
    ("headers helper", "quiet", [(Y, HD, "            headers = self._headers(auth_args, payload)\n"), (Y, "    def publish(self, auth_args", """    def _headers(self, credentials, payload):
        name, value = BasicAuthentication(**credentials).as_header()
        return {name: value, "Content-Type": payload.content_type()}

    def publish(self, auth_args""")]),
    ("renamed", "quiet", [(Y, "def publish(self, auth_args: Dict", "def publish(self, login: Dict"), (Y, "BasicAuthentication(**auth_args)", "BasicAuthentication(**login)")]),
    ("explicit fields", "quiet", [(Y, "BasicAuthentication(**auth_args)", "BasicAuthentication(auth_args['username'], auth_args['password'])")]),
    ("url local", "quiet", [(Y, POST, POST.replace('f"{self._publish_url}/"', 'url').replace("            with", "            url = self._publish_url + '/'\n            with", 1))]),
    ("send helper", "quiet", [(Y, POST, "            with self._send(payload, headers) as response:\n"), (Y, "    def publish(self, auth_args", """    def _send(self, payload, headers):
        return self._http.post(f"{self._publish_url}/", payload, headers=headers, max_redirects=0)

    def publish(self, auth_args""")]),
    ("save local", "quiet", [(A, SAVE, "        content = self._cipher.encrypt(configuration_str.encode())\n        with configuration_path.open('wb') as out:\n            out.write(content)\n")]),
    ("serialize helper", "quiet", [(A, SAVE, "        configuration_path.write_bytes(self._encrypted(configuration_str))\n"), (A, "    def _save(self):", "    def _encrypted(self, text):\n        return self._cipher.encrypt(text.encode())\n\n    def _save(self):")]),
    ("loop counted", "quiet", [(H, LOOP, "        while num_redirects_performed <= max_redirects and num_connection_retries < self._max_connection_retries:\n")]),
    ("loop strict", "quiet", [(H, LOOP, "        while num_connection_retries < self._max_connection_retries and not num_redirects_performed > max_redirects:\n")]),
    ("print target", "quiet", [(Y, "        print(f\"uploading distribution: {distribution}\")", "        print(f\"uploading distribution: {distribution} to {self._publish_url}\")")]),
    ("print who", "quiet", [(C, "        project.publish(publisher, requested_auth_params)\n", "        Display.print(f'publishing with {len(requested_auth_params)} parameters')\n        project.publish(publisher, requested_auth_params)\n")]),
    ("print args", "fire", [(Y, "        print(f\"uploading distribution: {distribution}\")", "        print(f\"uploading distribution: {distribution} using {auth_args}\")")]),
    ("display args", "fire", [(C, "        project.publish(publisher, requested_auth_params)\n", "        Display.print(f'publishing as {requested_auth_params}')\n        project.publish(publisher, requested_auth_params)\n")]),
    ("error headers", "fire", [(Y, FAIL, FAIL.replace("{content}", "{content} (request: {headers})"))]),
    ("plain store", "fire", [(A, SAVE, "        configuration_path.write_bytes(configuration_str.encode())\n")]),
    ("backup store", "fire", [(A, SAVE, SAVE + "        configuration_path.with_suffix('.bak').write_text(configuration_str)\n")]),
    ("kept key", "fire", [(A, "            self._cipher = _make_cipher(password)\n            self._unlocked_configuration = {}\n", "            self._cipher = _make_cipher(password)\n            self.configuration_path.with_suffix('.key').write_text(password)\n            self._unlocked_configuration = {}\n")]),
    ("redirects", "fire", [(Y, POST, POST.replace(",\n                                 max_redirects=0", ""))]),
    ("one redirect", "fire", [(Y, POST, POST.replace("max_redirects=0", "max_redirects=1"))]),
    ("off by one", "fire", [(H, LOOP, LOOP.replace("num_redirects_performed <= max_redirects", "num_redirects_performed <= max_redirects + 1"))]),
    ("zero is default", "fire", [(H, "        max_redirects = self._max_redirects if max_redirects < 0 else max_redirects\n", "        max_redirects = self._max_redirects if max_redirects <= 0 else max_redirects\n")]),
    ("or default", "fire", [(H, "        max_redirects = self._max_redirects if max_redirects < 0 else max_redirects\n", "        max_redirects = max_redirects or self._max_redirects\n")]),
    ("post drops", "fire", [(H, "        with self._request(\"POST\", url, headers, payload, max_redirects=max_redirects) as response:", "        with self._request(\"POST\", url, headers, payload) as response:")]),
    ("not counted", "fire", [(H, "                            num_redirects_performed += 1\n", "                            num_redirects_performed += int(url.host != (Url.parse(response.headers.get('Location', '')).host or url.host))\n")]),
    ("metadata url", "fire", [(Y, POST, POST.replace('f"{self._publish_url}/"', "package_meta.home_page or self._publish_url"))]),
    ("program", "fire", [(P, PUB, PUB + "                subprocess.run(['logger', str(auth_args)])\n"), (P, "from pathlib import Path\n", "import subprocess\nfrom pathlib import Path\n")]),
    ("environ", "fire", [(P, PUB, "                os.environ['PKM_AUTH'] = str(auth_args)\n" + PUB), (P, "from pathlib import Path\n", "import os\nfrom pathlib import Path\n")]),
    ("header message", "fire", [(AU, "        return 'Authorization',", "        print('using', self.username, self.password)\n        return 'Authorization',")]),
    ("saved plain", "fire", [(M, "            publish_auth.add_auth_args(args.repo, auth_args)", "            publish_auth.configuration_path.write_text(str(auth_args))")]),
]
