M = "utils/http/mfd_payload.py"
Y = "repositories/pypi_repository.py"
P = "api/projects/project.py"
I = "utils/io_streams.py"
CLOSE = """        yield f"--{self._boundary}--\\r\\n".encode()
"""
HEADS = """            yield boundary
            yield field.render().encode()
"""
SEEK = """                if payload.seekable():
                    payload.seek(0)  # the body is iterated again when its request is retried
"""
STR = """            elif isinstance(payload, str):
                yield payload.encode()
"""
BYTES = """            elif isinstance(payload, bytes):
                yield payload
"""
NL = """            yield newline

"""
BOUND = """        boundary = f"--{self._boundary}\\r\\n".encode()
"""
STREAM = """                yield from chunks(payload, chunk_size)
"""
LOOP = """        for distribution in distributions_dir.iterdir():
            if distribution.is_file():
                publisher.publish(auth_args, metadata, distribution)
"""
FIELDS = """            if isinstance(v, (Tuple, List)):
                for iv in v:
                    fields.append(FormField(k, iv))
            else:
                fields.append(FormField(k, v))
"""
FLOOP = """        for k, v in data.items():
""" + FIELDS
DATA = """        data = {k.replace('-', '_').lower(): v for k, v in package_meta.to_config().items()}
"""
HASH = """            for chunk in chunks(d_fd):
                md5.update(chunk)
                sha256.update(chunk)
                blake2.update(chunk)
"""
STATUS = """                if response.status != 200:
                    content = response.read()
                    raise HttpException(f"publish failed, server responded with {response.status}, {content}")
"""
PART = """            if sz == chunk_size:
                yield chunk
            else:
                yield memoryview(chunk)[:sz]
"""
CONTENT = """            fields.append(FormField('content', d_fd, filename=distribution.name)
                          .set_content_type("application/octet-stream"))
"""
VARIANTS = [
    ("no closing boundary", "fire", [(M, CLOSE, "")]),
    ("closing without dashes", "fire", [(M, CLOSE, CLOSE.replace("}--", "}"))]),
    ("closing only with fields", "fire", [(M, CLOSE, "        if len(self._fields) > 1:\n    " + CLOSE)]),
    ("no rewind", "fire", [(M, SEEK, "")]),
    ("rewind to here", "fire", [(M, SEEK, SEEK.replace("seek(0)", "seek(payload.tell())"))]),
    ("rewind relative", "fire", [(M, SEEK, SEEK.replace("seek(0)", "seek(0, io.SEEK_CUR)"))]),
    ("no newline", "fire", [(M, NL, "\n")]),
    ("newline only after text", "fire", [(M, NL, "            if not isinstance(payload, IOBase):\n                yield newline\n\n")]),
    ("bare newline", "fire", [(M, 'newline = b"\\r\\n"', 'newline = b"\\n"')]),
    ("swapped", "fire", [(M, HEADS, "".join(reversed(HEADS.splitlines(True))))]),
    ("no header", "fire", [(M, HEADS, HEADS.splitlines(True)[0])]),
    ("no delimiter", "fire", [(M, HEADS, HEADS.splitlines(True)[1])]),
    ("bytes not sent", "fire", [(M, BYTES, BYTES.replace("yield payload", "pass"))]),
    ("empty skipped", "fire", [(M, HEADS, "            if not field.payload:\n                continue\n" + HEADS)]),
    ("stops at file", "fire", [(M, STREAM, STREAM + "                break\n")]),
    ("boundary of its own", "fire", [(M, BOUND, BOUND.replace("self._boundary", "uuid4().hex"))]),
    ("one chunk", "fire", [(M, STREAM, "                yield payload.read(0)\n")]),
    ("wheels only", "fire", [(P, LOOP, LOOP.replace("distribution.is_file()", "distribution.suffix == '.whl'"))]),
    ("first only", "fire", [(P, LOOP, LOOP + "                break\n")]),
    ("small files skipped", "fire", [(P, LOOP, LOOP.replace("is_file()", "is_file() and distribution.stat().st_size > 1024"))]),
    ("failures swallowed", "fire", [(P, LOOP, LOOP.replace("""                publisher.publish(auth_args, metadata, distribution)
""", """                try:
                    publisher.publish(auth_args, metadata, distribution)
                except Exception as e:
                    print(f"could not publish {distribution}: {e}")
"""))]),
    ("lists dropped", "fire", [(Y, FIELDS, FIELDS.replace("fields.append(FormField(k, iv))", "pass"))]),
    ("first of list", "fire", [(Y, FIELDS, FIELDS.replace("fields.append(FormField(k, iv))", "fields.append(FormField(k, iv))\n                    break"))]),
    ("scalars dropped", "fire", [(Y, FIELDS, FIELDS.split("            else:")[0])]),
    ("long values dropped", "fire", [(Y, FIELDS, FIELDS.replace("            else:", "            elif len(v) < 4096:"))]),
    ("wrong name", "fire", [(Y, FIELDS, FIELDS.replace("FormField(k, v)", "FormField('description', v)"))]),
    ("description left out", "fire", [(Y, DATA, DATA.replace("items()}", "items() if k != 'Description'}"))]),
    ("wrong alg", "fire", [(Y, "'sha256_digest': sha256.hexdigest()", "'sha256_digest': md5.hexdigest()")]),
    ("digest of nothing", "fire", [(Y, HASH, HASH.replace("                sha256.update(chunk)\n", ""))]),
    ("first chunk only", "fire", [(Y, HASH, HASH + "                break\n")]),
    ("last chunk dropped", "fire", [(Y, HASH, HASH.replace("                sha256.update(chunk)\n", "                if len(chunk) == 8192:\n                    sha256.update(chunk)\n"))]),
    ("digest of the name", "fire", [(Y, HASH, HASH.replace("                sha256.update(chunk)\n", "").replace("            for chunk", "            sha256.update(distribution.name.encode())\n            for chunk"))]),
    ("no status check", "fire", [(Y, STATUS, "                response.read()\n")]),
    ("server errors only", "fire", [(Y, STATUS, STATUS.replace("!= 200", ">= 500"))]),
    ("conflict accepted", "fire", [(Y, STATUS, STATUS.replace("!= 200", "not in (200, 409)"))]),
    ("refusal printed", "fire", [(Y, STATUS, STATUS.replace("raise HttpException(", "print("))]),
    ("content under other name", "fire", [(Y, CONTENT, CONTENT.replace("'content'", "'file'"))]),
    ("no content", "fire", [(Y, CONTENT, "")]),
    ("content of wheels", "fire", [(Y, CONTENT, "            if file_type == 'bdist_wheel':\n" + "".join("    " + l for l in CONTENT.splitlines(True)))]),
    ("whole buffer", "fire", [(I, PART, "            yield chunk\n")]),
    ("whole buffer unless small", "fire", [(I, PART, PART.replace("sz == chunk_size", "sz * 2 > chunk_size"))]),

    ("helper for headers", "quiet", [(M, HEADS, "            yield from self._start(field)\n"), (M, "    def __iter__(self)", "    def _start(self, field):\n        yield f\"--{self._boundary}\\r\\n\".encode()\n        yield field.render().encode()\n\n    def __iter__(self)")]),
    ("concatenated", "quiet", [(M, HEADS, "            yield boundary + field.render().encode()\n")]),
    ("dash constant", "quiet", [(M, "class MultipartFormDataPayload", "_DASHES = \"--\"\n\n\nclass MultipartFormDataPayload"), (M, CLOSE, CLOSE.replace('f"--{self._boundary}--', 'f"{_DASHES}{self._boundary}{_DASHES}'))]),
    ("closing by bytes", "quiet", [(M, CLOSE, '        yield b"--" + self._boundary.encode() + b"--" + newline\n')]),
    ("closing from boundary line", "quiet", [(M, CLOSE, '        closing = "--" + self._boundary + "--\\r\\n"\n        yield closing.encode("ascii")\n')]),
    ("payload helper", "quiet", [(M, STREAM, "                yield from self._stream(payload)\n"), (M, SEEK, ""), (M, "    def __iter__(self)", "    def _stream(self, payload):\n        if payload.seekable():\n            payload.seek(0)\n        yield from chunks(payload, self._chunk_size)\n\n    def __iter__(self)")]),
    ("seek always", "quiet", [(M, SEEK, "                payload.seek(0)\n")]),
    ("stream loop", "quiet", [(M, STREAM, "                for c in chunks(payload, chunk_size):\n                    yield c\n")]),
    ("read loop", "quiet", [(M, STREAM, "                while part := payload.read(chunk_size):\n                    yield part\n")]),
    ("early raise", "quiet", [(M, HEADS, "            if not isinstance(field.payload, (IOBase, str, bytes)):\n                raise ValueError(field.name)\n" + HEADS)]),
    ("normalised payload", "quiet", [(M, STR, "            elif isinstance(payload, str):\n                data = payload.encode('utf-8')\n                yield data\n")]),
    ("sorted files", "quiet", [(P, LOOP, LOOP.replace("distributions_dir.iterdir()", "sorted(distributions_dir.iterdir())"))]),
    ("listed files", "quiet", [(P, LOOP, """        files = [it for it in distributions_dir.iterdir() if it.is_file()]
        for file in files:
            publisher.publish(auth_args, metadata, file)
""")]),
    ("early continue", "quiet", [(P, LOOP, LOOP.replace("""            if distribution.is_file():
                publisher""", """            if not distribution.is_file():
                continue
            publisher"""))]),
    ("metadata in place", "quiet", [(P, LOOP, LOOP.replace("metadata,", "PackageMetadata.from_project_config(self._pyproject.project),"))]),
    ("values listed", "quiet", [(Y, FLOOP, """        for k, v in data.items():
            values = v if isinstance(v, (tuple, list)) else [v]
            for value in values:
                fields.append(FormField(k, value))
""")]),
    ("extend", "quiet", [(Y, FIELDS, FIELDS.replace("""                for iv in v:
                    fields.append(FormField(k, iv))
""", """                fields.extend(FormField(k, iv) for iv in v)
"""))]),
    ("fields helper", "quiet", [(Y, FLOOP, "        fields.extend(_form_fields(data))\n"), (Y, "# https://warehouse.pypa.io/api-reference/legacy.html\n", """def _form_fields(data):
    result = []
    for k, v in data.items():
        if isinstance(v, (tuple, list)):
            for iv in v:
                result.append(FormField(k, iv))
        else:
            result.append(FormField(k, v))
    return result


# https://warehouse.pypa.io/api-reference/legacy.html
""")]),
    ("fields generator", "quiet", [(Y, FLOOP, "        fields.extend(_form_fields(data))\n"), (Y, "# https://warehouse.pypa.io/api-reference/legacy.html\n", """def _form_fields(data):
    for k, v in data.items():
        if isinstance(v, (tuple, list)):
            for iv in v:
                yield FormField(k, iv)
        else:
            yield FormField(k, v)


# https://warehouse.pypa.io/api-reference/legacy.html
""")]),
    ("data loop", "quiet", [(Y, DATA, """        data = {}
        for key, value in package_meta.to_config().items():
            data[key.replace('-', '_').lower()] = value
""")]),
    ("digest tuple loop", "quiet", [(Y, HASH, """            for chunk in chunks(d_fd):
                for digest in (md5, sha256, blake2):
                    digest.update(chunk)
""")]),
    ("digest of bytes", "quiet", [(Y, HASH, """            content = d_fd.read()
            md5.update(content)
            sha256.update(content)
            blake2.update(content)
""")]),
    ("digest at once", "quiet", [(Y, "'sha256_digest': sha256.hexdigest()", "'sha256_digest': hashlib.sha256(distribution.read_bytes()).hexdigest()")]),
    ("digest helper", "quiet", [(Y, HASH, "            _hash_all(d_fd, md5, sha256, blake2)\n"), (Y, "# https://warehouse.pypa.io/api-reference/legacy.html\n", """def _hash_all(fd, md5, sha256, blake2):
    for chunk in chunks(fd):
        md5.update(chunk)
        sha256.update(chunk)
        blake2.update(chunk)


# https://warehouse.pypa.io/api-reference/legacy.html
""")]),
    ("digests stored singly", "quiet", [(Y, "            'md5_digest': md5.hexdigest(),\n", ""), (Y, "        fields: List[FormField] = []\n", "        data['md5_digest'] = md5.hexdigest()\n\n        fields: List[FormField] = []\n")]),
    ("status in", "quiet", [(Y, STATUS, STATUS.replace("!= 200", "not in (200, 201)"))]),
    ("status range", "quiet", [(Y, STATUS, STATUS.replace("response.status != 200", "not 200 <= response.status < 300"))]),
    ("status >= 300", "quiet", [(Y, STATUS, STATUS.replace("!= 200", ">= 300"))]),
    ("early return", "quiet", [(Y, STATUS, """                if response.status == 200:
                    return

                content = response.read()
                raise HttpException(f"publish failed, server responded with {response.status}, {content}")
""")]),
    ("status helper", "quiet", [(Y, STATUS, "                self._validate(response)\n"), (Y, "    def publish(self, auth_args", """    def _validate(self, response):
        if response.status != 200:
            raise HttpException(f"publish failed, server responded with {response.status}, {response.read()}")

    def publish(self, auth_args""")]),
    ("content variable", "quiet", [(Y, CONTENT, """            content_field = FormField('content', d_fd, filename=distribution.name)
            content_field.set_content_type("application/octet-stream")
            fields.append(content_field)
""")]),
    ("content first", "quiet", [(Y, CONTENT, CONTENT.replace("fields.append(FormField(", "fields.insert(0, FormField("))]),
    ("always sliced", "quiet", [(I, PART, "            yield memoryview(chunk)[:sz]\n")]),
    ("conditional expression", "quiet", [(I, PART, "            yield chunk if sz == chunk_size else memoryview(chunk)[:sz]\n")]),
    ("reversed test", "quiet", [(I, PART, """            if sz < len(chunk):
                yield memoryview(chunk)[:sz]
            else:
                yield chunk
""")]),
]
