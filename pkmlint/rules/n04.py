"""N04: publishing sends every distribution whole and with all its metadata, or fails.  (1) Every file of the distributions
directory is handed to the publisher together with the metadata of the project.  (2) Every metadata item becomes a form field
of that name, the digests are those of all chunks of the published file, the file itself is a field, and only an answer with a
success status lets the publisher return.  (3) The form body, followed as a text grammar over the values its generator yields,
delimits every field, holds its payload, ends with the closing boundary, and is the same when it is produced again."""
import re

from ..common import *
from .b02 import Flow, parts

PUB = "pkm.repositories.pypi_repository.PyPiPublisher.publish"
MFD = "pkm.utils.http.mfd_payload.MultipartFormDataPayload"
FIELD = "pkm.utils.http.mfd_payload.FormField"
ALGS = ("md5", "sha256", "blake2", "sha1", "sha512", "sha384", "sha224")


class Distributions(Flow):
    def __init__(self, ctx, f):
        super().__init__(ctx, f)
        self.published = 0

    def opaque(self, f):
        return f.name in ("publish", "from_project_config") and f is not self.f

    def relevant(self, it, el, st):
        return any(call_name(x) in ("iterdir", "glob", "rglob", "listdir", "scandir") for x in subterms(el))

    def on_call(self, c, st, eng):
        if c.name != "publish" or c.func is self.f:
            return None
        meta, dist = c.arg(1, "package_meta"), c.arg(2, "distribution")
        self.published += 1
        if meta is None or call_name(meta) != "from_project_config" or not any(x[0] == "a" and x[2] == "project" for a in meta[3] for x in subterms(a)):
            self.ctx.finding("metadata-lost", self.f.short, f"{self.f.short} publishes a distribution with {show(meta) if meta else 'no metadata'}", c.where, st.trace[-3:])
        return Take(normal=[(c.term(), self.mark(st, dist))], raises=[(("exc", None, None), st)])

    def exempt(self, it, el, st):
        return any(l[0] == "truthy" and (call_name(l[1]) == "is_file" and not pol or call_name(l[1]) == "is_dir" and pol) and mentions(l[1], el)
                   for l, (pol, _) in st.facts.items())


class Form(Flow):
    """the fields of the upload form"""
    max_states = 120
    unroll_literals = True

    def __init__(self, ctx, f):
        super().__init__(ctx, f)
        self.meta, self.dist = ("p", f.qual, f.params[2]), ("p", f.qual, f.params[3])
        self.digests, self.hashed, self.chunk_loops = {}, {}, 0
        self.posts = self.fields = 0

    def opaque(self, f):
        return f.name in ("chunks", "to_config", "_guess_content_type", "post", "_request", "as_header", "content_type")

    def force_inline(self, f):
        return f.module is self.f.module or f.qual.startswith(FIELD) or f.qual.startswith(MFD + ".__init__")

    # ps: Flow's stack; its first entry carries the events
    def events(self, st):
        return st.ps[0][0][1]

    def event(self, st, x):
        return st.with_ps(((("c", self.events(st) | {x}, 0), True),) + st.ps[1:])

    def file(self, t):
        """what is read is the published file, opened for reading its bytes"""
        return not any(call_name(x) in ("hexdigest", "digest") for x in subterms(t)) and any(x[0] == "call" and call_name(x) in ("open", "read_bytes") and any(mentions(y, self.dist) for y in ([x[2]] if x[2] is not None else []) + list(x[3]))
                   for x in subterms(t))

    def is_chunk(self, el):
        return el[0] == "elem" and self.file(el)

    def relevant(self, it, el, st):
        ps = parts(el)
        if any(mentions(p, self.meta) for p in ps):
            return True
        return len(ps) == 2 and ps[0][0] == "c"

    def on_iter_end(self, it, el, st, node, fr, eng, filtered):
        if len(st.ps) < 2:
            return None
        if self.is_chunk(el):
            self.chunk_loops += 1
            done = {r for k, r, e in (x for x in self.events(st) if x[0] == "upd") if e == el}
            for r in set(self.hashed) | done:
                self.hashed.setdefault(r, True)
                if r not in done and not filtered or filtered:
                    self.hashed[r] = False
            for r in self.hashed:
                if r not in done:
                    self.hashed[r] = False
            st = st.with_ps(((("c", frozenset(x for x in self.events(st) if x[0] != "upd"), 0), True),) + st.ps[1:])
        r = super().on_iter_end(it, el, st, node, fr, eng, filtered)
        return r if r is not None else st

    def on_iter_break(self, it, el, st, node, fr, eng):
        if self.is_chunk(el):
            for r in self.hashed:
                self.hashed[r] = False
        return super().on_iter_break(it, el, st, node, fr, eng)

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        if kind != "sub" or value is None:
            return None
        for el, _ in st.ps[1:]:
            ps = parts(el)
            if len(ps) == 2 and mentions(ps[0], self.meta) and (value == ps[1] or mentions(value, ps[1])) and not mentions(key, ps[0]):
                self.wrong(f"puts a metadata item under the name {show(key)}", st, f"{fr.func.module.rel}:{node.lineno}")
        if key[0] == "c" and isinstance(key[2], str) and key[2].endswith("_digest"):
            self.digests[key[2]] = (value, f"{fr.func.module.rel}:{node.lineno}")
        return self.mark(st, value)

    def wrong(self, what, st, where):
        self.ctx.finding("metadata-lost", self.f.short, f"{self.f.short} {what}", where, st.trace[-3:])

    def on_call(self, c, st, eng):
        if c.name == "update" and c.args and c.recv is not None and c.recv[0] == "call" and any(a in (call_name(c.recv) or "") for a in ALGS + ("new",)):
            for el, _ in st.ps[1:]:
                if c.args[0] == el:
                    return Take(normal=[(NONE, self.event(st, ("upd", c.recv, el)))])
            if self.file(c.args[0]):
                self.hashed.setdefault(c.recv, True)
            return Take(normal=[(NONE, st)])
        if c.cls is not None and c.cls.qual == FIELD:
            self.fields += 1
            name, payload = c.arg(0, "name"), c.arg(1, "payload")
            if name is None or payload is None:
                return None
            for el, _ in st.ps[1:]:
                ps = parts(el)
                if len(ps) == 2 and (payload == ps[1] or payload[0] == "elem" and payload[1] == ps[1]) and not mentions(name, ps[0]):
                    self.wrong(f"sends a metadata item under the name {show(name)}", st, c.where)
            if self.file(payload):
                if name != ("c", "str", "content"):
                    self.wrong(f"sends the file under the name {show(name)}", st, c.where)
        if c.name == "post":
            self.posts += 1
            body = c.arg(1, "payload")
            flds = st.heap.get(("fld", body, "_fields")) if body is not None else None
            ok = False
            if flds is not None:
                for x in flds[1] if flds[0] == "phi" else (flds,):
                    items = st.heap.get(x)
                    for e, _ in items if isinstance(items, frozenset) else ():
                        p = st.heap.get(("fld", e, "payload"))
                        if p is not None and any(self.file(y) for y in (p[1] if p[0] == "phi" else (p,))):
                            ok = True
            if not ok:
                self.ctx.finding("content-lost", self.f.short, f"{self.f.short} sends a form that does not hold the file", c.where, st.trace[-3:])
            return Take(normal=[(c.term(), self.event(st, ("post",)))])
        return None

    def success(self, st):
        for l, (pol, _) in st.facts.items():
            ts = [x for x in l[1:] if isinstance(x, tuple)]
            if not any(self.is_status(t) for t in ts):
                continue
            nums = []
            for t in ts:
                if t[0] == "c":
                    nums.append(t[2])
                elif t[0] == "tup":
                    nums += [x[2] for x in t[1] if x[0] == "c"]
                elif isinstance(st.heap.get(t), frozenset):
                    nums += [x[2] for x, _ in st.heap[t] if x[0] == "c"]
                elif call_name(t) == "range":
                    nums += [x[2] - (i > 0) for i, x in enumerate(t[3]) if x[0] == "c"]
            if l[0] in ("eq", "in") and pol and nums and all(isinstance(n, int) and 200 <= n < 300 for n in nums):
                return True
            if l[0] in ("lt", "le", "gt", "ge") and nums in ([299], [300]):
                # status < 300 or not (status >= 300), in either order of the operands
                less = l[0] in ("lt", "le") if self.is_status(ts[0]) else l[0] in ("gt", "ge")
                if less == bool(pol):
                    return True
            if l[0] == "eq" and pol and nums == [2] and any(t[0] == "op" and t[1] == "//" and t[3] == ("c", "int", 100) for t in ts):
                return True
        return False

    def is_status(self, t):
        if t[0] == "op" and t[1] == "//":
            t = t[2]
        return t[0] == "a" and t[2] in ("status", "code") or call_name(t) == "getcode"

    def judge(self, out):
        f = self.f.short
        self.report("metadata-lost", "a metadata item")
        if not self.posts:
            self.ctx.finding("content-lost", f, f"{f} sends nothing", self.f.where)
        for t, st in out.ret:
            self.ctx.count("returns")
            if ("post",) not in self.events(st):
                self.ctx.finding("content-lost", f, f"{f} can return without having sent anything", self.f.where, st.trace[-3:])
            elif not self.success(st):
                self.ctx.finding("refusal-ignored", f, f"{f} can return although the index did not answer with a success status", self.f.where, st.trace[-3:])
        for key, (v, where) in self.digests.items():
            alg = next((a for a in ALGS if key.startswith(a)), None)
            h = v[2] if v[0] == "call" and call_name(v) == "hexdigest" else None
            self.ctx.count("digests")
            names = {call_name(x) or "" for x in subterms(v)} | {str(x[2]) for x in subterms(v) if x[0] == "c"}
            if alg is not None and not any(alg in n for n in names):
                self.ctx.finding("wrong-digest", f, f"{f} sends {show(v)} as {key}", where)
            elif h is not None and h in self.hashed and not self.hashed[h]:
                self.ctx.finding("wrong-digest", f, f"{f} sends a {key} that does not cover the whole file", where)
            elif h is not None and h not in self.hashed and not self.file(h):
                self.ctx.finding("wrong-digest", f, f"{f} sends a {key} of something else than the file", where)


BOUNDARY, HEAD, BODY, START, PART = "\u03b2", "\u03b7", "\u03c0", "\u03c3", "\u03c1"


class Body(Rule):
    keep_all_facts = True
    term_depth = 22
    max_states = 200

    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f
        s = ("p", f.qual, f.params[0])
        self.boundary, self.flds = ("a", s, "_boundary"), ("a", s, "_fields")
        self.texts, self.fields = {}, 0

    # ps: (field visited or None, text so far, the stream was taken to its start)
    def can_raise(self, c):
        return False

    def opaque(self, f):
        return f.name in ("chunks", "render")

    def force_inline(self, f):
        return f.module is self.f.module

    def is_payload(self, t, el):
        return t == ("a", el, "payload")

    def text(self, t, el, st):
        if t == self.boundary:
            return BOUNDARY
        if t[0] == "c":
            return t[2].decode("latin1") if isinstance(t[2], bytes) else str(t[2])
        if t[0] == "fstr":
            return "".join(self.text(x, el, st) for x in t[1])
        if t[0] == "op" and t[1] == "+":
            return self.text(t[2], el, st) + self.text(t[3], el, st)
        if call_name(t) in ("encode", "bytes", "str", "decode"):
            return self.text(t[2] if t[2] is not None and t[2][0] != "g" else t[3][0], el, st)
        if call_name(t) == "render":
            return HEAD if t[2] == el else "?"
        if call_name(t) == "join" and t[3]:
            items = t[3][0][1] if t[3][0][0] == "tup" else None
            if items is not None:
                return self.text(t[2], el, st).join(self.text(x, el, st) for x in items)
        if el is not None and call_name(t) in ("read", "read1") and t[2] == ("a", el, "payload") and t[3]:
            return PART     # some of it, of which the next reading brings more
        if el is not None and (self.is_payload(t, el) or mentions(t, ("a", el, "payload"))):
            return BODY
        if t[0] == "g":
            mod, _, n = t[1].rpartition(".")
            m = program().modules.get(mod)
            node = m.globals.get(n) if m is not None else None
            if isinstance(node, ast.Constant):
                return self.text(("c", "", node.value), el, st)
        return "?"

    def on_suspend(self, value, st, eng):
        el, s, start = st.ps
        s = (s + self.text(value, el, st))[-300:]
        s = re.sub(f"{START}?{BODY}+", BODY, s)
        s = re.sub(f"{START}{PART}", "", s)
        return st.with_ps((el, s, start))

    def on_iter(self, it, el, st, node, fr, eng):
        if it == self.flds:
            self.fields += 1
            if st.ps[0] is None and st.ps[1]:
                self.texts.setdefault(("before", st.ps[1]), st.trace[-3:])
            return st.with_ps((el, "", False))

    def on_iter_end(self, it, el, st, node, fr, eng, filtered):
        if el == st.ps[0]:
            self.texts.setdefault(("field", "" if filtered else st.ps[1]), st.trace[-3:])
            return st.with_ps((None, "", False))

    def on_iter_break(self, it, el, st, node, fr, eng):
        if el == st.ps[0]:
            self.texts.setdefault(("field", "<cut>"), st.trace[-3:])
            return st.with_ps((None, "", False))

    def on_call(self, c, st, eng):
        el, s, start = st.ps
        if el is None:
            return None
        p = ("a", el, "payload")
        if c.name == "seek" and c.recv == p:
            return Take(normal=[(c.term(), st.with_ps((el, s, c.arg(0, "offset") == ("c", "int", 0) and len(c.args) < 2 or start)))])
        if c.name in ("chunks", "read", "readinto", "copyfileobj") and (c.recv == p or p in c.args):
            ok = start or any(l[0] == "truthy" and not pol and call_name(l[1]) == "seekable" and l[1][2] == p for l, (pol, _) in st.facts.items())
            if not ok:
                self.ctx.finding("truncated-retry", self.f.short, f"{self.f.short} sends a stream from wherever it stands: nothing is left of it when the request is "
                                 "tried again", c.where, st.trace[-3:])
            return Take(normal=[(c.term(), st.with_ps((el, re.sub(f"{START}+", START, s + START), start)))])
        return None

    def judge(self, out):
        f = self.f.short
        tails = {st.ps[1]: st for t, st in list(out.ret) + [(None, s) for s in getattr(out, "normal", ())]}
        fields = {s: tr for (k, s), tr in self.texts.items() if k == "field"}
        before = {s for (k, s) in self.texts if k == "before"} or {""}
        for s, tr in fields.items():
            self.ctx.count("field_forms")
            m = re.fullmatch(f"(?P<pre>.*){HEAD}(?:{BODY}|{START})(?P<post>.*)", s, re.S)
            if m is None or "?" in s:
                self.ctx.finding("content-lost", f, f"{f} can send a field as {self.pretty(s)}, without its header or its payload", self.f.where, tr)
                continue
            pre, post = m.group("pre"), m.group("post")
            first = {b + pre for b in before}
            if post + pre != f"\r\n--{BOUNDARY}\r\n" or not all(x.endswith(f"--{BOUNDARY}\r\n") for x in first):
                self.ctx.finding("content-lost", f, f"{f} does not delimit its fields by the boundary: {self.pretty(s)}", self.f.where, tr)
                continue
            for t, st in tails.items():
                self.ctx.count("endings")
                if not re.fullmatch(f"\r\n--{BOUNDARY}--(\r\n)?", post + t):
                    self.ctx.finding("content-lost", f, f"{f} can end the form with {self.pretty(post + t)} instead of the closing boundary", self.f.where, st.trace[-3:])

    def pretty(self, s):
        return repr(s.replace(BOUNDARY, "<boundary>").replace(HEAD, "<header>").replace(BODY, "<payload>").replace(START, ""))


class Chunks(Rule):
    """what is yielded of a stream is what was read last"""
    keep_all_facts = True

    def __init__(self, ctx, f):
        self.ctx, self.f, self.yields = ctx, f, 0

    def can_raise(self, c):
        return False

    def on_suspend(self, value, st, eng):
        self.yields += 1
        self.ctx.count("chunks_yielded")
        reads = [x for x in subterms(value) if call_name(x) in ("read", "readinto", "read1")]
        buf = value[0] == "call" and call_name(value) in ("bytearray", "memoryview") or value[0] == "cont"
        if buf and not any(l[0] == "eq" and pol and any(isinstance(y, tuple) and call_name(y) == "readinto" for y in l[1:])
                           or l[0] == "lt" and not pol and call_name(l[1]) == "readinto" and (l[2][0] == "p" or call_name(l[2]) == "len")
                           for l, (pol, _) in st.facts.items()):
            self.ctx.finding("content-changed", self.f.short, f"{self.f.short} yields its whole buffer although less may have been read", self.f.where, st.trace[-3:])
        elif not buf and not reads:
            self.ctx.finding("content-changed", self.f.short, f"{self.f.short} yields {show(value)}, which is not what was read", self.f.where, st.trace[-3:])


def check(ctx):
    p = program()
    ctx.rule("every distribution file is published with the metadata of its project; every metadata item, the digests of the whole file and the file are fields of the form; "
             "publishing returns only after a success status")
    ctx.rule("the form body delimits each field by the boundary, holds its payload, ends with the closing boundary and starts every stream anew")

    def run(r, f, ps):
        eng = Engine(r)
        out = eng.run(f, ps)
        ctx.analysed(eng)
        return out
    f = p.funcs.get("pkm.api.projects.project.Project.publish")
    ctx.need(f, "Project.publish")
    d = Distributions(ctx, f)
    run(d, f, ())
    d.report("content-lost", "a distribution")
    if not d.published or not d.seen:
        ctx.finding("content-lost", f.short, f"{f.short} does not publish the distributions", f.where)

    f = p.funcs.get(PUB)
    ctx.need(f is not None and len(f.params) > 3, PUB)
    m = Form(ctx, f)
    out = run(m, f, ((("c", frozenset(), 0), True),))
    ctx.need(m.fields or ctx.findings, "the fields of the form")
    if not m.seen:
        ctx.finding("metadata-lost", f.short, f"{f.short} does not send the metadata", f.where)
    m.judge(out)

    c = p.cls(MFD)
    f = c.methods.get("__iter__") if c is not None else None
    ctx.need(f, MFD + ".__iter__")
    b = Body(ctx, f)
    out = run(b, f, (None, "", False))
    if not b.fields:
        ctx.finding("content-lost", f.short, f"{f.short} does not visit the fields", f.where)
    b.judge(out)
    f = p.funcs.get("pkm.utils.io_streams.chunks")
    if f is not None:
        k = Chunks(ctx, f)
        run(k, f, None)
    ctx.at_least("field_forms", 1 if not ctx.findings else 0)
    ctx.sample(f"{len(b.texts)} forms of a field; digests {', '.join(sorted(m.digests))}")
