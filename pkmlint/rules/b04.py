"""B04: the source build cache.  Both entries of the cache are followed: what is read from the cache must come from a path that names
the package, its version, the markers of the environment and the content of the archive; what is built must be built from this archive
for this environment; what is put under a name that is read later must arrive there complete; and each entry returns what it promises."""
from fnmatch import fnmatch

from ..common import *

MOD = "pkm.build.source_build_cache"
COPY = {"shutil.copy", "shutil.copy2", "shutil.copyfile", "shutil.move", "shutil.copyfileobj"}


class Cache(Rule):
    """ps: frozenset of marks"""
    keep_all_facts = True
    max_states = 120
    term_depth = 24

    def __init__(self, an, f, kind):
        self.an, self.ctx, self.f, self.kind = an, an.ctx, f, kind
        ps = [n for n in f.params if n != f.params[0] or f.is_static]
        self.dist = next((("p", f.qual, n) for n in ps if "dist" in n), ("p", f.qual, ps[-1]))
        self.env = next(("p", f.qual, n) for n in ps if ("p", f.qual, n) != self.dist)
        self.archive = ("a", self.dist, "archive")
        self.owner = ("a", self.dist, "owner_package")

    def opaque(self, f):
        return f.module.name != MOD

    def force_inline(self, f):
        return f.module.name == MOD

    def can_raise(self, c):
        return c.name == "build_wheel"

    def on_property(self, c, st, eng):
        return Take(normal=[(("a", c.recv, c.name.split(".")[-1]), st)])

    # ---- terms
    def keyed(self, t, st):
        """what a path of the cache does not depend on"""
        subs = list(subterms(t))
        miss = []
        if not any(x[0] == "a" and x[2] == "name" and x[1] == self.owner for x in subs) and \
                not any(x == self.owner for x in subs if x[0] != "a"):
            miss.append("the package")
        if not any(x == ("a", self.owner, "version") for x in subs):
            miss.append("the version")
        if not any(x[0] == "a" and x[2] == "markers_hash" and self.env in set(subterms(x)) for x in subs):
            miss.append("the markers of the environment")
        if not any(x[0] == "call" and (call_name(x) in ("hexdigest", "digest") and x[2] is not None and
                                       (("hashed", x[2]) in st.ps or self.content(x[2])) or
                                       "hash" in str(x[1][1]) and self.archive in set(subterms(x))) for x in subs):
            miss.append("the content of the archive")
        return miss

    def canonical(self, t):
        """the same path, whichever entry it is used by"""
        if t == self.dist:
            return ("p", "", "dist")
        if t[:1] == ("p",):
            return ("p", "", t[2])
        if t[0] == "a" and t[2] == "markers_hash":
            return ("p", "", "markers")
        return tuple(self.canonical(x) if isinstance(x, tuple) and x else x for x in t)

    def in_cache(self, t):
        return any(x[0] == "a" and x[2] == "workspace" for x in subterms(t))

    def content(self, t):
        """something that has the content of the archive, not only its name, size or times"""
        if t == self.archive:
            return True
        if t[0] == "a" and t[1] == self.archive or t[0] == "call" and call_name(t) in (
                "str", "repr", "stat", "lstat", "as_posix", "as_uri", "fspath", "resolve", "absolute", "with_suffix", "with_name"):
            return False
        return any(self.content(x) if x and isinstance(x[0], str) else any(self.content(y) for y in x if isinstance(y, tuple) and y)
                   for x in t if isinstance(x, tuple) and x)

    def built(self, t):
        return any(x[0] == "call" and isinstance(x[1][1], str) and x[1][1].startswith("@built") for x in subterms(t))

    def known(self, t, st):
        return ("stored", t) in st.ps or ("stored", last(t)[0]) in st.ps or any(
            l[0] == "truthy" and pol and l[1][0] == "call" and call_name(l[1]) in ("exists", "is_file") and
            (l[1][2] == t or l[1][3][:1] == (t,)) for l, (pol, _) in st.facts.items())

    def found(self, t, st, where):
        """(a wheel that was looked up in the cache, it is certainly there)"""
        for x in subterms(t):
            if call_name(x) in ("glob", "iterdir", "rglob") and x[0] == "call" and x[2] is not None and self.in_cache(x[2]):
                self.require(x[2], st, where)
                sure = t[0] == "elem" or any(y[0] == "elem" for y in subterms(t)) or \
                    any(l == ("truthy", t) and pol or l == ("isnone", t) and not pol for l, (pol, _) in st.facts.items()) or \
                    call_name(t) in ("single_or_raise", "@sub")
                return True, sure
        return False, False

    def require(self, t, st, where):
        self.ctx.count("cache_paths")
        for m in self.keyed(t, st):
            self.ctx.finding("shared-cache-path", f"{self.f.short}:{m}", f"what is read from or put into the cache does not depend on {m}", where)

    # ---- events
    def written(self, src, dst, st, where, atomic):
        if not self.in_cache(dst):
            return st if src is None or not (self.built(src) or ("part", src) in st.ps) else st.with_ps(st.ps | {("part", dst)})
        self.ctx.count("files_put_into_the_cache")
        if src is None or not (self.built(src) or ("part", src) in st.ps):
            self.ctx.finding("not-built", self.f.short, "a file is put into the cache that does not come from the build", where)
        if not atomic:
            self.an.writes.append((self.canonical(dst), where, self.f))
            return st.with_ps(st.ps | {("part", dst), ("stored", dst)})
        return st.with_ps(frozenset(x for x in st.ps if x[1] != src) | {("stored", dst), ("part", dst)})

    def on_call(self, c, st, eng):
        n, where = c.name, c.where
        if n == "is_dir" and c.recv is not None and c.recv[0] == "call" and c.recv[1][1] in ("@built_meta", "@built_wheel"):
            return Take(normal=[(const(c.recv[1][1] == "@built_meta"), st)])
        if n == "is_file" and c.recv is not None and c.recv[0] == "call" and c.recv[1][1] in ("@built_meta", "@built_wheel"):
            return Take(normal=[(const(c.recv[1][1] != "@built_meta"), st)])
        if n == "build_wheel":
            return self.build(c, st, eng)
        if n == "exists" and c.recv is not None and self.built(c.recv):
            return None
        terms = [x for x in [c.recv] + list(c.args) + [v for _, v in sorted(c.kwargs.items())] if x is not None]
        # the archive is hashed
        if n in ("stream", "update") or (n or "").startswith("hash"):
            if any(self.content(x) for x in terms):
                st = st.with_ps(st.ps | {("hashed", x) for x in terms if self.archive not in set(subterms(x))})
                return Take(normal=[(c.term(), st)])
        if n == "extract_archive":
            ok = terms and self.archive in set(subterms(terms[0]))
            return Take(normal=[(c.term(), st.with_ps(st.ps | {("extracted" if ok else "other", x) for x in terms[1:]}))])
        if n == "glob" and c.recv is not None and self.in_cache(c.recv) and c.args and c.args[0][0] == "c":
            self.an.globs.add((self.canonical(c.recv), c.args[0][2]))
            return None
        if n in ("exists", "is_file") and c.recv is not None and self.in_cache(c.recv):
            self.an.reads.add(self.canonical(c.recv))
            return None
        if n == "load" and c.args and c.cls is None and "etadata" in str(c.fterm) + str(c.func):
            p = c.args[0]
            if self.in_cache(p):
                self.an.reads.add(self.canonical(p))
                self.require(p, st, where)
                if not self.known(p, st):
                    self.ctx.finding("not-there", self.f.short, "metadata is read from the cache without knowing that it is there", where)
            return Take(normal=[(("call", ("x", "@metadata"), None, (p,), ()), st)])
        if n == "extract_metadata" and c.recv is not None:
            src = c.recv
            return Take(normal=[(("call", ("x", "@metadata"), None, (src,), ()), st)])
        if c.cls is not None and c.cls.name == "WheelDistribution":
            return Take(normal=[(("call", ("x", "@wheel"), None, tuple(c.args), ()), st)])
        # writes
        if c.ext in COPY and len(c.args) >= 2:
            return Take(normal=[(c.args[1], self.written(c.args[0], c.args[1], st, where, False))])
        if c.ext in ("os.replace", "os.rename") and len(c.args) >= 2:
            return Take(normal=[(NONE, self.written(c.args[0], c.args[1], st, where, True))])
        if n in ("replace", "rename") and c.recv is not None and len(c.args) == 1:
            return Take(normal=[(c.args[0], self.written(c.recv, c.args[0], st, where, True))])
        if n == "save" and c.recv is not None and c.args:
            return Take(normal=[(NONE, self.written(c.recv, c.args[0], st, where, False))])
        if n in ("write_text", "write_bytes") and c.recv is not None and c.args:
            return Take(normal=[(c.term(), self.written(c.args[0], c.recv, st, where, False))])
        return None

    def build(self, c, st, eng):
        where = c.where
        self.ctx.count("builds")
        f = c.func
        names = f.params if f is not None else ["project", "target_dir", "only_meta", "editable", "target_env"]
        arg = {nm: c.arg(i, nm) for i, nm in enumerate(names)}
        project, meta = arg.get("project"), arg.get("only_meta")
        subs = set(subterms(project)) if project is not None else set()
        dirs = {x[1] for x in st.ps if x[0] == "extracted"}
        if not dirs & subs:
            self.ctx.finding("other-source", self.f.short, "what is built is not the content of the archive", where)
        if not any(x == self.owner for x in subs):
            self.ctx.finding("other-package", self.f.short, "the project that is built does not know which package it is", where)
        env = arg.get("target_env")
        if env is None or self.env not in set(subterms(env)):
            self.ctx.finding("other-environment", self.f.short, "the build is not made for the environment that asks", where)
        ed = arg.get("editable")
        if ed is not None and ed != const(False):
            self.ctx.finding("editable", self.f.short, "an editable build is kept in the cache", where)
        out = []
        for m in (True, False):
            s = st
            if meta is None:
                if m:
                    continue
            elif meta[0] == "c":
                if bool(meta[2]) != m:
                    continue
            else:
                s = eng.assume(st.copy(), meta, m)
                s = s[0] if isinstance(s, list) and s else s
                if not s:
                    continue
            if m and self.kind == "wheel":
                self.ctx.finding("only-metadata", self.f.short, "only metadata is built for a request for a wheel", where)
            out.append((("call", ("x", "@built_meta" if m else "@built_wheel"), None, (), ()), s))
        if any(t[1][1] == "@built_meta" for t, _ in out):
            self.an.metas.append((where, self.f))
            if ("failed", NONE) not in st.ps:
                return Take(normal=out, raises=[(("exc", None, None), st.with_ps(st.ps | {("failed", NONE)}))])
        elif ("failed", NONE) in st.ps:
            self.an.fallback = True
        return Take(normal=out, raises=[(("exc", None, None), st)])

    def returned(self, t, st):
        where = self.f.where
        self.ctx.count("results")
        if t[0] == "phi":
            for x in t[1]:
                self.returned(x, st)
            return
        if self.kind == "metadata":
            if t[0] == "call" and t[1] == ("x", "@metadata") and (
                    self.built(t) or any(("part", x) in st.ps or ("stored", x) in st.ps for x in subterms(t)) or self.in_cache(t)):
                return
            self.ctx.finding("not-metadata", self.f.short, "a request for metadata can be answered with something else", where)
        else:
            if (("stored", t) in st.ps or ("stored", last(t)[0]) in st.ps) and self.in_cache(t) and not (t[0] == "op" and t[3] == const("METADATA")):
                self.require(t, st, where)
                return
            hit, sure = self.found(t, st, where)
            if hit and sure:
                return
            self.ctx.finding("not-a-cached-wheel", self.f.short, "a request for a wheel can be answered with something that is not a "
                             "wheel in the cache", where)


def last(t):
    """(directory, last component) of a path"""
    if t[0] == "op" and t[1] == "/":
        return t[2], t[3]
    if t[0] == "call" and call_name(t) == "with_name" and t[2] is not None:
        return last(t[2])[0], t[3][0]
    if t[0] == "call" and call_name(t) == "with_suffix" and t[2] is not None and t[3]:
        return last(t[2])[0], ("fstr", (const("x"), t[3][0]))
    if t[0] == "call" and call_name(t) == "joinpath" and t[2] is not None and len(t[3]) == 1:
        return t[2], t[3][0]
    return None, t


class Analysis:
    def __init__(self, ctx):
        self.ctx = ctx
        self.reads, self.globs, self.writes, self.metas, self.fallback = set(), set(), [], [], False


def visible(an, dst):
    d, n = last(dst)
    tail = n[2] if n[0] == "c" else None
    if tail is None:
        if n[0] == "fstr" and n[1] and n[1][-1][0] == "c" and isinstance(n[1][-1][2], str):
            tail = "x" + n[1][-1][2]
        elif n[0] == "op" and n[1] == "+" and n[3][0] == "c":
            tail = "x" + str(n[3][2])
    if any(p == dst or last(p) == (d, n) for p in an.reads):
        return True
    for g, pat in an.globs:
        if (g == d or d is None) and (tail is None or fnmatch(tail, pat)):
            return True
    return False


def check(ctx):
    p = program()
    cls = next((c for c in p.classes.values() if c.module.name == MOD and c.name == "SourceBuildCache"), None)
    ctx.need(cls, "the source build cache")
    an = Analysis(ctx)
    for name, kind in (("get_or_build_wheel", "wheel"), ("get_or_build_meta", "metadata")):
        f = cls.methods.get(name)
        ctx.need(f, name)
        rule = Cache(an, f, kind)
        eng = Engine(rule, p)
        out = eng.run(f, frozenset(), self_cls=cls.qual)
        ctx.analysed(eng)
        for t, s in out.ret:
            rule.returned(t, s)
        for s in out.normal:
            rule.returned(NONE, s)
    if an.metas and not an.fallback:
        where, f = an.metas[0]
        ctx.finding("no-fallback", f.short, "when the build backend cannot build metadata alone the metadata is not taken from a wheel", where)
    for dst, where, f in an.writes:
        if visible(an, dst):
            ctx.finding("half-written", f.short, "a file is copied or written to a name under which the cache is read: after an "
                        "interruption the incomplete file counts as cached", where)
