"""I02: a downloaded archive is compared with its published digest before anybody gets it.

(1) Wherever the bytes of a fetched resource become an archive (what `_retrieve_artifact` returns, what a distribution is
constructed from), every path has either found `is_hash_valid` true for that very resource with a digest taken from where
the source publishes it (the artifact's record, the URL fragment), or found that no digest is published there.
(2) `is_hash_valid` says yes only if the given value equals the digest, by the given function, of the whole data file.
(3) New bytes never meet the digests remembered for old ones.  (4) What an index publishes reaches the artifact unabridged."""
from ..common import *
from .digest import DigestRule, _strip_case

KEYS = ("sha256", "md5", "sha512", "sha1", "digests", "hashes")
PARTS = ("partition", "rpartition", "split", "get", "search", "match", "fullmatch", "findall", "group", "groups", "parse_qs", "parse_qsl", "first_or_none", "single_or_none",
         "items", "keys", "values", "next", "iter", "lower", "strip", "lstrip", "rstrip", "str", "dict", "list", "tuple")


def source_of(t):
    """the published digest a term was taken from: ("fragment", owner) / ("key", name)"""
    for x in subterms(t):
        if x[0] == "a" and x[2] == "fragment":
            return ("fragment",)
        if x[0] == "s" and x[2][0] == "c" and x[2][2] in KEYS:
            return ("key", x[2][2])
        if x[0] == "call" and call_name(x) == "get" and x[3] and x[3][0][0] == "c" and x[3][0][2] in KEYS:
            return ("key", x[3][0][2])
    return None


def extracted(t):
    """a term that only takes the published value apart"""
    while True:
        if t[0] == "call" and call_name(t) in PARTS:
            inner = [y for y in ([t[2]] if t[2] is not None else []) + list(t[3]) if isinstance(y, tuple) and source_of(y)]
            if not inner:
                return source_of(t) is not None
            t = inner[0]
        elif t[0] in ("s", "elem", "a") and source_of(t[1]):
            t = t[1]
        else:
            return source_of(t) is not None and (t[0] in ("a", "s", "elem") or t[0] == "call" and call_name(t) in PARTS)


class Retrieve(Rule):
    max_states = 200
    max_depth = 5
    term_depth = 18
    keep_all_facts = True

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry
        self.seen = self.checked = 0
        self.passed, self.loops, self.found = set(), set(), []        # loops over digests that let one pass; all of them; archives handed out

    def can_raise(self, c):
        return False

    def opaque(self, f):
        return f.name in ("fetch_resource", "is_hash_valid", "_best_artifact_for", "best_artifact_for", "parse", "install_to") or in_modules(f, "pkm.utils.http", "pkm.utils.iterators")

    def on_property(self, c, st, eng):
        n = c.name.split(".")[-1]
        return Take(normal=[(("a", c.recv, n), st)])

    def on_call(self, c, st, eng):
        cls = c.cls
        p = program()
        if cls is not None and any(k.name in ("Distribution", "CondaDistribution") for k in p.mro(cls)) or c.name == "package_from":
            for a in c.all_args():
                if isinstance(a, tuple):
                    self.archive(a, st, c.where)
        return None

    def archive(self, t, st, where):
        for x in subterms(t):
            if x[0] == "a" and x[2] == "data" and call_name(x[1]) == "fetch_resource":
                self.seen += 1
                self.found.append((x[1], st, where))

    def report(self):
        for res, st, where in self.found:
            if not self.verified(res, st):
                self.ctx.finding("digest-unchecked", self.entry.short, f"{self.entry.short} hands out a downloaded archive although the digest published for it was not "
                                 "compared with the bytes", where)

    def verified(self, res, st):
        absent = set()
        if st.ps & (self.loops - self.passed):
            return True
        for l, (pol, _) in st.facts.items():
            x = l[1]
            if l[0] == "truthy" and pol and call_name(x) == "is_hash_valid" and x[2] == res and len(x[3]) == 2 and source_of(x[3][1]) and not mentions(x[3][1], res):
                self.checked += 1
                return True
            if (l[0] == "truthy" and not pol or l[0] == "isnone" and pol) and isinstance(x, tuple) and extracted(x):
                absent.add(source_of(x))
            if l[0] == "in" and not pol and source_of(l[1]) and any(a.startswith("algorithms") for y in subterms(l[2]) for a in [y[2] if y[0] == "a" else str(y[1]).split(".")[-1]]):
                absent.add(source_of(l[1]))
        if ("fragment",) in absent or ("key", "digests") in absent or ("key", "hashes") in absent:
            return True
        return {("key", "sha256"), ("key", "md5")} <= absent

    def on_iter_end(self, it, el, st, node, fr, eng, filtered):
        if source_of(el) and extracted(it if source_of(it) else el[1][0] if el[0] == "tup" and el[1] else el):
            self.loops.add(id(node))
            if not any(l[0] == "truthy" and pol and call_name(l[1]) == "is_hash_valid" and mentions(l[1], el[1][-1] if el[0] == "tup" else el)
                       for l, (pol, _) in st.facts.items()):
                self.passed.add(id(node))

    def on_iter_break(self, it, el, st, node, fr, eng):
        self.passed.add(id(node))

    def on_loop_done(self, it, st, node, fr, eng):
        return st.with_ps(st.ps | {id(node)})

    def judge(self, eng, o):
        if self.entry.name == "_retrieve_artifact":
            for t, st in o.ret:
                self.archive(t, st, f"{self.entry.module.rel}:{self.entry.node.lineno}")
        self.report()


# ---------------------------------------------------------------- (2) the comparison
class Compare(DigestRule):
    """a digest is computed over everything that is in the file, and remembered under the function that computed it"""
    max_states = 200
    term_depth = 20

    def __init__(self, ctx, f):
        super().__init__(ctx, f.short)
        self.f = f
        self.me, self.fn, self.value = (("p", f.qual, x) for x in f.params[:3])

    def on_property(self, c, st, eng):
        return Take(normal=[(("a", c.recv, c.name.split(".")[-1]), st)])

    def opaque(self, f):
        return in_modules(f, "pkm.config")

    def on_call(self, c, st, eng):
        n = c.name.split(".")[-1]
        if n in ("open", "read_bytes"):
            src = c.recv if n == "read_bytes" or c.recv is not None and not c.args[:1] or c.recv is not None and c.recv[0] == "a" else c.arg(0, "file")
            if src != ("a", self.me, "data"):
                self.ctx.finding("other-file", self.f.short, f"{self.f.short} reads something else than the data file", c.where)
        if n == "file_digest":
            return Take(normal=[(c.term(), st.with_ps(("done", None)))])
        return super().on_call(c, st, eng)

    def by_function(self, h):
        """a digest object of the function that was asked for"""
        h = h[2] if call_name(h) in ("hexdigest", "digest") else h
        return h is not None and h[0] == "call" and (call_name(h) in ("new", "file_digest") and self.fn in h[3] or any(
            call_name(x) == "getattr" and self.fn in x[3] for x in subterms(h)))

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        if kind == "sub" and base[0] == "a" and base[2] == "hash" and not (key == self.fn and self.digest(value)):
            self.ctx.finding("remembered-digest", self.f.short, f"{self.f.short} remembers something else than the digest under the function that computed it",
                             f"{fr.func.module.rel}:{node.lineno}")

    def digest(self, x):
        return call_name(x) == "hexdigest" and self.by_function(x)

    def remembered(self, x):
        return (call_name(x) == "get" and x[3] and x[3][0] == self.fn and x[2] is not None and "hash" in attrs_in(x[2]) or
                x[0] == "s" and x[2] == self.fn and "hash" in attrs_in(x[1]))

    def judge(self, eng, o):
        n = 0
        for t, st in o.ret:
            s = eng.assume(st, t, True)
            if s is None:
                continue
            n += 1
            pairs = [l[1:] for l, (pol, _) in s.facts.items() if l[0] == "eq" and pol] + \
                    [l[1][3] for l, (pol, _) in s.facts.items() if l[0] == "truthy" and pol and call_name(l[1]) == "compare_digest" and len(l[1][3]) == 2]
            if not any(_strip_case(a) == self.value and (self.digest(_strip_case(b)) or self.remembered(_strip_case(b)))
                       for x, y in pairs for a, b in ((x, y), (y, x))):
                self.ctx.finding("comparison", self.f.short, f"{self.f.short} may say that the digest is right without comparing the given value with the digest, "
                                 "by the given function, of the data file", self.f.where)
        return n


# ---------------------------------------------------------------- (3) new bytes
class Replace(Rule):
    """the file with the remembered digests is gone before the data file is written, and the new one starts without any"""
    max_states = 60

    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f
        self.me = ("p", f.qual, f.params[0])
        self.info, self.data = ("a", self.me, "fetch_info"), ("a", self.me, "data")
        self.writes = 0

    def can_raise(self, c):
        return False

    def keep(self, lit, st, eng):
        return any(isinstance(x, tuple) and mentions(x, self.info) for x in lit[1:])

    def opaque(self, f):
        return in_modules(f, "pkm.config", "pkm.utils.dates", "pkm.utils.files")

    def on_property(self, c, st, eng):
        return Take(normal=[(("a", c.recv, c.name.split(".")[-1]), st)])

    def gone(self, st):
        return "gone" in st.ps or any(l[0] == "truthy" and not pol and call_name(l[1]) in ("exists", "is_file") and l[1][2] == self.info
                                      for l, (pol, _) in st.facts.items())

    def on_call(self, c, st, eng):
        n = c.name.split(".")[-1]
        if n in ("unlink", "remove") and self.info in ([c.recv] if c.recv is not None else []) + list(c.args):
            return Take(normal=[(NONE, st.with_ps(st.ps | {"gone"}))])
        path = c.arg(0, "file") if n == "open" and c.recv in (None, ("g", "io"), ("g", "os")) else c.recv
        if path == self.data and (n in ("write_bytes", "write_text") or n == "open" and any(a[0] == "c" and isinstance(a[2], str) and set(a[2]) & set("wax+") for a in c.args)):
            self.writes += 1
            if not self.gone(st):
                self.ctx.finding("stale-digest", self.f.short, f"{self.f.short} writes new data while the digests remembered for the old data are still in place", c.where)
            return Take(normal=[(c.term(), st.with_ps(st.ps | {"written"}))])
        if n == "save" and "written" in st.ps and c.recv is not None and c.recv != self.me:
            fresh = c.recv[0] == "new" or c.recv[0] == "call" and (call_name(c.recv) or "")[:1].isupper()
            if not fresh:
                self.ctx.finding("stale-digest", self.f.short, f"{self.f.short} keeps a description of the old data for the new data", c.where)
        return None


# ---------------------------------------------------------------- (4) what the index says
CUTS = ("urldefrag", "split", "rsplit", "partition", "rpartition", "without_suffix", "removesuffix", "replace", "_replace", "urlsplit", "urlparse", "sub", "connection_part", "path")


class Describe(Rule):
    """the record of an artifact is the published one, or has the URL in full"""
    max_states = 40
    max_depth = 3
    term_depth = 14

    def __init__(self, ctx, f):
        self.ctx, self.f, self.n = ctx, f, 0

    def can_raise(self, c):
        return False

    def on_call(self, c, st, eng):
        if c.cls is None or not c.cls.name.endswith("Artifact"):
            return None
        fields = [f for f in c.cls.fields] if c.cls.fields else []
        names = [x for x in ("other_info", "info") if x in fields]
        if not names:
            return None
        i = fields.index(names[0])
        info = c.arg(i, names[0])
        if info is None:
            return None
        self.n += 1
        if info[0] == "c":
            return None
        if info[0] == "cont":
            items = {k[2][2]: v for k, v in st.heap.items() if isinstance(k, tuple) and k[0] == "item" and k[1] == info and k[2][0] == "c"}
            url = items.get("url")
            if url is None or any(call_name(x) in CUTS or x[0] == "s" and x[2][0] in ("op", "tup") or call_name(x) == "@slice" for x in subterms(url)):
                if not set(items) & {"digests", "hashes", "sha256"}:
                    self.ctx.finding("digest-dropped", self.f.short, f"{self.f.short} describes an artifact without the digest that was published for it", c.where)
        elif any(x[0] == "op" for x in subterms(info)):
            self.ctx.finding("digest-dropped", self.f.short, f"{self.f.short} describes an artifact with something else than the published record", c.where)
        return None


def check(ctx):
    p = program()
    ctx.rule("a fetched archive is handed on only after is_hash_valid was true for it with the published digest, or no digest was found where it would be published; "
             "is_hash_valid compares with the digest of the whole data file; remembered digests vanish before new data is written; records keep the digest")
    n = checked = 0
    for f in sorted(p.funcs.values(), key=lambda f: f.qual):
        if f.module.name.split(".")[0] not in LIBRARY or f.module.name.startswith("pkm.utils.http"):
            continue
        names = {x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", None) for x in walk_own(f.node) if isinstance(x, ast.Call)}
        if f.name == "_retrieve_artifact" and not f.is_abstract or "fetch_resource" in names and f.parent is None:
            r = Retrieve(ctx, f)
            eng = Engine(r)
            r.judge(eng, eng.run(f, frozenset()))
            ctx.analysed(eng)
            n += r.seen
            checked += bool(r.checked)
            ctx.count("retrievals_judged", bool(r.seen))
            ctx.count("archive_paths_judged", r.seen)
            if f.name == "_retrieve_artifact" and not r.seen:
                ctx.count("retrievals_without_download")
        if any(x and x.endswith("Artifact") for x in names):
            r = Describe(ctx, f)
            eng = Engine(r)
            eng.run(f, frozenset())
            ctx.analysed(eng)
            ctx.count("artifact_records_judged", r.n)
    ctx.at_least("retrievals_judged", 3)
    ctx.at_least("artifact_records_judged", 2)
    res = p.cls("pkm.utils.http.http_client.FetchedResource")
    ctx.need(res, "FetchedResource")
    f = res.methods.get("is_hash_valid")
    ctx.need(f, "FetchedResource.is_hash_valid")
    r = Compare(ctx, f)
    eng = Engine(r)
    ctx.count("true_answers_judged", r.judge(eng, eng.run(f, ("start", None))))
    ctx.analysed(eng)
    ctx.at_least("true_answers_judged", 1)
    for m in res.methods.values():
        r = Replace(ctx, m)
        if not m.params or m.is_static or m.is_classmethod:
            continue
        eng = Engine(r)
        eng.run(m, frozenset())
        ctx.analysed(eng)
        ctx.count("data_writes_judged", r.writes)
    ctx.at_least("data_writes_judged", 1)
