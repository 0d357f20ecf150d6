"""E05: names that come from downloaded content (archive members, file lists inside archives, entry points, URLs) never
decide in which directory the library writes.

Every place where the library writes is checked: when a path it writes to contains such a name, the path of execution that
leads there has established that the name stays below the directory it is joined to. Tar archives, whose links can redirect
later members, are only extracted with the standard library's 'data' filter."""
from ..common import *

OPENERS = {"tarfile.open", "tarfile.TarFile", "tarfile.TarFile.open"}
ZIPS = {"zipfile.ZipFile"}
EXTRACT = {"extractall", "extract"}
LISTS = {"namelist", "infolist", "getmembers", "getnames", "getinfo", "getmember"}
READS = {"read_text", "read_bytes", "read", "readline", "readlines", "load", "loads", "reader", "open"}
CLEAN_CALLS = {"hexdigest", "digest", "len", "iterdir", "glob", "rglob", "hash", "int", "bool", "exists", "is_dir", "is_file", "basename",
               "isinstance", "mkdtemp", "normalize_name", "normalize_src_package_name", "quote_plus"}
FILTERS = {"tarfile.data_filter"}
STARTERS = ("subprocess.run", "subprocess.Popen", "subprocess.call", "subprocess.check_call", "subprocess.check_output")
DESTROYS = {"shutil.rmtree": 0}


class NameRule(Rule):
    max_states = 4
    max_depth = 10
    term_depth = 22

    def __init__(self, ctx, root, inline, p, level):
        self.ctx, self.root, self.inline, self.p, self.level = ctx, root, inline, p, level
        self.sinks = self.tainted_sinks = self.extracts = 0
        self.extract_sites = set()

    def keep(self, lit, st, eng):
        return any(self.foreign(x, st, eng) is not None for x in lit[1:] if isinstance(x, tuple)) or None if lit[0] in ("isnone", "isinst") else \
            any(self.foreign(x, st, eng) is not None for x in lit[1:] if isinstance(x, tuple))

    def join_ps(self, a, b):
        return a[0] | b[0], a[1] & b[1]

    # ps: (frozenset of directories with extracted content, frozenset of terms proven to stay inside)
    def opaque(self, f):
        return not self.force_inline(f)

    def force_inline(self, f):
        return f.qual in self.inline or f.parent is not None and self.force_inline(f.parent)

    def can_raise(self, c):
        return False

    # ------------------------------------------------------------------ where names come from
    def foreign(self, t, st, eng):
        return next(iter(self.foreigns(t, st, eng)), None)

    def foreigns(self, t, st, eng, wrap=None) -> list:
        """the outermost loop elements or items (else the sources) that make t foreign, none when t is the program's own"""
        if not isinstance(t, tuple) or not t:
            return []
        k = t[0]
        if k in ("c", "g", "p", "unk", "new", "clos", "exc"):
            return []
        if k in ("elem", "other"):
            return self.foreigns(t[1], st, eng, wrap or t)
        if k == "a":
            ty = eng.type_of(t[1], st)
            q = ty[1].split(".")[-1] if ty and ty[0] in ("cls", "ext") else None
            if t[2] in ("name", "stem", "suffix") and (q == "Path" or self.listed(t[1])):
                return []
            if t[2] == "name" and q == "EntryPoint" or t[2] == "path" and q == "Url" or t[2] == "url" and q and "Version" in q:
                return [wrap or t]
            if q in ("PackageDescriptor", "Project", "Environment") or t[2] in ("package_name", "host", "interpreter_path"):
                return []
            return self.foreigns(t[1], st, eng, wrap)
        if k == "call":
            n = call_name(t)
            ops = ([t[2]] if t[2] is not None else []) + list(t[3]) + [v for _, v in t[4]]
            if n in CLEAN_CALLS:
                return []
            if n == "normpath" and t[3] and self.rooted(t[3][0]):
                return []
            if n in LISTS:
                return [wrap or t]
            if (n in READS or n and n.startswith(("load_", "read_"))) and any(self.in_extracted(x, st) for x in ops) and \
                    not (n == "load" and t[1][0] == "f"):
                return [wrap or t]
            return all_of(self.foreigns(x, st, eng, wrap) for x in ops)
        if k == "s" and t[2][0] == "c":
            return self.foreigns(t[1], st, eng, wrap or t)
        return all_of(self.foreigns(x, st, eng, wrap) for x in t if isinstance(x, tuple))

    def listed(self, t):
        """an element of a directory listing"""
        while t[0] in ("elem", "other", "s") or call_name(t) in ("list", "sorted", "tuple", "set", "reversed", "next") and t[3]:
            t = t[3][0] if t[0] == "call" else t[1]
        return call_name(t) in ("iterdir", "glob", "rglob")

    def rooted(self, t):
        while t[0] == "op" and t[1] == "+":
            t = t[2]
        return t[0] == "c" and isinstance(t[2], str) and t[2].startswith("/") or t[0] == "fstr" and bool(t[1]) and self.rooted(t[1][0])

    def in_extracted(self, t, st):
        return any(mentions(t, d) for d in st.ps[0])

    # ------------------------------------------------------------------ what has been established about a name
    def confined(self, atom, st, eng):
        if any(mentions(x, atom) for x in st.ps[1]):
            return True
        dots = absolute = False
        for lit, (pol, _) in st.facts.items():
            if not any(mentions(x, atom) for x in lit[1:] if isinstance(x, tuple)):
                continue
            if lit[0] == "in" and not pol and lit[1] in (const(".."), const(os_pardir)):
                dots = True
            if lit[0] == "in" and not pol and lit[1] in (const("/"), const(os_sep), ("g", "os.sep")):
                return True
            if lit[0] == "truthy" and lit[1][0] == "call":
                n = call_name(lit[1])
                if n == "is_absolute" and not pol:
                    absolute = True
                if n == "startswith" and not pol and lit[1][3] and lit[1][3][0] in (const("/"), ("g", "os.sep")):
                    absolute = True
                if n == "is_relative_to" and pol and any(call_name(x) in ("resolve", "realpath", "normpath") for x in subterms(lit[1])):
                    return True
                if n in ("fullmatch", "isidentifier", "isalnum") and pol:
                    return True
            if lit[0] == "eq" and pol:
                for a, b in ((lit[1], lit[2]), (lit[2], lit[1])):
                    if a[0] == "a" and a[2] == "name" and mentions(a, b) or call_name(a) == "basename" and mentions(a, b):
                        return True
            if lit[0] == "in" and pol and any(call_name(x) in ("resolve", "realpath", "normpath") for x in subterms(lit[2])) and \
                    any(x[0] == "a" and x[2] == "parents" for x in subterms(lit[2])):
                return True
        return dots and absolute

    def sink(self, path, what, c, st, eng):
        self.sinks += 1
        atoms = self.foreigns(path, st, eng)
        self.tainted_sinks += bool(atoms)
        for atom in atoms:
            if self.confined(atom, st, eng):
                continue
            self.ctx.finding("name-decides-directory", f"{c.fr.func.short}:{c.name}", f"{what} {show(path, 5)}: {show(atom, 4)} comes from downloaded "
                             "content and may lead to another directory", c.where, st.trace[-3:])

    def on_call(self, c, st, eng):
        if c.name in EXTRACT and c.recv is not None and c.func is None:
            return self.extraction(c, st, eng)
        if c.ext == "shutil.unpack_archive":
            self.extracts += 1
            self.extract_sites.add(c.loc)
            f = c.kwargs.get("filter")
            if f is None or f != const("data") and f not in [("g", x) for x in FILTERS]:
                self.ctx.finding("unfiltered-tar", c.fr.func.short, "an archive is unpacked without the 'data' filter", c.where)
            d = c.arg(1, "extract_dir")
            return Take(normal=[(NONE, st.with_ps((st.ps[0] | ({d} if d else set()), st.ps[1])))])
        if c.name == "relative_to" and c.recv is not None and c.func is None and \
                any(call_name(x) in ("resolve", "realpath", "normpath") for x in subterms(c.recv)):
            return Take(normal=[(c.term(), st.with_ps((st.ps[0], st.ps[1] | {c.recv})))], raises=[(("exc", "ValueError", None), st)])
        w = written_path(c)
        if w is not None:
            self.sink(w, f"{c.name} writes to", c, st, eng)
        if c.ext in DESTROYS and c.args:
            self.sink(c.args[0], "deletes", c, st, eng)
        if c.cls is not None or c.func is not None and c.func.name == "__init__":
            for a in c.all_args():
                x = strip_str(a)
                if x[0] == "op" and x[1] == "/" or call_name(x) in ("Path", "joinpath", "with_suffix"):
                    self.sink(x, f"{c.name} keeps the path", c, st, eng)
        if c.func is not None and c.func.qual in self.level and self.opaque(c.func) and not in_modules(c.func, "pkm.utils.processes"):
            for a in c.all_args():
                x = strip_str(a)
                if x[0] == "op" and x[1] == "/" or call_name(x) in ("Path", "joinpath", "join"):
                    self.sink(x, f"{c.name} is told to write to", c, st, eng)
        if c.ext in STARTERS or c.func is not None and c.func.name == "monitored_run" or c.name in ("clone",) and c.func is None and c.ext is None:
            for a in c.all_args():
                self.program_args(a, c, st, eng)
        return None

    def program_args(self, a, c, st, eng):
        """a path that the library made up with a foreign name and gives to a program"""
        items = [a]
        if a[0] == "cont":
            recs = st.heap.get(a)
            items = [el for el, _ in recs] if isinstance(recs, frozenset) else []
        for i in items:
            i = strip_str(i)
            if i[0] == "op" and i[1] == "/":
                self.sink(i, f"{c.name} is given", c, st, eng)

    def extraction(self, c, st, eng):
        r = c.recv
        tar = any(x[0] == "call" and x[1][1] in OPENERS for x in subterms(r)) or "Tar" in str(eng.type_of(r, st))
        zip_ = any(x[0] == "call" and x[1][1] in ZIPS for x in subterms(r)) or "ZipFile" in str(eng.type_of(r, st))
        if not (tar or zip_):
            if c.name == "extract":
                return None
            if r[0] == "p":
                return None    # judged where the archive is opened
        self.extracts += 1
        self.extract_sites.add(c.loc)
        d = c.kwargs.get("path") or c.arg(0 if c.name == "extractall" else 1)
        s = st.with_ps((st.ps[0] | ({d} if d is not None else set()), st.ps[1]))
        if tar or not zip_:
            f = c.kwargs.get("filter") or (c.args[3] if c.name == "extractall" and len(c.args) > 3 else None)
            pre = st.heap.get(("fld", r, "extraction_filter"))
            ok = any(x is not None and (x == const("data") or x in [("g", q) for q in FILTERS] or
                                        x[0] == "call" and x[3] and x[3][0] in [("g", q) for q in FILTERS]) for x in (f, pre if f is None else None))
            if not ok and c.name == "extract" and c.args:
                m = c.args[0]
                plain = any(l[0] == "truthy" and p and call_name(l[1]) in ("isfile", "isreg", "isdir") and l[1][2] == m for l, (p, _) in st.facts.items())
                ok = plain and self.confined(self.foreign(m, st, eng) or m, st, eng)
            if not ok:
                self.ctx.finding("unfiltered-tar", c.fr.func.short, f"{c.name} unpacks a tar archive without the 'data' filter: its members and links "
                                 "may lead out of the target directory", c.where)
        return Take(normal=[(NONE, s)])


os_pardir, os_sep = "..", "/"


def strip_str(t):
    while call_name(t) in ("str", "fspath", "absolute", "resolve") and (t[3] or t[2] is not None):
        t = t[3][0] if t[3] else t[2]
    return t


def all_of(it):
    return [y for x in it for y in x]


def joins(f):
    for n in ast.walk(f.node):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Div):
            return True
        if isinstance(n, ast.Call) and (dotted(n.func) or "").split(".")[-1] in ("joinpath", "join", "Path", "with_name"):
            return True
    return False


WRITERS = set(PATH_WRITES) | {x.split(".")[-1] for x in EXT_WRITES} | {"extractall", "extract", "clone", "rmtree", "monitored_run", "prepare"}


def writes(f):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
            if nm in WRITERS and not (nm == "replace" and len(n.args) == 2):
                return True
            if nm == "open":
                ms = n.args[:2] + [k.value for k in n.keywords if k.arg == "mode"]
                if any(isinstance(m, ast.Constant) and isinstance(m.value, str) and len(m.value) < 4 and set(m.value) & set("wax+") for m in ms):
                    return True
    return False


def sources(f, ti):
    """does f read a name that comes from downloaded content"""
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
            if nm in EXTRACT or nm in LISTS or nm in ("extract_archive", "unpack_archive") or resolve_name(f, n.func) in OPENERS | ZIPS:
                return True
        if isinstance(n, ast.Attribute) and n.attr in ("name", "path", "url") and isinstance(n.ctx, ast.Load):
            try:
                ty = ti.expr_type(n.value, f)
            except Exception:
                ty = None
            q = ty[1].split(".")[-1] if ty and ty[0] == "cls" else None
            if n.attr == "name" and q == "EntryPoint" or n.attr == "path" and q == "Url" or n.attr == "url" and q and "Version" in q:
                return True
    return False


def check(ctx):
    p = program()
    ti = types()
    ctx.rule("every write, deletion or program argument whose path contains a name taken from downloaded content (archive member, file "
             "list inside an archive, entry point, url) is reached only after the name was confined to its directory; tar archives "
             "are extracted with the 'data' filter")
    lib = library_functions(p)
    direct = {f.qual for f in lib if f.parent is None and writes(f)}
    roots = [f for f in lib if f.parent is None and sources(f, ti)]
    # helpers worth following: they write, or call (within two steps) something that writes
    level = set(direct)
    calls = {}
    for f in lib:
        if f.parent is None:
            out = set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    tg = ti.static_callee(n, f)
                    tg = p.find_method(tg, "__init__") if isinstance(tg, ClassInfo) else tg
                    if isinstance(tg, FuncInfo):
                        out.add(tg.qual)
            calls[f.qual] = out
    for _ in range(2):
        level |= {q for q, o in calls.items() if o & level}
    skip = ("pkm.utils.monitors", "pkm.api.versions", "pkm.api.dependencies", "pkm.config", "pkm.utils.hashes", "pkm.utils.processes", "pkm.resolution")
    sites = set()
    for f in roots:
        near = {g.qual for g in lib if g.parent is None and (
            g.module is f.module and (g.cls is None or g.cls is f.cls or g.cls.name[0] == "_") and small(g) and not g.is_contextmanager and
            (joins(g) or g.qual in level or any(isinstance(n, ast.Raise) for n in ast.walk(g.node))) or
            g is not f and f.module is g.module and bool(extracts(g)) or
            in_modules(g, "pkm.launchers", "pkm.utils.archives") or g.qual == "pkm.utils.files.temp_dir" or
            g.module is f.module and g.qual in calls.get(f.qual, ()) and (joins(g) and writes(g)))}
        r = NameRule(ctx, f.short, near, p, level)
        eng = Engine(r)
        eng.run(f, (frozenset(), frozenset()))
        ctx.analysed(eng)
        ctx.count("functions_judged")
        ctx.count("written_paths", r.sinks)
        ctx.count("written_paths_with_foreign_names", r.tainted_sinks)
        sites |= r.extract_sites
        if r.sinks:
            ctx.sample(f"{f.short}: {r.sinks} written paths, {r.tainted_sinks} with foreign names")
    # every extraction is seen with the archive it unpacks
    for f in lib:
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "extractall" or \
                    isinstance(n, ast.Call) and resolve_name(f, n.func) == "shutil.unpack_archive":
                ctx.count("extraction_sites")
                if f"{f.module.rel}:{n.lineno}" not in sites:
                    ctx.finding("unjudged-extraction", f.short, f"{f.short} unpacks an archive of unknown kind", f"{f.module.rel}:{n.lineno}")
    ctx.at_least("extraction_sites", 1)
    ctx.at_least("written_paths_with_foreign_names", 2)


def extracts(f):
    return [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in EXTRACT]


def small(f):
    return sum(isinstance(n, ast.stmt) for n in ast.walk(f.node)) <= 25
