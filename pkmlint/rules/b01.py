"""B01: built archives are complete and signed last.  (1) Signing records every file it is given, under its path relative to
the root, with a hash of that file.  (2) When a wheel is assembled, everything under the build directory was signed and the
signatures were saved, nothing but the RECORD changed since, and nothing under the build directory is left out.  (3) The
content itself is complete: every package directory of the project is copied (or linked, for editable builds), or the build
fails.  (4) A source distribution holds everything that was prepared for it."""
from ..common import *

MOD = "pkm.build.pkm_builders"
RECORDS = "pkm.api.distributions.distinfo.RecordsFileConfiguration"
CHANGES = {"write", "write_text", "write_bytes", "save", "copy", "copy2", "copyfile", "copytree", "copy_tree", "mkdir", "touch", "unlink", "rename", "replace",
           "rmtree", "symlink_to", "move", "makedirs", "writestr", "extractall", "rmdir", "link", "symlink", "writelines"}
FILES = {"wheel": {"METADATA", "WHEEL", "entry_points.txt"}, "sdist": {"PKG-INFO", "pyproject.toml"}}
CACHES = ("__pycache__", "*.pyc", "*.pyo", "*.py[co]", "*.py[cod]")


def span(n):
    return (getattr(n, "lineno", 0), getattr(n, "end_lineno", 0) or 0, getattr(n, "col_offset", 0))


def tree_of(t, deep=True):
    """the directory whose whole content is listed by t"""
    if t[0] == "call":
        if t[1][0] == "x" and len(t[3]) >= 1 and call_name(t) in ("list", "sorted", "tuple", "set", "iter", "reversed"):
            return tree_of(t[3][0], deep)
        n, pat = call_name(t), [a[2] for a in t[3] if a[0] == "c"]
        if t[2] is not None and (n == "rglob" and pat == ["*"] or n == "glob" and pat in (["**/*"], ["**"])):
            return t[2]
        if not deep and t[2] is not None and (n == "glob" and pat == ["*"] or n == "iterdir"):
            return t[2]
    return None


class Listing:
    """tree_of for terms that went through a list"""

    def listed(self, t, st, deep=True):
        r = tree_of(t, deep)
        if r is not None:
            return r
        if t[0] == "call" and t[1][0] == "x" and len(t[3]) >= 1 and call_name(t) in ("list", "sorted", "tuple", "set", "iter", "reversed"):
            return self.listed(t[3][0], st, deep)
        items = st.heap.get(t)
        if isinstance(items, frozenset) and len(items) == 1:
            (e, facts), = items
            if e[0] == "elem" and not any(mentions(l, e) and not self.harmless(l, pol, e) for l, pol in facts):
                return self.listed(e[1], st, deep)
        return None

    def harmless(self, l, pol, el):
        """a condition that only leaves out what is no file"""
        x = l[1] if len(l) > 1 and isinstance(l[1], tuple) else None
        return x is not None and x[0] == "call" and x[2] == el and (call_name(x) == "is_dir" and (l[0] == "truthy") != pol or call_name(x) in (
            "is_file", "exists") and (l[0] == "truthy") == pol)

    def no_file(self, el, st):
        """known to be no (existing) file"""
        for l, (pol, _) in st.facts.items():
            x = l[1] if len(l) > 1 and isinstance(l[1], tuple) else None
            if x is not None and x[0] == "call" and x[2] == el and l[0] == "truthy" and (call_name(x) == "is_dir" and pol or call_name(x) in (
                    "is_file", "exists") and not pol):
                return True
        return False


class Sign(Rule, Listing):
    """every file that is given gets its record"""
    keep_all_facts = True
    term_depth = 20

    def __init__(self, ctx, f, records):
        self.ctx, self.f, self.records = ctx, f, records
        self.files, self.root = ("p", f.qual, "files"), ("p", f.qual, "root")
        self.skips, self.loops = [], set()

    def opaque(self, f):
        return f.name in ("path_to",) or f.cls is not None and f.cls.name == "HashSignature"

    def force_inline(self, f):
        return f.name == "get_or_compute" or f.cls is not None and f.cls.qual == RECORDS

    def can_raise(self, c):
        return False

    def el(self):
        return ("elem", self.files)

    def on_iter(self, it, el, st, node, fr, eng):
        if it == self.files:
            return st.with_ps((span(node), False))

    def on_add(self, cont, value, st, node, fr, eng):
        if value is None or value[0] != "new" or not value[1].endswith(".Record"):
            return None
        self.ctx.count("records_made")
        where, el = f"{fr.func.module.rel}:{node.lineno}", self.el()
        if not mentions_root(cont, ("p", self.f.qual, "self")):
            self.ctx.finding("record-lost", self.f.short, f"{self.f.short} puts the signatures elsewhere than into its records", where, st.trace[-3:])
        get = lambda n: st.heap.get(("fld", value, n))
        path, h, size = get("file"), get("hash_signature"), get("length")
        if path is None or not (mentions(path, el) and mentions(path, self.root)):
            self.ctx.finding("wrong-record", self.f.short, f"{self.f.short} records {show(path) if path else 'nothing'} instead of the path of the file "
                             "relative to the root", where, st.trace[-3:])
        if size is None or not mentions(size, el):
            self.ctx.finding("wrong-record", self.f.short, f"{self.f.short} records a size that is not that of the file", where, st.trace[-3:])
        if h is not None and h[0] == "s":       # (a hash that was given)
            ok = h[2] == path
        else:
            ok = h is not None and (call_name(h) or "").startswith("compute") and el in h[3]
        if not ok:
            self.ctx.finding("wrong-record", self.f.short, f"{self.f.short} records the signature {show(h) if h else 'nothing'}, which is not that of the file",
                             where, st.trace[-3:])
        if st.ps is None:
            return None
        self.loops.add(st.ps[0])
        return st.with_ps((st.ps[0], True))

    def on_iter_end(self, it, el, st, node, fr, eng, filtered):
        if it == self.files and st.ps and not st.ps[1] and not self.no_file(el, st):
            self.skips.append((span(node), f"{fr.func.module.rel}:{node.lineno}" if hasattr(node, "lineno") else fr.func.where, tuple(st.trace[-3:])))

    def on_iter_break(self, it, el, st, node, fr, eng):
        if it == self.files:
            self.skips.append((span(node), fr.func.where, tuple(st.trace[-3:])))


def mentions_root(t, root):
    return any(x == root for x in subterms(t))


class Build(Rule, Listing):
    keep_all_facts = True
    term_depth = 24
    max_states = 100

    # ps: (signed root, saved, archived root, current element dealt with, current package dealt with, packages in place, files in place)
    def __init__(self, ctx, f, kind):
        self.ctx, self.f, self.kind = ctx, f, kind
        self.archiving, self.skips = set(), []
        self.copying, self.linking, self.package_skips = set(), 0, []
        self.archived = self.second = False
        self.known = {}

    def start(self):
        return (None, None, None, (None, False), (None, False), False, frozenset())

    def opaque(self, f):
        return f.cls is not None and f.cls.name in ("Environment", "ProjectConfig", "Project", "WheelFileConfiguration", "PackageMetadata", "PthLink",
                                                    "EntrypointsConfiguration", "RecordsFileConfiguration", "ProjectDirectories", "WheelDistribution") or \
            f.name in ("temp_dir", "load_record_cfg", "load_entrypoints_cfg") or f.cls is not None and f.cls.name == "VersionSpecifier"

    def force_inline(self, f):
        return f.module.name.startswith("pkm.build.pkm_builders") or f.cls is not None and f.cls.name == "DistInfo"

    def can_raise(self, c):
        return False

    def where(self, node, fr):
        return f"{fr.func.module.rel}:{getattr(node, 'lineno', 0)}"

    def path(self, t, st):
        """the place an object stands for"""
        for x in subterms(t):
            r = st.heap.get(("fld", x, "path"))
            if r is not None:
                yield r
        yield t

    def under(self, t, root, st):
        return any(mentions_root(p, root) for p in self.path(t, st))

    def is_record(self, t, st):
        return t is not None and any(x[0] == "c" and x[2] == "RECORD" or call_name(x) in ("load_record_cfg", "record_path") for x in subterms(t))

    def src_package(self, el):
        return el[0] == "elem" and any(x[0] == "a" and x[2] == "src_packages" for x in subterms(el[1]))

    def finding(self, kind, msg, where, st):
        self.ctx.finding(kind, self.f.short, f"{self.f.short} {msg}", where, st.trace[-3:])

    def on_iter(self, it, el, st, node, fr, eng):
        s = st.ps
        if self.listed(it, st, self.kind == "wheel") is not None:
            return st.with_ps(s[:3] + ((span(node), False),) + s[4:])
        if self.src_package(el):
            return st.with_ps(s[:4] + ((span(node), False),) + s[5:])

    def on_iter_end(self, it, el, st, node, fr, eng, filtered):
        if self.listed(it, st, self.kind == "wheel") is not None and not st.ps[3][1] and not self.no_file(el, st):
            self.skips.append((span(node), self.where(node, fr), tuple(st.trace[-3:])))
        if self.src_package(el) and not st.ps[4][1]:
            self.package_skips.append((span(node), self.where(node, fr), tuple(st.trace[-3:])))

    def on_iter_break(self, it, el, st, node, fr, eng):
        if self.listed(it, st, self.kind == "wheel") is not None:
            self.skips.append((span(node), self.where(node, fr), tuple(st.trace[-3:])))
        if self.src_package(el):
            self.package_skips.append((span(node), self.where(node, fr), tuple(st.trace[-3:])))

    def on_loop_done(self, it, st, node, fr, eng):
        root = self.listed(it, st, self.kind == "wheel")
        if root is not None:
            self.known[it] = root
        root = root or self.known.get(it)       # (also when nothing was found)
        if root is not None and span(node) in self.archiving:
            return self.archive(root, st, self.where(node, fr))
        if span(node) in self.copying:
            return st.with_ps(st.ps[:5] + (True,) + st.ps[6:])
        return None

    def archive(self, root, st, where):
        s = st.ps
        if not self.second:
            return None
        if self.kind == "wheel":
            if s[0] != root:
                self.finding("unsigned", "assembles the archive although its content was not signed", where, st)
            elif not s[1]:
                self.finding("unsigned", "assembles the archive before the signatures of its content are saved in it", where, st)
        if not s[5]:
            self.finding("file-left-out", "assembles the archive before the packages of the project are in place", where, st)
        for n in sorted(FILES[self.kind] - s[6]):
            self.finding("file-left-out", f"assembles the archive without its {n} in place", where, st)
        self.archived = True
        return st.with_ps(s[:2] + (root,) + s[3:])

    def on_add(self, cont, value, st, node, fr, eng):
        # collections of package directories (for links) are judged where they are used
        if value is not None:
            for x in subterms(value):
                if self.src_package(x):
                    return st.with_ps(st.ps[:4] + ((st.ps[4][0], True),) + st.ps[5:])

    def on_call(self, c, st, eng):
        s = st.ps
        args = c.all_args()
        if self.kind == "wheel" and c.name in ("sign_recursive", "sign_files"):
            self.ctx.count("signings")
            root = args[-1] if c.name == "sign_files" and len(args) > 1 else args[0] if args else None
            if c.name == "sign_files":
                root = c.arg(1, "root") or root
                if self.listed(c.arg(0, "files"), st) != root:
                    self.finding("file-not-signed", f"signs {show(c.arg(0, 'files'))}, which need not be everything in the wheel", c.where, st)
            if len(args) > (2 if c.name == "sign_files" else 1) and args[-1] not in (NONE,):
                self.finding("file-not-signed", "takes signatures over from elsewhere", c.where, st)
            if not self.is_record(c.recv, st):
                self.finding("file-not-signed", f"puts the signatures into {show(c.recv)}", c.where, st)
            return Take(normal=[(c.recv if c.recv is not None else c.term(), st.with_ps((root, False) + s[2:]))])
        if c.name == "save" and self.is_record(c.recv, st) or self.is_record(written_path(c) or ("c", "int", 0), st):
            if s[0] is not None and c.recv is not None and self.under(c.recv, s[0], st):
                return Take(normal=[(c.term(), st.with_ps((s[0], True) + s[2:]))])
            return None
        if c.name in ("write", "writestr", "add") and c.func is None and args and args[0][0] == "elem":
            el = args[0]
            root = self.listed(el[1], st, self.kind == "wheel")
            if root is not None:
                self.ctx.count("archive_entries")
                self.archiving.add(s[3][0])
                arc = c.arg(1, "arcname")
                if arc is None or not below(arc, el, root, self.kind == "wheel"):
                    self.finding("misplaced", f"puts the files under {show(arc) if arc else 'their own paths'} instead of their place in the build directory",
                                 c.where, st)
                if any(k in ("filter", "exclude") for k in c.kwargs) or c.arg(2, "recursive") == FALSE and self.kind == "sdist":
                    self.finding("file-left-out", "leaves files out of the archive", c.where, st)
                return Take(normal=[(c.term(), st.with_ps(s[:3] + ((s[3][0], True),) + s[4:]))])
            if any(call_name(x) in ("glob", "rglob", "iterdir") for x in subterms(el)):
                self.finding("file-left-out", f"archives {show(el[1])} only", c.where, st)
        if self.kind == "sdist" and c.name == "add" and c.func is None and len(args) > 1 and args[0][0] == "op" and written_path(c) is None:
            self.ctx.count("archive_entries")
            if any(k in ("filter", "exclude") for k in c.kwargs) or c.arg(2, "recursive") == FALSE:
                self.finding("file-left-out", "leaves files out of the archive", c.where, st)
            st2 = self.archive(args[0], st, c.where)
            return Take(normal=[(c.term(), st2 or st)])
        if c.name == "make_archive" and c.ext is not None:
            root = c.arg(2, "root_dir")
            if root is not None:
                self.ctx.count("archive_entries")
                st2 = self.archive(root, st, c.where)
                return Take(normal=[(c.term(), st2)]) if st2 is not None else None
        if c.name in ("copytree", "copy_tree") and args and args[0][0] == "elem" and self.src_package(args[0]):
            self.ctx.count("packages_copied")
            self.copying.add(s[4][0])
            ig = c.arg(3, "ignore") if c.ext == "shutil.copytree" else c.kwargs.get("ignore")
            if ig is not None and ig != NONE and not (call_name(ig) == "ignore_patterns" and all(a[0] == "c" and a[2] in CACHES for a in ig[3])):
                self.finding("file-left-out", f"leaves out the files of a package that match {show(ig)}", c.where, st)
            dst = c.arg(1, "dst")
            if dst is None or not mentions(dst, args[0]):
                self.finding("misplaced", "copies a package to a place that does not bear its name", c.where, st)
            return self.change(c, st.with_ps(s[:4] + ((s[4][0], True),) + s[5:]), eng)
        if c.cls is not None and c.cls.name == "PthLink":
            self.ctx.count("links_made")
            links = c.arg(1, "links")
            if links is None or not self.all_packages(links, st):
                self.finding("file-left-out", f"links {show(links) if links else 'nothing'}, which need not be all packages of the project", c.where, st)
            return None
        if c.name == "save" and c.func is not None and c.func.cls is not None and c.func.cls.name == "PthLink":
            return Take(normal=[(c.term(), self.after(c, st.with_ps(s[:5] + (True,) + s[6:])))])
        return self.change(c, st, eng)

    def change(self, c, st, eng):
        s = st.ps
        if s[0] is not None and c.name in CHANGES:
            ts = [t for t in [c.recv] + list(c.all_args()) if t is not None]
            if c.name in ("mkdir",) and not any(t for t in ts if self.under(t, s[0], st)):
                return None
            if any(self.under(t, s[0], st) for t in ts) and not (c.name == "write" and any(t[0] == "elem" for t in ts)):
                w = written_path(c)
                if not (w is not None and not self.under(w, s[0], st)) and not (c.name == "replace" and c.recv is not None and len(ts) > 2):
                    self.finding("changed-after-signing", f"changes {show(w if w is not None else ts[0])} after the content was signed", c.where, st)
        st = self.after(c, st)
        if st.ps != s or c.name in ("copytree", "copy_tree"):
            return Take(normal=[(c.term(), st)])
        return None

    def after(self, c, st):
        """which of the prescribed files are in place after a call"""
        s = st.ps
        if c.name not in CHANGES:
            return st
        names = {x[2] for t in [c.recv] + list(c.all_args()) if t is not None for x in subterms(t) if x[0] == "c" and isinstance(x[2], str)}
        names |= {{"load_entrypoints_cfg": "entry_points.txt"}.get(call_name(x)) for x in subterms(c.recv or ("c", "int", 0))}
        got = names & FILES[self.kind]
        return st.with_ps(s[:6] + (s[6] | got,)) if got - s[6] else st

    def all_packages(self, t, st):
        if t[0] == "call" and t[1][0] in ("x", "f") and len(t[3]) == 1 and call_name(t) in ("list", "set", "sorted", "tuple", "distinct", "iter"):
            return self.all_packages(t[3][0], st)
        if t[0] == "a" and t[2] == "src_packages":
            self.linking += 1
            return True
        if t[0] == "elem":
            return self.all_packages(t[1], st)
        items = st.heap.get(t)
        if isinstance(items, frozenset):
            self.linking += bool(items)     # (a loop that was not entered leaves nothing)
            for e, facts in items:
                els = [x for x in subterms(e) if x[0] == "elem"]
                if not els or any(mentions(l, els[0]) for l, _ in facts) or not any(self.all_packages(x, st) for x in els):
                    return False
            return True
        return False


def below(arc, el, root, proper):
    """arc is the path of el relative to root (to a directory above root, if it need not be proper)"""
    while arc[0] == "call" and arc[1][0] == "x" and call_name(arc) in ("str", "Path", "PurePath", "fspath", "as_posix") and arc[3]:
        arc = arc[3][0]
    if call_name(arc) == "as_posix" and arc[2] is not None:
        arc = arc[2]
    base = None
    if call_name(arc) == "relative_to" and arc[2] == el and arc[3]:
        base = arc[3][0]
    elif call_name(arc) == "relpath" and len(arc[3]) == 2 and arc[3][0] == el:
        base = arc[3][1]
    elif call_name(arc) == "path_to" and len(arc[3]) == 2 and arc[3][1] == el:
        base = arc[3][0]
    return base == root if proper else base is not None and base != root and mentions(root, base)


class Links(Rule):
    """every link is written"""
    keep_all_facts = True

    def __init__(self, ctx, f):
        self.ctx, self.f, self.src, self.seen = ctx, f, ("a", ("p", f.qual, f.params[0]), "links"), 0

    def can_raise(self, c):
        return False

    def links(self, it):
        return any(x == self.src for x in subterms(it))

    def on_iter(self, it, el, st, node, fr, eng):
        if self.links(it):
            self.seen += 1
            return st.with_ps(False)

    def on_call(self, c, st, eng):
        if c.name in ("write", "writelines", "write_text", "print") and any(x[0] == "elem" and self.links(x[1]) for a in c.all_args() for x in subterms(a)):
            return Take(normal=[(c.term(), st.with_ps(True))])
        if c.name in ("writelines", "write_text", "write") and any(x == self.src for a in c.all_args() for x in subterms(a)):
            self.seen += 1
        return None

    def on_add(self, cont, value, st, node, fr, eng):
        if value is not None and any(x[0] == "elem" and self.links(x[1]) for x in subterms(value)):
            return st.with_ps(True)

    def on_iter_end(self, it, el, st, node, fr, eng, filtered):
        if self.links(it) and st.ps is not True:
            self.ctx.finding("file-left-out", self.f.short, f"{self.f.short} leaves out a link to a package directory", self.f.where, st.trace[-3:])

    def on_iter_break(self, it, el, st, node, fr, eng):
        if self.links(it):
            self.ctx.finding("file-left-out", self.f.short, f"{self.f.short} leaves out links to package directories", self.f.where, st.trace[-3:])


def check(ctx):
    p = program()
    ctx.rule("signing records every file it is given, under its path below the root, with the file's own signature")
    ctx.rule("a wheel is assembled after everything in it was signed, from everything in the build directory, and nothing changes in between")
    ctx.rule("every package directory of the project is part of the build, and a source distribution holds everything prepared for it")
    cls = p.cls(RECORDS)
    ctx.need(cls, RECORDS)
    sf, sr = cls.methods.get("sign_files"), cls.methods.get("sign_recursive")
    ctx.need(sf is not None and sr is not None, "the signing of files")
    r = Sign(ctx, sf, cls)
    eng = Engine(r)
    eng.run(sf, None)
    ctx.analysed(eng)
    for s, where, trace in r.skips:
        if s in r.loops:
            ctx.finding("file-not-signed", sf.short, f"{sf.short} can pass over a file without recording it", where, trace)
    ctx.need(r.loops or ctx.findings, "records made for the given files")
    # the whole tree
    rec = Forward(ctx, sr)
    eng = Engine(rec)
    eng.run(sr, False)
    ctx.analysed(eng)
    ctx.need(rec.seen or ctx.findings, "sign_recursive signs files")
    for kind, name in (("wheel", "build_wheel"), ("sdist", "build_sdist")):
        f = p.funcs.get(f"{MOD}.{name}")
        ctx.need(f, f"{MOD}.{name}")
        b = Build(ctx, f, kind)
        Engine(b).run(f, b.start())
        if not ctx.findings:
            b.second, b.skips, b.package_skips = True, [], []
        eng = Engine(b)
        out = eng.run(f, b.start())
        ctx.analysed(eng)
        for s, where, trace in b.skips:
            if s in b.archiving:
                ctx.finding("file-left-out", f.short, f"{f.short} can leave a file out of the archive", where, trace)
        if kind == "wheel" and not b.linking:
            ctx.finding("file-left-out", f.short, f"{f.short} links nothing for an editable build", f.where)
        for s, where, trace in b.package_skips:
            ctx.finding("file-left-out", f.short, f"{f.short} can pass over a package of the project", where, trace)
        if b.second:
            ctx.need(b.archived or ctx.findings, f"the archive {f.short} assembles")
            for t, st in out.ret:
                ctx.count("ways_to_end")
                if st.ps[2] is None and not any(l[0] == "truthy" and pol and l[1] == ("p", f.qual, "only_meta") for l, (pol, _) in st.facts.items()):
                    ctx.finding("no-archive", f.short, f"{f.short} can end without having assembled the archive", f.where, st.trace[-3:])
    f = p.funcs.get("pkm.api.projects.project.ProjectDirectories.create")
    ctx.need(f, "ProjectDirectories.create")
    d = Dirs(ctx, f)
    eng = Engine(d)
    eng.run(f, None)
    ctx.analysed(eng)
    ctx.need(d.declared and d.found or ctx.findings, "the declared and the found packages of a project")
    cls = p.cls("pkm.api.distributions.pth_link.PthLink")
    f = cls.methods.get("save") if cls is not None else None
    ctx.need(f, "PthLink.save")
    lk = Links(ctx, f)
    eng = Engine(lk)
    eng.run(f, None)
    ctx.analysed(eng)
    ctx.need(lk.seen or ctx.findings, "the links written")
    ctx.at_least("records_made", 1)
    ctx.at_least("ways_to_end", 2)
    ctx.sample(f"{sf.short}: {len(r.loops)} signing loops; build_wheel and build_sdist followed to the archive")


class Dirs(Rule):
    """the packages of a project are those it declares, or else every directory among its sources"""
    keep_all_facts = True
    term_depth = 20

    def __init__(self, ctx, f):
        self.ctx, self.f, self.declared, self.found = ctx, f, 0, 0

    def can_raise(self, c):
        return False

    def opaque(self, f):
        return f.cls is not None and f.cls.name == "PyProjectConfiguration"

    def on_call(self, c, st, eng):
        if c.cls is not None and c.cls.name == "ProjectDirectories":
            t = c.arg(0, "src_packages")
            self.judge(t, st, c.where)
        return None

    def bad(self, msg, where, st):
        self.ctx.finding("file-left-out", self.f.short, f"{self.f.short} {msg}", where, st.trace[-3:])

    def judge(self, t, st, where):
        while t is not None and t[0] == "call" and t[1][0] == "x" and len(t[3]) >= 1 and call_name(t) in ("list", "sorted", "tuple"):
            t = t[3][0]
        if t is not None and t[0] == "phi":
            for x in t[1]:
                self.judge(x, st, where)
            return
        items = st.heap.get(t)
        if not isinstance(items, frozenset):
            return self.bad(f"takes {show(t) if t else 'nothing'} for the packages of the project", where, st)
        for e, facts in items:
            els = [x for x in subterms(e) if x[0] == "elem"]
            if not els:
                self.bad(f"takes {show(e)} for a package of the project", where, st)
                continue
            declared = attrs_in(els[0][1]) & {"packages"}
            self.declared += bool(declared)
            self.found += not declared
            for l, pol in facts:
                if not mentions(l, els[0]) or l[0] == "isnone":
                    continue
                x = l[1]
                dirs = call_name(x) == "is_dir" and (l[0] == "truthy") == pol and not declared
                cache = l[0] in ("eq", "in") and not pol and any(c in CACHES for c in consts_in(l)) and not declared
                if not dirs and not cache:
                    self.bad("can pass over a package directory of the project", where, st)


class Forward(Rule, Listing):
    """signing a tree signs every file in it"""
    keep_all_facts = True

    def __init__(self, ctx, f):
        self.ctx, self.f, self.seen = ctx, f, 0

    def can_raise(self, c):
        return False

    def opaque(self, f):
        return f.name == "sign_files"

    def on_call(self, c, st, eng):
        if c.name == "sign_files":
            self.seen += 1
            root = ("p", self.f.qual, self.f.params[1])
            if c.arg(1, "root") != root or self.listed(c.arg(0, "files"), st) != root:
                self.ctx.finding("file-not-signed", self.f.short, f"{self.f.short} signs {show(c.arg(0, 'files'))} below {show(c.arg(1, 'root'))} instead of "
                                 "everything below the given directory", c.where, st.trace[-3:])
        return None
