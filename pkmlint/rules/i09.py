"""I09: uninstalling removes everything the package recorded.  `InstalledPackage.uninstall` is followed with the RECORD of the
package as a symbolic list: every entry of the list must reach a removal of the very path that the entry names below the site
directory, one that tolerates a missing file; whatever is skipped, filtered or cut short on some path is reported.  On every
way to a normal return the metadata directory must have been deleted (or found missing) and the site, if there is one, reloaded
afterwards.  The removals that user operations ask for must reach such an uninstall."""
from ..common import *
from .b02 import Flow, parts

CLS = "pkm.api.packages.site_packages.InstalledPackage"
PATHS = ("Path", "PurePath", "join", "joinpath", "resolve", "absolute", "abspath", "realpath", "normpath", "str", "fspath")


class Removal(Flow):
    keep_all_facts = False
    max_states = 120
    ancestor_depth = 2

    def __init__(self, ctx, f):
        super().__init__(ctx, f)
        self.slf = ("p", f.qual, f.params[0])
        self.removed = 0
        self.loops, self.cut = set(), {}
        self.base = program().cls(CLS)

    # ps: stack of visited elements (Flow) whose first entry carries what has happened: ((names of events,), True)
    def can_raise(self, c):
        return False

    def force_inline(self, f):
        return f.cls is not None and (f.cls.name == "DistInfo" and not f.name.startswith("load") or f.cls is self.f.cls) or f.module is self.f.module

    def opaque(self, f):
        return f.name in ("load_record_cfg", "is_relative_to", "is_empty_directory", "reload") or f.cls is not None and f.cls.name == "RecordsFileConfiguration"

    def events(self, st):
        return st.ps[0][0][1]

    def happened(self, st, what):
        return st.with_ps(((("c", self.events(st) | {what}, 0), True),) + st.ps[1:])

    def mark(self, st, *values):
        return st

    def handled(self, st, path):
        """the entries whose path this is are dealt with"""
        ps = tuple((el, ok or i > 0 and self.of_entry(path, el)) for i, (el, ok) in enumerate(st.ps))
        return st.with_ps(ps) if ps != st.ps else st

    def of_entry(self, path, el):
        """path is what the visited element el stands for"""
        if path == el:
            return True
        r = self.named(path)
        return r is not None and (r == el or r[0] in ("a", "s") and r[1] == el)

    def named(self, t):
        """the file name of a RECORD entry (or what else) that the path t is"""
        if call_name(t) in PATHS and (t[3] or t[2] is not None):
            args = ([t[2]] if t[2] is not None and t[2][0] != "g" else []) + list(t[3])
            return self.named(args[-1]) if call_name(t) in ("Path", "PurePath", "join", "joinpath", "str", "fspath") or not t[3] else self.named(args[0])
        if t[0] == "op" and t[1] == "/":
            return self.named(t[3])
        if t[0] == "a" and t[2] == "name":
            return self.named(t[1])
        if t[0] == "a" and t[2] == "file" or t[0] in ("elem", "other") or t[0] == "s" and t[2][0] == "c":
            return t
        return None

    def is_record(self, t):
        return t is not None and t[0] == "a" and t[2] == "records" and call_name(t[1]) == "load_record_cfg"

    def relevant(self, it, el, st):
        return any(self.is_record(x) for x in subterms(el))

    def entry_path(self, t):
        """t is the path, below the site directory, that an entry of the RECORD names"""
        r = self.named(t)
        return r is not None and any(self.is_record(x) for x in subterms(r))

    def metadata_dir(self, t):
        while call_name(t) in ("Path", "str", "absolute") and (t[3] or t[2]):
            t = t[3][0] if t[3] else t[2]
        return t[0] == "a" and t[2] == "path" and t[1][0] == "a" and t[1][2] in ("dist_info", "_dist_info")

    def on_loop_done(self, it, st, node, fr, eng):
        return None

    def on_add(self, cont, value, st, node, fr, eng):
        """a path that is put aside is followed where it is taken from; an entry itself likewise"""
        if value is not None and self.entry_path(value) and (value[0] in ("op", "tup", "kv", "new") or call_name(value) in PATHS or self.is_name(value)):
            return self.handled(st, value)
        if value is not None and value[0] == "elem" and self.is_record(value[1]):
            return self.handled(st, value)
        return None

    def is_name(self, t):
        return t[0] == "a" and t[2] == "file"

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        return None

    def tolerant(self, c):
        v = c.arg(0, "missing_ok")
        if c.name == "unlink" and v is not None and v == TRUE:
            return True
        for p in self.enclosing(c):
            if isinstance(p, ast.Try) and any(h.type is None or {n.id if isinstance(n, ast.Name) else n.attr for n in ast.walk(h.type) if isinstance(
                    n, (ast.Name, ast.Attribute))} & {"FileNotFoundError", "OSError", "Exception", "IOError", "BaseException"} for h in p.handlers):
                return True
            if isinstance(p, ast.With) and any("suppress" in ast.unparse(i.context_expr) for i in p.items):
                return True
        return False

    def enclosing(self, c):
        out, fn = [], c.fr.func.node

        def walk(n, chain):
            if n is c.node:
                out.extend(chain)
                return True
            return any(walk(x, chain + [n]) for x in ast.iter_child_nodes(n))
        walk(fn, [])
        return out

    def asked(self, t, st):
        return any(l[0] == "truthy" and pol and call_name(l[1]) in ("exists", "lexists", "is_symlink", "is_file") and mentions(l[1], t) for l, (pol, _) in st.facts.items())

    def on_call(self, c, st, eng):
        path = None
        if c.name == "unlink" and c.func is None and c.recv is not None and c.recv[0] != "g":
            path = c.recv
        elif c.ext in ("os.unlink", "os.remove") or c.ext == "pathlib.Path.unlink":
            path = c.arg(0, "path")
        if path is not None:
            if self.entry_path(path):
                self.removed += 1
                self.ctx.count("entries_removed")
                if not self.tolerant(c) and not self.asked(path, st):
                    self.ctx.finding("stops-at-missing", self.f.short, f"{self.f.short} stops at a recorded file that is already missing, which leaves the "
                                     "remaining files behind", c.where, st.trace[-3:])
                return Take(normal=[(c.term(), self.handled(st, path))])
            return None
        if c.name == "load_record_cfg" and "gone" in self.events(st):
            self.ctx.finding("record-lost", self.f.short, f"{self.f.short} reads the RECORD after the metadata directory was deleted", c.where, st.trace[-3:])
        if c.ext == "shutil.rmtree" and c.arg(0, "path") is not None and self.metadata_dir(c.arg(0, "path")):
            self.ctx.count("metadata_directories_removed")
            return Take(normal=[(c.term(), self.happened(st, "gone"))])
        if c.name == "reload":
            if "gone" not in self.events(st) and not self.missing(st):
                return None
            return Take(normal=[(c.term(), self.happened(st, "reloaded"))])
        return None

    def missing(self, st):
        return any(l[0] == "truthy" and not pol and call_name(l[1]) in ("exists", "is_dir") and l[1][2] is not None and self.metadata_dir(l[1][2])
                   for l, (pol, _) in st.facts.items())

    def no_site(self, st):
        return any((l[0] == "truthy" and not pol or l[0] == "isnone" and pol) and l[1][0] == "a" and l[1][2] in ("site", "_site", "site_packages")
                   for l, (pol, _) in st.facts.items())

    def exempt(self, it, el, st):
        """found not to be there, links included"""
        gone = {call_name(l[1]) for l, (pol, _) in st.facts.items() if l[0] == "truthy" and not pol and call_name(l[1]) in (
            "exists", "lexists", "is_symlink") and any(mentions(l[1], x) for x in parts(el))}
        return "lexists" in gone or {"exists", "is_symlink"} <= gone

    def on_iter_end(self, it, el, st, node, fr, eng, filtered):
        if len(st.ps) < 2 or st.ps[-1][0] != el:
            return None
        if st.ps[-1][1]:
            self.loops.add(self.place(node, fr))
        return super().on_iter_end(it, el, st, node, fr, eng, filtered)

    def on_iter_break(self, it, el, st, node, fr, eng):
        items = st.heap.get(it)
        if self.relevant(it, el, st) or any(self.relevant(it, e, st) for e, _ in (items if isinstance(items, frozenset) else ())):
            self.skips.setdefault(self.place(node, fr), (el, tuple(st.trace[-3:])))
        return st.with_ps(st.ps[:-1]) if len(st.ps) > 1 and st.ps[-1][0] == el else None

    def keep(self, lit, st, eng):
        if lit[0] in ("truthy", "isnone"):
            return call_name(lit[1]) in ("exists", "lexists", "is_symlink", "is_file", "is_dir") or lit[1][0] == "a" and lit[1][2] in (
                "site", "_site", "site_packages")
        return False

    def judge(self, out):
        for where in set(self.skips) - self.loops:  # computes something else of the entries
            del self.skips[where]
        self.report("left-behind", "a file that the RECORD lists")
        for t, st in out.ret:
            self.ctx.count("returns")
            ev = self.events(st)
            if "gone" not in ev and not self.missing(st):
                self.ctx.finding("left-behind", self.f.short, f"{self.f.short} can return without having deleted the package's metadata directory", self.f.where,
                                 st.trace[-3:])
            elif "reloaded" not in ev and not self.no_site(st):
                self.ctx.finding("not-reloaded", self.f.short, f"{self.f.short} can return without the site having forgotten the package", self.f.where, st.trace[-3:])


class Delegates(Rule):
    """an operation that removes one package ends in the uninstall of that package"""
    keep_all_facts = True
    max_states = 80

    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f

    def can_raise(self, c):
        return False

    def opaque(self, f):
        return f.name in ("uninstall", "installed_package", "install_to")

    def force_inline(self, f):
        return f.cls is self.f.cls

    def on_call(self, c, st, eng):
        if c.name == "uninstall":
            return Take(normal=[(c.term(), st.with_ps(True))])

    def judge(self, out):
        for t, st in out.ret:
            self.ctx.count("delegations")
            if st.ps:
                continue
            if t == FALSE or any(l[0] == "isnone" and pol or l[0] == "truthy" and not pol for l, (pol, _) in st.facts.items()):
                continue
            self.ctx.finding("left-behind", self.f.short, f"{self.f.short} can return without having uninstalled the package", self.f.where, st.trace[-3:])


def check(ctx):
    p = program()
    ctx.rule("every entry of the RECORD is removed, whether or not others are missing; the metadata directory is deleted after the RECORD was read; "
             "the site is reloaded afterwards")
    c = p.cls(CLS)
    f = c.methods.get("uninstall") if c is not None else None
    ctx.need(f, "InstalledPackage.uninstall")
    r = Removal(ctx, f)
    eng = Engine(r)
    out = eng.run(f, ((("c", frozenset(), 0), True),))
    ctx.analysed(eng)
    if not r.seen:
        ctx.finding("left-behind", f.short, f"{f.short} does not visit the files that the RECORD lists", f.where)
    elif not r.removed:
        ctx.finding("left-behind", f.short, f"{f.short} does not remove the files that the RECORD lists", f.where)
    r.judge(out)
    if not out.ret:
        ctx.finding("left-behind", f.short, f"{f.short} never returns", f.where)
    for q in ("pkm.api.environments.package_containers.PackageContainer.uninstall", "pkm.api.packages.package_installation.PackageInstallationTarget.force_remove"):
        g = p.funcs.get(q)
        if g is None:
            continue
        d = Delegates(ctx, g)
        eng = Engine(d)
        d.judge(eng.run(g, False))
        ctx.analysed(eng)
    ctx.at_least("returns", 0)
    ctx.sample(f"{f.short}: {r.removed} removals of recorded files, {len(r.seen)} visits of RECORD entries")
