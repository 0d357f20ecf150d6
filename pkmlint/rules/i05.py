"""I05: uninstalling a package deletes only what belongs to it.

Every `uninstall` of the library is followed with the RECORD of its package as a symbolic list.  A file deletion is accepted
for a path that is a RECORD entry joined to the site directory (the entry itself, not what a link leads to) or lies in the
package's own metadata directory; a directory is removed only if the path of execution has established that it lies strictly
inside the site directory, and with its content only when it is the metadata directory or a bytecode cache.  Containment that
is decided by comparing path text is reported wherever the library does it."""
from ..common import *

REMOVE_FILE = {"os.remove", "os.unlink"}
REMOVE_DIR = {"os.rmdir"}
REMOVE_TREE = {"shutil.rmtree"}
OTHER = {"os.removedirs": 0, "shutil.move": 0, "os.rename": 0, "os.replace": 0}
SITES = {"purelib_path", "platlib_path", "_purelib", "_platlib", "purelib", "platlib"}
WRAP = {"absolute", "Path", "str", "fspath", "abspath", "PurePath", "expanduser"}
CACHE = const("__pycache__")


class R(Rule):
    max_states = 40
    max_depth = 7
    ancestor_depth = 2
    term_depth = 60

    def __init__(self, ctx, entry, follow):
        self.ctx, self.entry, self.follow = ctx, entry, follow
        self.deletes = 0
        self.of_package = program().find_method(entry.cls, "dist_info") is not None

    def can_raise(self, c):
        return False

    def force_inline(self, f):
        return f.cls is not None and f.cls.name == "DistInfo" and not f.name.startswith("load") or f.qual in self.follow

    def opaque(self, f):
        return f.name in ("load_record_cfg", "is_relative_to", "reload") or f.cls is not None and f.cls.name == "RecordsFileConfiguration"

    def join_ps(self, a, b):
        return a & b

    def keep(self, lit, st, eng):
        """only facts about containment matter"""
        if lit[0] == "truthy":
            return lit[1][0] == "call" and any(self.site(x, eng, st) for x in lit[1][3][1:] or lit[1][3]) or lit[1][0] == "cont"
        if lit[0] in ("eq", "in"):
            return self.site(lit[1], eng, st) or isinstance(lit[2], tuple) and self.site(lit[2], eng, st)
        return False

    # ---- what a term is
    def dist_info(self, t, eng, st):
        x = t
        while x[0] == "a" or x[0] == "call" and x[2] is not None and not x[3]:
            x = x[1] if x[0] == "a" else x[2]
        if x[0] != "p" and self.of_package:
            return False    # not its own
        ty = eng.type_of(t, st)
        return bool(ty) and ty[0] == "cls" and ty[1].endswith(".DistInfo") or t[0] == "a" and t[2] in ("dist_info", "_dist_info")

    def metadata_dir(self, t, eng, st):
        t = self.plain(t)
        return t[0] == "a" and t[2] == "path" and self.dist_info(t[1], eng, st)

    def plain(self, t):
        while True:
            if t[0] == "call" and call_name(t) in WRAP and (t[2] is not None and not t[3] or len(t[3]) == 1 and t[1][0] == "x"):
                t = t[3][0] if t[3] else t[2]
            else:
                return t

    def site(self, t, eng, st):
        """t is the directory the package is installed in"""
        t = self.plain(t)
        if call_name(t) in ("resolve", "realpath"):
            return self.site(t[2] if t[2] is not None else t[3][0], eng, st)
        if t[0] == "a" and t[2] == "parent":
            return self.metadata_dir(t[1], eng, st)
        return t[0] == "a" and t[2] in SITES

    def record_name(self, t, eng, st):
        """the file name of an entry of the package's own RECORD"""
        t = self.plain(t)
        if t[0] == "a" and t[2] == "file":
            return self.record_entry(t[1], eng, st)
        if t[0] == "s" and t[2] == const(0):
            return self.record_entry(t[1], eng, st)
        return False

    def record_entry(self, t, eng, st):
        while t[0] in ("elem", "other") or call_name(t) in ("list", "sorted", "reversed", "iter") and t[3]:
            t = t[3][0] if t[0] == "call" else t[1]
        return t[0] == "a" and t[2] == "records" and call_name(t[1]) == "load_record_cfg" and t[1][2] is not None and self.dist_info(t[1][2], eng, st)

    def listed(self, t, eng, st):
        t = self.plain(t)
        if t[0] == "op" and t[1] == "/" and t[3][0] == "a" and t[3][2] == "name":
            # X.parent / X.name
            x, d = t[3][1], self.plain(t[2])
            if call_name(d) in ("resolve", "realpath"):
                d = self.plain(d[2] if d[2] is not None else d[3][0])
            return d == ("a", x, "parent") and self.listed(x, eng, st)
        if call_name(t) == "normpath" and t[3]:
            return self.listed(t[3][0], eng, st)
        parts = None
        if t[0] == "op" and t[1] == "/":
            parts = (t[2], t[3])
        elif call_name(t) in ("Path", "join") and len(t[3]) == 2:
            parts = t[3]
        elif call_name(t) == "joinpath" and len(t[3]) == 1:
            parts = (t[2], t[3][0])
        if parts is None:
            return False
        return self.site(parts[0], eng, st) and self.record_name(parts[1], eng, st) or self.below(t, eng, st, self.metadata_dir)

    def below(self, t, eng, st, base):
        """t is base / constant names"""
        t = self.plain(t)
        while True:
            if t[0] == "op" and t[1] == "/":
                nxt, names = t[2], [t[3]]
            elif call_name(t) in ("Path", "join", "joinpath") and len(t[3]) + (t[2] is not None) > 1:
                xs = ([t[2]] if t[2] is not None else []) + list(t[3])
                nxt, names = xs[0], xs[1:]
            elif t[0] in ("elem", "other") and call_name(t[1]) in ("iterdir", "glob", "rglob"):
                nxt, names = t[1][2], []
            else:
                return False
            for n in names:
                if not (n[0] == "c" and isinstance(n[2], str) and ".." not in n[2] and not n[2].startswith("/") or
                        n[0] == "a" and n[2] == "name"):
                    return False
            t = self.plain(nxt)
            if base(t, eng, st):
                return True

    # ---- what the path has established
    def inside(self, t, eng, st):
        """(lies in the site directory, is not the site directory itself)"""
        t = self.plain(t)
        within = strict = False

        def is_t(x):
            return self.plain(x) == t

        for x in st.ps:
            if is_t(x):
                within = True
        for l, (pol, _) in st.facts.items():
            if l[0] == "truthy" and l[1][0] == "call" and pol:
                ops = ([l[1][2]] if l[1][2] is not None else []) + list(l[1][3])
                if any(is_t(x) for x in ops[:1]) and any(self.site(x, eng, st) for x in ops[1:]):
                    within = True
            elif l[0] == "in" and pol and self.site(l[1], eng, st) and any(x == ("a", y, "parents") for x in subterms(l[2]) if x[0] == "a" for y in (x[1],) if is_t(y)):
                within = True
                if l[2][0] == "a" or call_name(l[2]) in ("list", "tuple", "set"):
                    strict = True
            elif l[0] == "eq" and not pol and (is_t(l[1]) and self.site(l[2], eng, st) or is_t(l[2]) and self.site(l[1], eng, st)):
                strict = True
            elif l[0] == "in" and not pol and is_t(l[1]):
                els = l[2][1] if l[2][0] == "tup" else [e for e, _ in st.heap.get(l[2], ())] if isinstance(st.heap.get(l[2]), frozenset) else []
                if any(self.site(x, eng, st) for x in els):
                    strict = True
        return within, strict

    def report(self, key, what, c, st):
        self.ctx.finding(key, f"{c.fr.func.short}:{c.name}", what, c.where, st.trace[-3:])

    def members(self, t, eng):
        if t[0] == "phi":
            for x in t[1:]:
                for y in (x if x and not isinstance(x[0], str) else (x,)):
                    yield from self.members(y, eng)
        elif t in eng.origins:
            for y in eng.origins[t]:
                if y != t:
                    yield y
        else:
            yield t

    def on_call(self, c, st, eng):
        kind = arg = None
        if c.func is None and c.recv is not None and c.ext is None and c.name in ("unlink", "rmdir"):
            kind, arg = ("file" if c.name == "unlink" else "dir"), c.recv
        elif c.ext in REMOVE_FILE:
            kind, arg = "file", c.arg(0, "path")
        elif c.ext in REMOVE_DIR:
            kind, arg = "dir", c.arg(0, "path")
        elif c.ext in REMOVE_TREE:
            kind, arg = "tree", c.arg(0, "path")
        elif c.ext in OTHER:
            kind, arg = "other", c.arg(0)
        elif c.name == "relative_to" and c.func is None and c.recv is not None and c.args and self.site(c.args[0], eng, st):
            return Take(normal=[(c.term(), st.with_ps(st.ps | {c.recv}))], raises=[(("exc", "ValueError", None), st)])
        elif c.ext in ("pathlib.Path.unlink", "pathlib.Path.rmdir") and c.args:
            kind, arg = ("file" if c.ext.endswith("unlink") else "dir"), c.args[0]
        if kind is None or arg is None:
            return None
        self.deletes += 1
        if kind == "file":
            for t in self.members(arg, eng):
                if not self.listed(t, eng, st) and not self.cache_file(t, eng, st):
                    self.report("not-listed", f"{self.entry.short} deletes {show(t, 6)}, which is not an entry of the package's RECORD", c, st)
        elif kind == "dir":
            w, s = self.inside(arg, eng, st)
            if not (w and s) and not self.metadata_dir(arg, eng, st) and not self.below(arg, eng, st, self.metadata_dir):
                self.report("outside", f"{self.entry.short} removes directory {show(arg, 5)} without having established that it lies "
                            f"{'strictly ' if w else ''}inside the site directory", c, st)
        elif kind == "tree":
            if self.metadata_dir(arg, eng, st) or self.below(arg, eng, st, self.metadata_dir):
                return None
            a = self.plain(arg)
            if a[0] == "op" and a[1] == "/" and a[3] == CACHE or call_name(a) in ("Path", "join", "joinpath") and a[3] and a[3][-1] == CACHE:
                d = a[2] if a[0] == "op" else a[2] if a[2] is not None else a[3][0]
                w, s = self.inside(d, eng, st)
                if not w:
                    self.report("outside", f"{self.entry.short} deletes the bytecode cache of {show(d, 5)} without having established that it lies "
                                "inside the site directory", c, st)
                elif not s:
                    self.report("foreign-cache", f"{self.entry.short} deletes the bytecode cache of the site directory itself, which holds "
                                "files of other packages", c, st)
                return None
            self.report("tree", f"{self.entry.short} deletes the directory {show(arg, 6)} with everything in it", c, st)
        else:
            self.report("moved", f"{self.entry.short} takes {show(arg, 5)} away with {c.name}", c, st)
        return None

    def cache_file(self, t, eng, st):
        """a file of the bytecode cache of a directory inside the site directory"""
        t = self.plain(t)
        while t[0] in ("elem", "other") and call_name(t[1]) in ("iterdir", "glob", "rglob") or t[0] == "op" and t[1] == "/" and t[3] != CACHE:
            t = self.plain(t[1][2] if t[0] != "op" else t[2])
        if t[0] == "op" and t[1] == "/" and t[3] == CACHE:
            return all(self.inside(t[2], eng, st))
        return False


# ---------------------------------------------------------------- containment by text
def path_text(e, f, ti, d=0):
    """is e the text of a path"""
    if d > 5:
        return False
    if isinstance(e, ast.Call):
        q = resolve_name(f, e.func)
        if q in ("str", "os.fspath") and len(e.args) == 1:
            return is_path(e.args[0], f, ti)
        if q and q.startswith("os.path.") and q.split(".")[-1] in ("abspath", "realpath", "normpath", "join", "dirname", "normcase"):
            return True
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("as_posix", "__str__", "__fspath__") and is_path(e.func.value, f, ti):
            return True
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("lower", "rstrip", "strip", "casefold"):
            return path_text(e.func.value, f, ti, d + 1)
        return False
    if isinstance(e, ast.Name):
        src = [n.value for n in walk_own(f.node) if isinstance(n, (ast.Assign, ast.NamedExpr)) and
               any(isinstance(t, ast.Name) and t.id == e.id for t in (n.targets if isinstance(n, ast.Assign) else [n.target]))]
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Tuple):
                src += [v for t, v in zip(n.targets[0].elts, n.value.elts) if isinstance(t, ast.Name) and t.id == e.id]
        return bool(src) and all(path_text(x, f, ti, d + 1) for x in src)
    if isinstance(e, ast.JoinedStr):
        return len(e.values) == 1 and isinstance(e.values[0], ast.FormattedValue) and is_path(e.values[0].value, f, ti)
    return False


def is_path(e, f, ti):
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("absolute", "resolve", "expanduser", "with_suffix", "joinpath"):
        return True
    if isinstance(e, ast.Call) and resolve_name(f, e.func) in ("pathlib.Path", "pathlib.PurePath"):
        return True
    if isinstance(e, ast.Attribute) and e.attr in ("parent", "purelib_path", "platlib_path"):
        return True
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Div):
        return True
    try:
        t = ti.expr_type(e, f)
    except Exception:
        t = None
    return bool(t) and (t[1] if t[0] in ("cls", "ext") else "") in ("pathlib.Path", "Path", "pathlib.PurePath")


def text_containment(ctx, p):
    ti = types()
    for f in library_functions(p):
        for n in walk_own(f.node):
            hit = False
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("startswith", "find", "index", "removeprefix") and len(n.args) >= 1:
                    ctx.count("text_comparisons")
                    hit = path_text(n.func.value, f, ti) and path_text(n.args[0], f, ti)
                elif len(n.args) == 2 and resolve_name(f, n.func) == "pkm.utils.sequences.startswith":
                    hit = path_text(n.args[0], f, ti) and path_text(n.args[1], f, ti)
                elif resolve_name(f, n.func) == "os.path.commonprefix":
                    hit = True
            elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
                ctx.count("text_comparisons")
                hit = path_text(n.left, f, ti) and path_text(n.comparators[0], f, ti)
            elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.left, ast.Subscript) and isinstance(n.left.slice, ast.Slice):
                hit = path_text(n.left.value, f, ti) and path_text(n.comparators[0], f, ti)
            if hit:
                ctx.finding("text-containment", f.short, f"{f.short} decides whether a path lies in another one by comparing their text: "
                            f"{ast.unparse(n)[:120]}", f"{f.module.rel}:{n.lineno}")


def check(ctx):
    p = program()
    ctx.rule("a file is deleted by an uninstall only if it is an entry of the package's own RECORD; a directory only if it was established "
             "to lie strictly inside the site directory (removed empty, or as bytecode cache) or if it is the metadata directory; containment "
             "is never decided on path text")
    destroyers = {f.qual for f in library_functions(p) if any(
        isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) and n.func.attr in ("unlink", "rmdir", "rmtree", "remove", "removedirs", "move") or
                                     isinstance(n.func, ast.Name) and n.func.id in ("rmtree", "unlink", "move")) for n in walk_own(f.node))}
    entries = [f for f in library_functions(p) if f.name == "uninstall" and f.cls is not None]
    ctx.need(entries, "uninstall methods")
    for f in entries:
        mod = f.module
        follow = {q for q in reaching(p, destroyers) if p.funcs[q].module is mod or q in destroyers and in_modules(p.funcs[q], "pkm.utils.files", "pkm.api.distributions.distinfo")}
        follow = {q for q in follow if p.funcs[q].cls is None or p.funcs[q].cls is f.cls or p.funcs[q].cls.name in ("DistInfo", "SitePackages")}
        r = R(ctx, f, follow - {f.qual})
        eng = Engine(r)
        eng.run(f, frozenset())
        ctx.analysed(eng)
        ctx.count("uninstall_methods_followed")
        ctx.count("deletions_judged", r.deletes)
        ctx.sample(f"{f.short}: {r.deletes} deletions judged")
    text_containment(ctx, p)
    ctx.at_least("deletions_judged", 3)
