"""E06: provenance of every directory tree that is deleted recursively.  The path term that reaches a recursive deletion
must be a tree the operation created itself (mkdtemp), a place in the library's own storage (a storage attribute, traced
through the constructor to where the object is made, extended only by constants, digests and normalised names), a
directory name the library reserves for itself, an empty directory, or a directory that was positively identified as an
environment.  A path that is a parameter is judged at every caller."""
import re
from ..common import *
from .e05 import strip_str

DELETES = {"shutil.rmtree": 0, "os.removedirs": 0, "distutils.dir_util.remove_tree": 0}
CREATED = {"mkdtemp", "temp_dir", "TemporaryDirectory"}
RESERVED = {".venv", "__pycache__", ".zoo", "dist"}
LISTINGS = {"iterdir", "glob", "rglob", "scandir"}
WRAP = {"list", "sorted", "tuple", "set", "reversed", "next", "iter", "mkdir", "filter"}
CLEAN = {"hexdigest", "normalize_src_package_name", "package_name_key"}
HOME = "pkm.api.pkm"


def reserved(comp) -> bool:
    """a constant relative path below a directory whose name the library reserves"""
    return comp[0] == "c" and isinstance(comp[2], str) and relative(comp[2]) and re.split(r"[/\\]", comp[2])[0] in RESERVED


def relative(s: str) -> bool:
    parts = [x for x in re.split(r"[/\\]", s) if x not in ("", ".")]
    return bool(parts) and not s.startswith(("/", "\\")) and ".." not in parts and ":" not in s


class Trees:
    """decides whether a path term is a tree the library may delete"""

    def __init__(self, ctx):
        self.ctx, self.p = ctx, program()
        self.memo = {}
        self.steps = 0

    # -- places
    def owned(self, t, st, eng, depth=0):
        """why the tree may be deleted, None when nothing says so"""
        self.steps += 1
        if depth > 8:
            return None
        t = strip_str(t)
        r = self.identified(t, st, eng)
        if r:
            return r
        n = call_name(t)
        if n in CREATED:
            return "created by the operation"
        if n == "Path" and len(t[3]) == 1:
            return self.owned(t[3][0], st, eng, depth + 1)
        if n in WRAP and t[3]:
            return self.owned(t[3][-1], st, eng, depth + 1)
        parts = split_join(t)
        if parts:
            base, comps = parts
            if any(reserved(c) for c in comps[:1]) and all(self.clean(c, t, st, eng) for c in comps):
                return "reserved name"
            last = comps[-1]
            if reserved(last) and last[2] == "__pycache__":
                return "reserved name"
            why = self.owned(base, st, eng, depth + 1) or self.is_home(base, st, eng) and comps[0][0] == "c" and "library home"
            if why and all(self.clean(c, t, st, eng) for c in comps):
                return why
            return None
        if t[0] in ("elem", "other"):
            src = t[1]
            while call_name(src) in WRAP and src[3]:
                src = src[3][-1]
            if call_name(src) in LISTINGS and src[2] is not None:
                return self.owned(src[2], st, eng, depth + 1) or self.p_dist_info(src, st, eng)
            return None
        if t[0] == "a":
            return self.attribute(t, st, eng, depth)
        if t[0] == "p" and (f := self.p.funcs.get(t[1])) is not None and f.name == "__init__" and f.cls is not None:
            return self.parameter(f.cls, t[2])
        if t[0] == "or" or t[0] == "op" and t[1] in ("or", "ifexp"):
            alts = [x for x in t[1:] if isinstance(x, tuple)]
            rs = [self.owned(x, st, eng, depth + 1) for x in alts]
            return rs[0] if all(rs) else None
        return None

    def p_dist_info(self, src, st, eng):
        return None

    def is_home(self, t, st, eng):
        t = strip_str(t)
        if call_name(t) == "mkdir" and t[3]:
            t = t[3][0]
        if t[0] == "a" and t[2] in ("home", "_home"):
            ty = self.type_of(t[1], st, eng)
            return bool(ty and ty.rsplit(".", 1)[0] == HOME)
        return False

    def clean(self, comp, whole, st, eng):
        comp = strip_str(comp)
        if comp[0] == "c":
            return isinstance(comp[2], str) and relative(comp[2])
        if call_name(comp) in CLEAN or comp[0] == "a" and comp[2] in ("markers_hash", "name_key", "package_name_key"):
            return True
        if comp[0] == "a" and comp[2] in ("name", "stem") and comp[1][0] in ("elem", "other"):
            return True
        if comp[0] == "fstr":
            return all(x[0] == "c" and not re.search(r"[/\\]|\.\.", str(x[2])) or self.clean(x, whole, st, eng) for x in comp[1])
        if comp[0] == "call" and call_name(comp) in ("digest", "hex", "join") or comp[0] == "c":
            return True
        return self.confined(comp, whole, st, eng)

    def confined(self, comp, whole, st, eng):
        """the path has established that the name stays below the directory it is joined to"""
        dots = absolute = False
        for lit, (pol, _) in st.facts.items():
            ops = [x for x in lit[1:] if isinstance(x, tuple)]
            if lit[0] == "eq" and pol and len(ops) == 2:
                for a, b in (ops, ops[::-1]):
                    if a[0] == "a" and a[2] == "parent" and strip_str(a[1]) == whole:
                        return True
                    if a[0] == "a" and a[2] == "name" and mentions(a[1], comp) and b == comp:
                        return True
            if lit[0] == "in" and not pol and any(mentions(x, comp) for x in ops):
                if lit[1] == const(".."):
                    dots = True
                if lit[1] in (const("/"), ("g", "os.sep")):
                    return True
            if lit[0] == "in" and pol and lit[1] == comp and has_call(lit[2], "iterdir"):
                return True
            if lit[0] == "truthy" and lit[1][0] == "call" and any(mentions(x, comp) for x in ops):
                n = call_name(lit[1])
                if n == "is_absolute" and not pol:
                    absolute = True
                if n in ("isidentifier", "isalnum", "fullmatch") and pol:
                    return True
        return dots and absolute

    def identified(self, t, st, eng):
        """a condition on the path says that the tree is an environment, or that there is nothing in it"""
        parts = split_join(t)
        for lit, (pol, _) in st.facts.items():
            if lit[0] == "eq" and pol:
                for a, b in ((lit[1], lit[2]), (lit[2], lit[1])):
                    j = split_join(strip_str(b))
                    if strip_str(a) == t and j and reserved(j[1][0]) and all(x[0] == "c" and relative(x[2]) for x in j[1]):
                        return "reserved name"
            if lit[0] != "truthy" or lit[1][0] != "call":
                continue
            c, n = lit[1], call_name(lit[1])
            args = [strip_str(x) for x in ([c[2]] if c[2] is not None else []) + list(c[3])]
            if pol and n == "is_venv_path" and t in args or \
                    pol and n == "exists" and args and (j := split_join(args[0])) and j[0] == t and j[1] == [const("pyvenv.cfg")]:
                if parts is None or all(self.clean(x, t, st, eng) for x in parts[1]):
                    return "identified as an environment"
            if pol and n == "is_empty_directory" and t in args:
                return "empty"
            if not pol and n == "any" and args and call_name(args[0]) == "iterdir" and args[0][2] == t:
                return "empty"
        return None

    # -- attributes: where their values come from
    def type_of(self, t, st, eng):
        ty = eng.type_of(t, st)
        return ty[1] if ty and ty[0] == "cls" else None

    def attribute(self, t, st, eng, depth):
        q = self.type_of(t[1], st, eng)
        cls = self.p.classes.get(q) if q else None
        if cls is None:
            return None
        if t[2] == "path" and cls.name == "DistInfo":
            return self.dist_info(t[1], st, eng)
        if t[2] == "path" and cls.name == "Environment":
            return None
        return self.place(cls, t[2])

    def place(self, cls, attr):
        key = (cls.qual, attr)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None       # a value that depends on itself
        self.ctx.count("storage_attributes_traced")
        vals = self.values(cls, attr)
        whys = []
        for v, st, eng, f in vals:
            if v == NONE:
                continue
            whys.append(self.value(cls, v, st, eng, f))
        r = whys[0] if whys and all(whys) else None
        self.memo[key] = r and "own storage"
        return self.memo[key]

    def value(self, cls, v, st, eng, f):
        v = strip_str(v)
        if v[0] == "p" and v[1] == f.qual and f.name == "__init__" or v[0] == "fieldparam":
            return self.parameter(cls, v[2] if v[0] == "p" else v[1])
        return self.owned(v, st, eng, 1)

    def parameter(self, cls, name):
        key = (cls.qual, name, "p")
        if key not in self.memo:
            self.memo[key] = None
            args = list(self.constructed(cls, name))
            self.memo[key] = "own storage" if args and all(self.owned(a, s, e, 1) for a, s, e in args) else None
        return self.memo[key]

    def values(self, cls, attr):
        """every value that is stored in the attribute, or returned by the property, of the class"""
        out = []
        prop = self.p.find_method(cls, attr)
        if prop is not None:
            r = Collect(self, attr=None)
            eng = Engine(r)
            res = eng.run(prop, None, self_cls=cls.qual)
            return [(t, st, eng, prop) for t, st in res.ret]
        for k in self.p.mro(cls):
            for m in k.methods.values():
                if not any(isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store) for n in ast.walk(m.node)):
                    continue
                r = Collect(self, attr=attr)
                eng = Engine(r)
                eng.run(m, None, self_cls=cls.qual)
                out += [(v, st, eng, m) for v, st in r.stored]
            if not out and attr in k.fields:
                out.append((("fieldparam", attr), None, None, None))
        return out

    def constructed(self, cls, prm):
        """the terms every construction of the class gives for a parameter"""
        init = self.p.find_method(cls, "__init__")
        params = [x for x in init.params if x != "self"] if init is not None else list(cls.fields)
        if prm not in params:
            return
        idx = params.index(prm)
        for f in library(self.p):
            if f.parent is not None or not names(f, cls.name):
                continue
            r = Collect(self, ctor=cls.qual)
            eng = Engine(r)
            eng.run(f, None)
            self.ctx.count("constructions_followed", len(r.made))
            for c, st in r.made:
                a = c.arg(idx, prm)
                if a is None:
                    yield ("unk", "default"), st, eng
                else:
                    yield a, st, eng

    # -- metadata of an installed package
    def dist_info(self, base, st, eng):
        """the DistInfo was loaded under a name that only package metadata has"""
        base = strip_str(base)
        q = None
        if base[0] == "a":
            owner = self.type_of(base[1], st, eng)
            cls = self.p.classes.get(owner) if owner else None
            if cls is None:
                return None
            key = (cls.qual, base[2], "di")
            if key not in self.memo:
                vals = self.values(cls, base[2])
                oks = []
                for v, s, e, f in vals:
                    if v == NONE:
                        continue
                    if v[0] == "p" and f is not None and f.name == "__init__":
                        made = list(self.constructed(cls, v[2]))
                        oks.append(bool(made) and all(self.loaded(a) for a, _, _ in made))
                    elif v[0] == "a":
                        oks.append(bool(self.dist_info(v, s, e)))
                    else:
                        oks.append(self.loaded(v))
                self.memo[key] = bool(oks) and all(oks)
            return "metadata of an installed package" if self.memo[key] else None
        return "metadata of an installed package" if self.loaded(base) else None

    def loaded(self, t):
        if t[0] in ("elem", "other"):
            return call_name(t[1]) in ("scan",)
        if call_name(t) == "load":
            flag = dict(t[4]).get("non_standard_name_ok") or (t[3][1] if len(t[3]) > 1 else None)
            return flag is None or flag == FALSE
        return False


class Collect(Rule):
    """values stored in an attribute / constructions of a class"""
    max_states = 12

    def __init__(self, trees, attr=None, ctor=None):
        self.trees, self.attr, self.ctor = trees, attr, ctor
        self.stored, self.made = [], []

    def opaque(self, f):
        return not (f.is_property and plain(f))

    def can_raise(self, c):
        return False

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        if kind == "attr" and key == self.attr and base[0] == "p" and base[2] == "self":
            self.stored.append((value, st))
        return None

    def on_call(self, c, st, eng):
        q = c.cls.qual if c.cls is not None else c.func.cls.qual if c.func is not None and c.func.cls is not None and c.func.name == "__init__" else None
        if q is not None and q == self.ctor:
            self.made.append((c, st))
        return None


class DeleteRule(Rule):
    max_states = 16
    max_depth = 8

    def __init__(self, ctx, trees, entry, inline):
        self.ctx, self.trees, self.entry, self.inline = ctx, trees, entry, inline
        self.deletions = 0
        self.failed = []      # (site, path, depends on a parameter of the entry, st, c)
        self.seen = set()

    def opaque(self, f):
        return not self.force_inline(f)

    def force_inline(self, f):
        return f.qual in self.inline or f.parent is not None and self.force_inline(f.parent) or \
            f.is_property and plain(f) or f.name == "__init__" and f.cls is not None and f.cls.name == "Environment" or \
            f.cls is not None and f.cls is self.entry.cls and f is not self.entry and small(f) and not f.is_contextmanager

    def keep(self, lit, st, eng):
        return lit[0] in ("eq", "in") or lit[0] == "truthy" and lit[1][0] == "call" and \
            call_name(lit[1]) in ("is_venv_path", "exists", "is_empty_directory", "any", "is_absolute", "isidentifier", "isalnum", "fullmatch") or None

    def can_raise(self, c):
        # deletions in handlers: only calls below a try can matter
        return handles(top(c.fr.func))

    def on_call(self, c, st, eng):
        path = None
        if c.ext in DELETES:
            path = c.arg(0, "path") or c.arg(0, "name") or c.arg(0, "directory")
        else:
            args = c.all_args()
            for i, a in enumerate(args[:-1]):
                if a[0] == "g" and a[1] in DELETES:
                    path = args[i + 1]
            if path is None and c.ext and c.ext.startswith("subprocess.") or c.name in ("monitored_run",):
                for a in args:
                    recs = st.heap.get(a) if a[0] == "cont" else None
                    items = [el for el, _ in recs] if isinstance(recs, frozenset) else list(a[1]) if a[0] == "tup" else []
                    if const("rm") in items or const("rmdir") in items:
                        path = next((i for i in items if i[0] != "c"), None) or (items[-1] if items else None)
        if path is None:
            return None
        self.deletions += 1
        self.seen.add(c.loc)
        why = self.trees.owned(path, st, eng)
        if why:
            self.ctx.count("deleted_trees_" + why.replace(" ", "_"))
        else:
            open_ = any(x[0] == "p" and x[1] == self.entry.qual and x[2] not in ("self", "cls") for x in subterms(path))
            self.failed.append((c, path, open_, st))
        return None


def plain(f):
    """the property is just another name of an attribute"""
    b = [s for s in f.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return len(b) == 1 and isinstance(b[0], ast.Return) and isinstance(b[0].value, ast.Attribute) and isinstance(b[0].value.value, ast.Name)


def handles(f, memo={}):
    if f.qual not in memo:
        memo[f.qual] = any(isinstance(n, ast.Try) for n in ast.walk(f.node))
    return memo[f.qual]


def small(f):
    return sum(isinstance(n, ast.stmt) for n in ast.walk(f.node)) <= 15


def library(p):
    return [f for f in p.funcs.values() if f.module.name.split(".")[0] in LIBRARY or in_modules(f, "pkm_cli", "pkm_buildsys")]


def names(f, name):
    return any(isinstance(n, ast.Name) and n.id in (name, "cls") or isinstance(n, ast.Attribute) and n.attr == name for n in ast.walk(f.node))


def split_join(t):
    """(base, [components]) of base / a / b, base.joinpath(a, b), Path(base, a)"""
    comps = []
    while True:
        if t[0] == "op" and t[1] == "/" and len(t) == 4:
            comps.insert(0, t[3])
            t = strip_str(t[2])
        elif call_name(t) == "joinpath" and t[2] is not None:
            comps[:0] = list(t[3])
            t = strip_str(t[2])
        elif call_name(t) in ("Path", "join") and len(t[3]) > 1:
            comps[:0] = list(t[3][1:])
            t = strip_str(t[3][0])
        else:
            break
    return (t, comps) if comps else None


def deletes(f):
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
            if resolve_name(f, n) in DELETES:
                return True
        if isinstance(n, ast.Constant) and n.value in ("rm", "rmdir"):
            return True
    return False


def callers_of(p, f):
    ti = types()
    out = []
    for g in library(p):
        if g is f:
            continue
        for n in walk_own(g.node):
            if isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) and n.func.attr == f.name or
                                            isinstance(n.func, ast.Name) and n.func.id == f.name):
                tg = ti.static_callee(n, g)
                if tg is f or tg is None and isinstance(n.func, ast.Attribute) and f.cls is not None:
                    out.append(g if g.parent is None else top(g))
                    break
    return out


def top(f):
    while f.parent is not None:
        f = f.parent
    return f


def check(ctx):
    p = program()
    ctx.rule("the path of every recursive deletion is created by the operation, own storage (extended by constants, digests and checked "
             "names), a reserved name, empty, identified as an environment, or the metadata directory of an installed package")
    trees = Trees(ctx)
    sites = {}
    roots = []
    for f in library(p):
        if f.parent is None and deletes(f):
            roots.append(f)
    for f in roots:
        ctx.count("functions_with_recursive_deletion")
        judge(ctx, p, trees, f, {f.qual}, f, 0)
    # DistInfo.load rejects every other name
    load = p.find_method(p.cls("DistInfo"), "load")
    ctx.need(load, "DistInfo.load")
    flag = next((x for x in load.params if "non_standard" in x), None)
    ctx.need(flag, "the parameter of DistInfo.load that allows other names")
    r = Collect(trees)
    r.keep_all_facts = True
    eng = Engine(r)
    out = eng.run(load, None, args={flag: FALSE})
    ctx.count("metadata_loads_checked", len(out.ret))
    for t, st in out.ret:
        if not any(const(".dist-info") in l[1:] and pol or l[0] == "truthy" and pol and has_call(l[1], "endswith") for l, (pol, _) in st.facts.items()):
            ctx.finding("metadata-not-identified", load.short, f"{load.short} accepts a directory that is not named *.dist-info", load.where)
    ctx.at_least("functions_with_recursive_deletion", 3)


def judge(ctx, p, trees, f, inline, site, level):
    r = DeleteRule(ctx, trees, f, inline)
    eng = Engine(r)
    eng.run(f, None)
    ctx.analysed(eng)
    ctx.count("recursive_deletions", r.deletions)
    ctx.sample(f"{f.short}: {r.deletions} recursive deletions followed")
    todo = False
    for c, path, open_, st in r.failed:
        if open_ and level < 3:
            todo = True
            continue
        ctx.finding("foreign-tree", f"{site.short}:{c.name}", f"{show(path, 5)} is deleted recursively; nothing says that it belongs to the library",
                    c.where, st.trace[-3:])
    if todo:
        callers = callers_of(p, f)
        if not callers:
            c, path, _, st = next(x for x in r.failed if x[2])
            ctx.finding("foreign-tree", f"{site.short}:{c.name}", f"{show(path, 5)}, which the caller names, is deleted recursively and nothing says "
                        "that it belongs to the library", c.where, st.trace[-3:])
        for g in callers:
            judge(ctx, p, trees, g, inline | {f.qual, g.qual}, site, level + 1)
