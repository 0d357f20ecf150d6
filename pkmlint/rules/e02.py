"""E02: temporary directories and files are removed on every way out.

A created temporary path is an obligation of the function that created it: it is discharged by removing the path, by
handing it to a `with` statement, or by storing it in an object whose __exit__ discharges it."""
from ..common import *

CREATORS = {"tempfile.mkdtemp", "tempfile.mkstemp", "tempfile.TemporaryDirectory", "tempfile.NamedTemporaryFile",
            "tempfile.TemporaryFile", "tempfile.SpooledTemporaryFile"}
SELF_CLEANING = {"tempfile.TemporaryFile", "tempfile.SpooledTemporaryFile"}
WITH_ONLY = {"tempfile.TemporaryDirectory", "tempfile.NamedTemporaryFile"}
WRAPPERS = {"pathlib.Path", "str", "os.fspath", "os.path.abspath", "os.path.realpath"}
KEEP = {"absolute", "resolve", "as_posix", "expanduser"}


def creation_sites(f: FuncInfo):
    for n in walk_own(f.node):
        if isinstance(n, ast.Call):
            q = resolve_name(f, n.func)
            if q in CREATORS and q not in SELF_CLEANING:
                yield n, q


class TempRule(Rule):
    base_exceptions = True
    yield_raises = True
    max_states = 60

    def __init__(self, ctx, root, relevant, owner=None):
        self.ctx, self.root, self.relevant = ctx, root, relevant
        self.made, self.given, self.removed = {}, {}, 0

    # ps: frozenset of (temp term, kind)  - the paths that still exist and are owned by the current operation
    def opaque(self, f):
        return f.qual not in self.relevant and f.parent is None

    def force_inline(self, f):
        return f.qual in self.relevant

    def path_of(self, t):
        """the term without wrappers that denote the same path"""
        while True:
            if t[0] == "call" and t[1][1] in WRAPPERS and len(t[3]) == 1:
                t = t[3][0]
            elif t[0] == "call" and call_name(t) in KEEP and t[2] is not None:
                t = t[2]
            elif t[0] == "a" and t[2] == "name" or t[0] == "s" and t[2] == const(1):
                t = t[1]
            else:
                return t

    def live(self, t, st):
        p = self.path_of(t)
        for x in st.ps:
            if x[0] == p or x[0] == t:
                return x
        return None

    def drop(self, st, x):
        self.removed += 1
        return st.with_ps(st.ps - {x})

    def on_call(self, c, st, eng):
        if c.ext in CREATORS and c.ext not in SELF_CLEANING:
            t = ("call", ("x", c.ext), None, (const(c.loc), ), ())
            self.made[t] = c.where
            kind = "object" if c.ext in WITH_ONLY else "path"
            return Take(normal=[(t, st.with_ps(st.ps | {(t, kind)}))], raises=[(("exc", "OSError", None), st)])
        ex = (("exc", "OSError", None), st)
        if c.ext in ("shutil.rmtree", "os.remove", "os.unlink", "os.rmdir", "os.removedirs") and (c.args or c.kwargs):
            x = self.live(c.arg(0, "path"), st)
            if x is not None:
                s = self.drop(st, x)
                return Take(normal=[(NONE, s)], raises=[(("exc", "OSError", None), s)])
            return Take(normal=[(NONE, st)], raises=[ex])
        if c.func is None and c.recv is not None and c.name in ("cleanup", "unlink", "rmdir", "close"):
            x = self.live(c.recv, st)
            if x is not None and (c.name != "close" or x[1] == "object"):
                s = self.drop(st, x)
                return Take(normal=[(NONE, s)], raises=[(("exc", "OSError", None), s)])
        if c.name in ("enter_context", "push", "callback") and c.args:
            for a in c.args:
                x = self.live(a, st)
                if x is not None:
                    return Take(normal=[(c.term(), self.drop(st, x))])
        if c.ext == "weakref.finalize":
            for a in c.args:
                x = self.live(a, st)
                if x is not None:
                    return Take(normal=[(c.term(), self.drop(st, x))])
        if c.ext in WRAPPERS and len(c.args) == 1 and self.live(c.args[0], st):
            return Take(normal=[(c.args[0], st)])
        if c.recv is not None and c.name in KEEP and self.live(c.recv, st):
            return Take(normal=[(c.recv, st)])
        return None

    def on_with(self, node, fr, term, st, eng):
        x = self.live(term, st)
        if x is not None and x[1] == "object":
            return st, (lambda kind, s: self.drop(s, x) if x in s.ps else s), term
        return None

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        if kind == "attr" and value is not None:
            x = self.live(value, st)
            if x is not None:
                ty = eng.type_of(base, st)
                if ty and ty[0] == "cls":
                    s = self.drop(st, x)
                    self.given[(ty[1], key)] = f"{fr.func.module.rel}:{node.lineno}"
                    return s.with_ps(s.ps | {(("a", base, key), "self")})
        return None

    def can_raise(self, c):
        return True


class OwnerRule(TempRule):
    """the function starts while the object owns a temporary path in one of its attributes"""

    def path_of(self, t):
        return super().path_of(t)


def with_items(f: FuncInfo):
    """ids of expressions that are entered by a with statement (directly, through a local variable or an exit stack)"""
    ids, names = set(), set()
    for n in walk_own(f.node):
        if isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                ids.add(id(i.context_expr))
                if isinstance(i.context_expr, ast.Name):
                    names.add(i.context_expr.id)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("enter_context", "push"):
            for a in n.args:
                ids.add(id(a))
                if isinstance(a, ast.Name):
                    names.add(a.id)
    for n in walk_own(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in names:
            ids.add(id(n.value))
        if isinstance(n, ast.IfExp) and id(n) in ids:
            ids |= {id(n.body), id(n.orelse)}
        if isinstance(n, ast.BoolOp) and id(n) in ids:
            ids |= {id(x) for x in n.values}
        if isinstance(n, ast.Return) and n.value is not None:
            ids.add(id(("ret", id(n.value))))
    return ids


def check(ctx):
    p = program()
    ti = types()
    ctx.rule("every path that creates a temporary directory or file removes it again before the operation is left, by "
             "return, error, interruption or an abandoned scope; objects that own one remove it when they are exited and "
             "are only used through `with`")
    makers = {}
    for f in library_functions(p):
        sites = list(creation_sites(f))
        if sites:
            ctx.count("creation_sites", len(sites))
            makers[outermost(f).qual] = outermost(f)
    owners = {}
    scopes = {}    # context manager functions that create and remove
    todo = [(f, 0) for f in makers.values()]
    seen = set()
    while todo:
        f, d = todo.pop()
        if f.qual in seen:
            continue
        seen.add(f.qual)
        relevant = reaching(p, {q for q in makers} | {f.qual})
        keep = {f.qual} | {q for q in relevant if q in makers}
        # helpers that take part in removing
        keep |= {g.qual for g in p.funcs.values() if g.cls is f.cls and f.cls is not None and g.parent is None}
        keep |= {g.qual for g in p.funcs.values() if g.module is f.module and g.parent is None and g.cls is None}
        r = TempRule(ctx, f.short, keep)
        eng = Engine(r)
        out = eng.run(f, frozenset())
        ctx.analysed(eng)
        ctx.count("functions_judged")
        ctx.sample(f"{f.short}: {len(r.made)} temporary paths, {r.removed} removals, given to {sorted(k[0].split('.')[-1] + '.' + k[1] for k in r.given)}")
        escaped = False
        for v, s in out.ret:
            for x in s.ps:
                if x[1] != "self" and r.path_of(v) == x[0]:
                    escaped = True
        for how, s in [("returns", s) for _, s in out.ret] + [("returns", s) for s in out.normal] + \
                [("is interrupted" if e[1] == "@Base" else "raises", s) for e, s in out.exc]:
            ctx.count("exits_checked")
            for t, kind in s.ps:
                if kind == "self" and how == "returns":
                    continue
                if escaped and how == "returns":
                    continue
                ctx.finding("left-behind", f.short, f"{f.short} {how} and leaves a temporary "
                            f"{'object' if kind == 'object' else 'path'} behind", f.where, s.trace[-3:])
        if escaped:
            cs = [x for x in callers_of(p, f) if x is not f]
            if not cs or d > 4:
                ctx.finding("handed-out", f.short, f"{f.short} hands out a temporary path nobody removes", f.where)
            for x in cs:
                makers.setdefault(outermost(x).qual, outermost(x))
                todo.append((outermost(x), d + 1))
        for (cq, attr), where in r.given.items():
            owners[(cq, attr)] = where
        if "contextmanager" in [decorator_name(x) for x in f.node.decorator_list]:
            scopes[f.qual] = f
    # objects that own a temporary path
    for (cq, attr), where in sorted(owners.items()):
        cls = p.classes[cq]
        ctx.count("owning_classes")
        ex = p.find_method(cls, "__exit__")
        if ex is None:
            ctx.finding("owner-never-releases", f"{cls.name}.{attr}", f"{cls.name} keeps a temporary path in {attr} but has no __exit__ "
                        "that removes it", where)
            continue
        slf = ("p", ex.qual, ex.params[0])
        own = ("a", slf, attr)
        keep = {g.qual for c in p.mro(cls) for g in c.methods.values()} | {g.qual for g in p.funcs.values() if g.module is ex.module and g.cls is None}
        for has_error in (False, True):
            r = TempRule(ctx, ex.short, keep)
            eng = Engine(r)
            args = {}
            if len(ex.params) >= 4:
                for i, n in enumerate(ex.params[1:4]):
                    args[n] = ("exc", "Exception", None) if has_error and i == 1 else ("p", ex.qual, n) if has_error else NONE
            out = eng.run(ex, frozenset({(own, "owned")}), args=args, self_cls=cq)
            ctx.analysed(eng)
            for how, s in [("returns", s) for _, s in out.ret] + [("returns", s) for s in out.normal] + \
                    ([] if has_error else [("raises", s) for e, s in out.exc]):
                ctx.count("exits_checked")
                if (own, "owned") in s.ps:
                    ctx.finding("owner-never-releases", f"{cls.name}.{attr}",
                                f"{ex.short} {how}{' after an error' if has_error else ''} without removing the temporary path in {attr}",
                                ex.where, s.trace[-3:])
        scopes[cq] = cls
    # scopes are entered only by `with`
    for f in library_functions(p):
        ids = None
        for n in walk_own(f.node):
            if not isinstance(n, ast.Call):
                continue
            tg = ti.static_callee(n, f)
            q = getattr(tg, "qual", None)
            if q is None or q not in scopes:
                continue
            ids = ids if ids is not None else with_items(f)
            ctx.count("uses_of_temporary_scopes")
            if id(n) not in ids and not any(isinstance(m, ast.Return) and m.value is n for m in walk_own(f.node)):
                ctx.finding("not-scoped", f"{f.short}:{scopes[q].name}", f"{f.short} uses {scopes[q].name} outside of a with statement, "
                            "the temporary path is not removed when the operation fails", f"{f.module.rel}:{n.lineno}")
    ctx.at_least("creation_sites", 1)
    ctx.at_least("uses_of_temporary_scopes", 1)
    ctx.at_least("exits_checked", 3)
