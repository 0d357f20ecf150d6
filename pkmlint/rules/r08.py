"""R08: packages come from the repositories that the configuration says.  `load` is followed with an arbitrary configuration: every
repository and every binding of it must reach the composite that is returned, under its own name, and the inherited repository must
be the one of the inheritance mode.  The composite is followed with an arbitrary requirement: every repository that it asks must be
the bound one or, with no binding, one that is not reserved for bindings, in the written order up to the first that has a match."""
from ..common import *
from .b02 import falsy
from .r05 import by_url

LOADER = "pkm.api.repositories.repository_loader"
MANAGE = "pkm.api.repositories.repository_management"
CONF = "pkm.api.repositories.repositories_configuration.RepositoriesConfiguration"
WRAP = ("list", "tuple", "iter", "set", "frozenset", "dict", "items", "keys", "values", "copy", "MappingProxyType")


def turning(c, st):
    """the order of what is returned is part of its term"""
    if c.name in ("sorted", "reversed") and c.func is None and c.args:
        return Take(normal=[(("call", ("x", c.name), None, (c.args[0],), ()), st)])
    if c.name == "reverse" and c.func is None and c.recv is not None and not c.args:
        return Take(normal=[(const(None), st.with_ps(st.ps | {("reversed", c.recv)}))])


def bare(t):
    """(collection, its order is changed) without conversions around it"""
    turned = False
    while True:
        n = call_name(t)
        if n == "@slice" or t[0] == "s" and t[2][0] in ("slice", "op", "call"):
            x = t[1] if t[0] == "s" else t[2] if t[2] is not None else t[3][0]
            turned, t = True, x
            continue
        if n in ("sorted", "reversed") and t[3]:
            turned, t = True, t[3][0]
        elif n in WRAP and (t[3] or t[2] is not None):
            t = t[3][0] if t[3] else t[2]
        else:
            return t, turned


def mode(st, slf=None):
    """the inheritance modes that the state still allows"""
    left = {"INHERIT_CONTEXT", "INHERIT_GLOBAL", "NO_INHERITANCE"}
    for l, (pol, _) in st.facts.items():
        if l[0] == "eq":
            for a, b in (l[1:], l[:0:-1]):
                if a[0] == "a" and a[2] == "inheritance_mode" and b[0] in ("g", "a"):
                    n = (b[2] if b[0] == "a" else b[1]).rsplit(".", 1)[-1]
                    left &= {n} if pol else left - {n}
        elif l[0] == "in" and l[1][0] == "a" and l[1][2] == "inheritance_mode":
            ns = {(x[2] if x[0] == "a" else x[1]).rsplit(".", 1)[-1] for x in subterms(l[2]) if x[0] in ("g", "a")} & left
            if ns:
                left &= ns if pol else left - ns
    return left


def alts(t):
    if t[0] == "phi":
        return [y for x in t[1] for y in alts(x)]
    return [t]


class Load(Rule):
    """ps: frozenset of marks of the element in progress, and of what was inherited"""
    keep_all_facts = True
    max_states = 80
    term_depth = 16

    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f
        self.slf, self.name, self.cfg, self.next = (("p", f.qual, n) for n in f.params[:4])
        self.repos, self.binds = ("a", self.cfg, "repos"), ("a", self.cfg, "package_bindings")
        self.loops, self.made = {}, []

    def can_raise(self, c):
        return False

    def opaque(self, f):
        return f.name in ("build", "match", "package_name_key", "__init__", "global_repo", "inheritance_mode", "binding_of")

    def force_inline(self, f):
        return f.module is self.f.module and not self.opaque(f)

    def is_mode(self, base, name):
        return name in ("inheritance_mode", "global_repo", "_global_repo")

    def element(self, t):
        """which collection an element comes from"""
        for x in subterms(t):
            if x[0] == "elem":
                b, turned = bare(x[1])
                if b in (self.repos, self.binds):
                    return x, b, turned
        return None, None, False

    def built(self, t):
        return t[0] == "call" and t[1][1].rsplit(".", 1)[-1] == "build" and t[1][0] in ("f", "m", "@b")

    def on_call(self, c, st, eng):
        if t := turning(c, st):
            return t
        if c.cls is not None and c.cls.name == "_CompositeRepository":
            self.made.append((c, st))
            return Take(normal=[(("new", c.cls.qual, (c.fr.func.qual, c.node.lineno, c.node.col_offset)), st)])
        if c.name in ("dict", "deepcopy", "copy") and len(c.args) == 1 and self.config_part(c.args[0]) is not None:
            return Take(normal=[(("call", ("x", "dict"), None, (c.args[0],), ()), st)])
        if c.name == "build" and (c.func is None or c.func.module is self.f.module):
            t = ("call", ("m", "build"), None, (c.arg(0, "name") or const(None), c.arg(1, "builder") or const(None)) + tuple(v for k, v in c.kwargs.items() if k not in ("name", "builder")), ())
            return Take(normal=[(t, st)])
        if c.name in ("pop", "popitem", "clear", "update", "setdefault", "insert") and c.recv is not None and c.func is None:
            b = self.config_part(c.recv)
            if b is not None and c.name != "insert":
                self.ctx.finding("configuration-changed", self.f.short, "reading a configuration changes what will be saved", c.where, st.trace[-3:])
                return None
            if c.name == "insert" and len(c.args) == 2:
                return Take(normal=[(const(None), self.added(c.recv, c.args[1], st, c.args[0] != const(0) and None))])
        if c.name == "copy" and c.recv is not None and c.func is None and self.config_part(c.recv) is not None:
            return Take(normal=[(("call", ("x", "dict"), None, (c.recv,), ()), st)])
        return None

    def reaches(self, t, v, st, seen=()):
        if mentions(t, v):
            return True
        for x in subterms(t):
            if x[0] == "cont" and x not in seen:
                els = st.heap.get(x)
                if isinstance(els, frozenset) and any(self.reaches(e, v, st, seen + (x,)) for e, _ in els):
                    return True
        return False

    def config_part(self, t):
        if t in (self.repos, self.binds):
            return t
        if t[0] == "s" and t[1] in (self.repos, self.binds):
            return t
        return None

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        if kind in ("sub", "delsub") and self.config_part(base) is not None:
            self.ctx.finding("configuration-changed", self.f.short, "reading a configuration changes what will be saved", fr.where(node) if hasattr(fr, "where") else "", st.trace[-3:])
        if kind == "sub":
            return self.added(base, ("kv", key, value), st)

    def on_add(self, cont, value, st, node, fr, eng):
        return self.added(cont, value, st)

    def added(self, cont, value, st, front=False):
        marks = set()
        for v in alts(value):
            if self.built(v):
                marks.add(("listed", cont, v))
            if v == self.next or v[0] == "a" and v[2] in ("global_repo", "_global_repo"):
                marks.add(("inherited", cont, "next" if v == self.next else "global"))
            if v[0] == "kv" or v[0] == "tup" and len(v[1]) == 2 and cont[1] == "dict":
                k, x = v[1:] if v[0] == "kv" else v[1]
                for y in alts(x):
                    marks.add(("bound", cont, k, y))
            else:
                marks.add(("named", cont, v))
        marks = {m for m in marks if m not in st.ps}
        return st.with_ps(st.ps | frozenset(marks)) if marks else st

    def place(self, node, fr):
        return f"{fr.func.module.rel}:{node.lineno}" if hasattr(fr.func.module, "rel") else str(node.lineno)

    def on_iter(self, it, el, st, node, fr, eng):
        x, b, turned = self.element(el)
        if b is not None:
            return st.with_ps(frozenset(m for m in st.ps if not any(mentions(y, x) for y in m[1:])))

    def on_loop_done(self, it, st, node, fr, eng):
        ps = frozenset(m for m in st.ps if m[0] == "inherited")
        return st.with_ps(ps) if ps != st.ps else None

    def on_property(self, c, st, eng):
        return Take(normal=[(("a", c.recv, c.name.split(".")[-1]), st)])

    def on_iter_end(self, it, el, st, node, fr, eng, filtered):
        x, b, turned = self.element(el)
        if b is None:
            return None
        d = self.loops.setdefault((b, getattr(node, "lineno", 0), fr.func.qual), {})
        for k, v in self.duties(x, b, turned, st).items():
            if v is not None:
                if k not in d or d[k][0]:
                    d[k] = (v, tuple(st.trace[-3:]))

    def duties(self, x, b, turned, st):
        """what has been done for the element"""
        if b == self.repos:
            d = ("s", b, x)
            own = [m for m in st.ps if m[0] == "listed" and m[2][3][0] == x and m[2][3][1] == ("a", d, "type") and any(self.reaches(y, ("a", d, "args"), st) for y in m[2][3][2:])]
            lists = {m[1] for m in own}
            late = any(m[0] == "inherited" and m[1] in lists for m in st.ps)
            flag = st.facts.get(("truthy", ("a", d, "bind_only")))
            named = {m[1] for m in st.ps if m[0] == "named" and m[2] == x or m[0] == "named" and any(m[2] == ("a", o[2], "name") for o in own)}
            self.reserve |= named
            self.lists |= lists
            return {"is built and listed under its own name": frozenset(lists), "keeps its place": not turned and not late if lists else None,
                    "is reserved for bindings where it says so": (bool(named) if flag[0] else not named) if flag else (False if named else None)}
        v = ("s", b, x)
        keys = [m for m in st.ps if m[0] == "bound" and mentions(m[2], x)]
        self.tables |= {m[1] for m in keys}
        txt = next((pol for l, (pol, _) in st.facts.items() if l[0] == "isinst" and l[1] == v and l[2] == ("g", "str")), None)
        if txt is None:
            txt = next((not pol for l, (pol, _) in st.facts.items() if l[0] == "isinst" and l[1] == v and "dict" in str(l[2]).lower() or l[0] == "isinst" and l[1] == v and "Mapping" in str(l[2])), None)
        ok = bool(keys)
        res = {"is taken over": ok, "is taken over for every spelling of the package": all(call_name(m[2]) == "package_name_key" for m in keys) if keys else None}
        if txt:
            res["names the repository that was written"] = any(m[3] == v for m in keys) if keys else None
        elif txt is False:
            own = [m for m in st.ps if m[0] == "listed" and (mentions(m[2][3][0], x) or self.reaches(m[2], v, st)) and self.reaches(("tup", m[2][3][1:]), v, st)]
            res["that carries its repository has it built and listed"] = frozenset(m[1] for m in own)
            self.lists |= {m[1] for m in own}
            names = {y for m in own for y in (("a", m[2], "name"), m[2][3][0])}
            res["that carries its repository names that repository"] = any(m[3] in names for m in keys) if keys else None
            res["that carries its repository has a repository of its own"] = all(mentions(m[2][3][0], x) for m in own) if own else None
            kept = {m[1] for m in st.ps if m[0] == "named" and m[2] in names}
            self.reserve |= kept
            res["that carries its repository keeps it for bound packages"] = bool(kept) if own else None
        else:
            res["names the repository that was written"] = None
        return res

    reserve, lists, tables = frozenset(), frozenset(), frozenset()


REQUIRED = ("is built and listed under its own name", "is reserved for bindings where it says so", "is taken over")
KIND = {"INHERIT_CONTEXT": {"next"}, "INHERIT_GLOBAL": {"global"}, "NO_INHERITANCE": set()}
INHERITED = {"next": "the repositories of the context above", "global": "the global repositories"}


def loading(ctx, p):
    """-> what the parameters of the composite's constructor stand for"""
    cls = LOADER + ".RepositoryLoader"
    f = p.cls(cls).methods.get("load")
    ctx.need(f, "RepositoryLoader.load")
    r = Load(ctx, f)
    rets = []
    for m in KIND:
        facts = {("eq", ("a", r.cfg, "inheritance_mode"), ("g", f"{CONF.rsplit('.', 1)[0]}.RepositoriesConfigInheritanceMode.{x}")): (x == m, True) for x in KIND}
        eng = Engine(r)
        rets += eng.run(f, frozenset(), self_cls=cls, facts=facts).ret
        ctx.analysed(eng)
    for b, what in ((r.repos, "a repository of the configuration"), (r.binds, "a binding of the configuration")):
        duties = {}
        for (b2, line, fn), d in r.loops.items():
            if b2 == b:
                for k, (v, tr) in d.items():
                    duties.setdefault(k, []).append((v, line, tr))
        for k in REQUIRED[:2] if b == r.repos else REQUIRED[2:]:
            duties.setdefault(k, [])
        for k, vs in duties.items():
            ctx.count("configuration_duties")
            if not any(v for v, _, _ in vs):
                line, tr = max(((l, t) for _, l, t in vs), default=(f.node.lineno, ()))
                ctx.finding("configuration", f"{f.short}:{k}", f"not on every path {what} {k}", f"{f.module.rel}:{line}", tr)
    roles = {}
    for c, st in r.made:
        init = c.cls.find_method("__init__") if hasattr(c.cls, "find_method") else c.cls.methods.get("__init__")
        given = dict(zip(init.params[1:], c.args))
        given.update(c.kwargs)
        for n, v in given.items():
            v = bare(v)[0]
            for role, cs in (("list", r.lists), ("reserve", r.reserve), ("table", r.tables)):
                if v in cs:
                    roles[role] = n
        for role, cs in (("list", r.lists), ("reserve", r.reserve), ("table", r.tables)):
            if cs and not any(bare(v)[0] in cs for v in given.values()):
                ctx.finding("configuration", f"{f.short}:handed on:{role}", "what was read from the configuration is not handed to the repository that is made of it", c.where, st.trace[-3:])
        got = {m[2] for m in st.ps if m[0] == "inherited"}
        for m in sorted(mode(st)):
            ctx.count("inheritance_paths")
            for x in got - KIND[m]:
                ctx.finding("inheritance", f"{f.short}:{m}", f"with {m} the configuration also gets {INHERITED[x]}", c.where, st.trace[-3:])
            for x in KIND[m] - got:
                if any(l[0] == "isnone" and pol and (l[1] == r.next if x == "next" else l[1][0] == "a" and l[1][2] in ("global_repo", "_global_repo")) for l, (pol, _) in st.facts.items()):
                    continue
                ctx.finding("inheritance", f"{f.short}:{m}", f"with {m} the configuration does not get {INHERITED[x]}", c.where, st.trace[-3:])
    for t, st in rets:
        for a in alts(t):
            x = "next" if a == r.next else "global" if a[0] == "a" and a[2] in ("global_repo", "_global_repo") else None
            if x is None:
                continue
            for m in sorted(mode(st)):
                if x not in KIND[m]:
                    ctx.finding("inheritance", f"{f.short}:{m}", f"with {m} the configuration may be replaced by {INHERITED[x]}", f.where, st.trace[-3:])
            if not any(l[0] == "truthy" and not pol and (l[1] in r.lists or l[1] == r.repos) for l, (pol, _) in st.facts.items()):
                ctx.finding("inheritance", f"{f.short}:replaced", f"the repositories of a configuration may be replaced by {INHERITED[x]}", f.where, st.trace[-3:])
    return roles


class Build(Rule):
    """ps: unused"""
    keep_all_facts = True
    term_depth = 16

    def __init__(self, ctx, f):
        self.ctx, self.f, self.calls = ctx, f, []

    def can_raise(self, c):
        return False

    def on_call(self, c, st, eng):
        if c.name == "build" and c.recv is not None and c.func is not self.f:
            self.calls.append((c, st))
            return Take(normal=[(("call", ("m", "build"), c.recv, tuple(c.args), tuple(sorted(c.kwargs.items(), key=str))), st)])

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        if kind == "sub" and call_name(value) == "build":
            self.covered(key, st, "kept")

    def covered(self, key, st, what):
        terms, todo = [], [key]
        while todo and len(terms) < 60:
            terms.append(todo.pop())
            parts = set(subterms(terms[-1]))
            for k, v in st.heap.items():
                if isinstance(k, tuple) and k and k[0] == "fld" and k[1] in parts and v not in terms:
                    todo.append(v)
                elif k in parts and isinstance(v, frozenset):
                    todo += [e for e, _ in v if e not in terms]
        self.ctx.count("instance_keys")
        for n in self.f.params[1:] + [x for x in (self.f.node.args.kwarg.arg if self.f.node.args.kwarg else None,) if x]:
            if not any(mentions(t, ("p", self.f.qual, n)) for t in terms):
                self.ctx.finding("shared-instance", f"{self.f.short}:{n}", f"a repository is {what} under a key that does not tell repositories of another {n} apart: one is then used in "
                                 "place of the other, under the name of the first", self.f.where, st.trace[-3:])


def building(ctx, p):
    cls = LOADER + ".RepositoryLoader"
    f = p.cls(cls).methods.get("build")
    ctx.need(f, "RepositoryLoader.build")
    r = Build(ctx, f)
    eng = Engine(r)
    out = eng.run(f, frozenset(), self_cls=cls)
    ctx.analysed(eng)
    for t, st in out.ret:
        for a in alts(t):
            if a[0] == "s":
                r.covered(a[2], st, "looked up")
    name = ("p", f.qual, f.params[1])
    for c, st in r.calls:
        if c.args and c.args[0] != name and c.kwargs.get("name", name) != name:
            ctx.finding("name", f.short, "a repository is built under another name than the one that it is defined with", c.where, st.trace[-3:])


class Ask(Rule):
    """ps: frozenset of ("asked", element, result), ("done",)"""
    keep_all_facts = True
    max_states = 80
    term_depth = 16

    def __init__(self, ctx, f, fields):
        self.ctx, self.f = ctx, f
        self.slf, self.dep = ("p", f.qual, f.params[0]), ("p", f.qual, f.params[1])
        self.list, self.reserve, self.table, self.urls = (("a", self.slf, fields[r]) if r in fields else None for r in ("list", "reserve", "table", "urls"))
        self.found, self.asking = {}, {("first",)}

    def can_raise(self, c):
        return False

    def opaque(self, f):
        return f.name in ("match", "required_url", "package_name_key")

    def force_inline(self, f):
        return f.module is self.f.module and f.cls is self.f.cls and not self.opaque(f)

    def bad(self, kind, what, where, st):
        self.ctx.finding(kind, self.f.short, what, where, st.trace[-3:])

    def of_list(self, t):
        return t[0] in ("elem", "other") and bare(t[1])[0] == self.list

    def turned(self, t):
        return t[0] in ("elem", "other") and bare(t[1])[1]

    def binding(self, t):
        """t is what the package is bound to"""
        return t[0] == "s" and t[1] == self.table or call_name(t) == "get" and t[2] == self.table

    def bound(self, st):
        for l, (pol, _) in st.facts.items():
            if l[0] == "truthy" and self.binding(l[1]) or l[0] == "in" and l[2] == self.table:
                return pol
            if l[0] == "isnone" and self.binding(l[1]):
                return not pol
        return None

    def after_inline(self, c, kind, term, st, eng):
        b = self.bound(st)
        m = ("known", b)
        return st.with_ps(st.ps | {m}) if b is not None and m not in st.ps else st

    def misspelled(self, st):
        for l, (pol, _) in st.facts.items():
            k = (l[1][2] if l[1][0] == "s" else l[1][3]) if l[0] in ("truthy", "isnone") and self.binding(l[1]) else l[1] if l[0] == "in" and l[2] == self.table else None
            k = ("tup", k) if k and isinstance(k[0], tuple) else k
            if k is not None and not any(x[0] == "a" and x[2] in ("package_name_key", "name_key") or call_name(x) == "package_name_key" for x in subterms(k)):
                return True
        return False

    def reserved(self, el, st):
        for l, (pol, _) in st.facts.items():
            if l[0] == "in" and l[1] == ("a", el, "name") and l[2] == self.reserve:
                return pol
        return None

    def is_bound(self, r, st):
        """r is the repository that the package is bound to"""
        for l, (pol, _) in st.facts.items():
            if l[0] == "eq" and pol and ("a", r, "name") in l[1:] and any(self.binding(x) for x in l[1:]):
                return True
        if r[0] == "s" and self.binding(r[2]) and r[1][0] == "cont":
            kv = [e for e, _ in st.heap.get(r[1], ())] if isinstance(st.heap.get(r[1]), frozenset) else []
            return all(e[0] in ("kv", "tup") and (e[1:] if e[0] == "kv" else e[1])[0] == ("a", (e[1:] if e[0] == "kv" else e[1])[1], "name") for e in kv)
        return False

    def on_call(self, c, st, eng):
        if t := turning(c, st):
            return t
        if c.name in ("first_or_none", "first", "next") and c.args:
            it = c.args[0]
            while call_name(it) == "iter" and it[3]:
                it = it[3][0]
            els = st.heap.get(it)
            if it[0] == "cont" and isinstance(els, frozenset):
                out = []
                for el, facts in sorted(els, key=str):
                    s = self.learn(st, facts, eng)
                    if s is not None:
                        out.append((el, s))
                d = c.args[1] if len(c.args) > 1 else const(None)
                return Take(normal=out + [(d, st.with_ps(st.ps | {("done", "first")}))])
        if c.name == "match" and c.recv is not None:
            self.asking |= {m[1:] for m in st.ps if m[0] == "within"}
            self.asked(c, st)
            return Take(normal=[(c.term(), st.with_ps(st.ps | {("asked", c.recv, c.term())}))])

    def learn(self, st, facts, eng):
        for l, pol in facts:
            st = st and eng.assume_lit(st, l, pol)
        return st

    def asked(self, c, st):
        self.ctx.count("repositories_asked")
        if by_url(st):
            if not (c.recv[0] in ("elem", "other") and any(x[0] == "s" and x[1] == self.urls and x[2][0] == "a" and x[2][2] == "protocol" for x in subterms(c.recv))):
                self.bad("url", "a repository is asked for a URL of which it is not known that it can handle the protocol", c.where, st)
            return
        b = self.bound(st)
        if c.args and c.args[0] != self.dep:
            self.bad("asked-other", "a repository is asked for something else than the requirement", c.where, st)
        if b is None:
            self.bad("binding-ignored", "a repository is asked for a package of which it is not known whether it is bound to another repository", c.where, st)
        elif self.misspelled(st):
            self.bad("spelling", "whether a package is bound depends on how the requirement spells its name", c.where, st)
        elif b and not self.is_bound(c.recv, st):
            self.bad("not-the-bound-one", "a package that is bound to a repository is looked for in another one", c.where, st)
        elif not b and self.of_list(c.recv) and self.reserved(c.recv, st) is not False:
            self.bad("reserved", "a repository that is only for bound packages is asked for a package that is not bound", c.where, st)

    def on_property(self, c, st, eng):
        return Take(normal=[(("a", c.recv, c.name.split(".")[-1]), st)])

    def on_iter(self, it, el, st, node, fr, eng):
        ps = frozenset(m for m in st.ps if m[0] != "asked")
        if not by_url(st) and self.of_list(el) and self.turned(el) and self.bound(st) is False:
            self.bad("order", "the repositories are not asked in their written order", f"{self.f.module.rel}:{getattr(node, 'lineno', 0)}", st)
        st = st.with_ps(frozenset(m for m in ps if m[0] not in ("within", "aside")) | {("within", node.lineno, it)})
        if self.of_list(el):         # a repository is never false
            st.facts[("truthy", el)], st.facts[("isnone", el)] = (True, True), (False, True)
        return st

    def on_iter_end(self, it, el, st, node, fr, eng, filtered):
        if not self.of_list(el) or by_url(st) or self.bound(st) is not False:
            return None
        ms = [m for m in st.ps if m[0] == "asked" and m[1] == el]
        where = f"{self.f.module.rel}:{getattr(node, 'lineno', 0)}"
        if not ms:
            if self.reserved(el, st) is not True and ("aside", el) not in st.ps:
                self.found.setdefault((id(node), "x"), []).append(("left-out", "a repository may be left out though it is not reserved for bound packages", where, st))
            return None
        self.found.setdefault((id(node), "x"), []).append(None)
        if not filtered and fr.func.name and any(st.facts.get(("truthy", m[2])) == (True, True) or st.facts.get(("truthy", m[2]), (None,))[0] for m in ms) and not any(m[0] == "kept" for m in st.ps):
            self.bad("match-ignored", "the repositories that follow are asked though one that comes before them has a match", where, st)

    def on_add(self, cont, value, st, node, fr, eng):
        if self.of_list(value) and ("aside", value) not in st.ps:
            st = st.with_ps(st.ps | {("aside", value)})
        if any(m[0] == "asked" and mentions(value, m[2]) for m in st.ps):
            st = st.with_ps(st.ps | {("kept", cont)})
        return st

    def on_loop_done(self, it, st, node, fr, eng):
        if bare(it)[0] == self.list or it[0] == "cont" and (not st.heap.get(it)) or it[0] == "cont" and any(self.of_list(x) for e, _ in (st.heap.get(it) or ()) for x in subterms(e)):
            return st.with_ps(st.ps | {("done", node.lineno, it)})


def stored(ctx, comp, roles):
    """the fields of the composite that hold what its constructor was given; every repository of the list must be kept"""
    f = comp.methods["__init__"]
    fields = {}
    par = {r: ("p", f.qual, n) for r, n in roles.items()}

    class Init(Rule):
        keep_all_facts, max_states = True, 80
        lost, kept, handled = {}, set(), set()

        def can_raise(self, c):
            return False

        def opaque(self, g):
            return g.name in ("accept_non_url_packages", "accepted_url_protocols")

        def on_call(self, c, st, eng):
            if c.name in ("dict", "set", "frozenset", "list", "tuple") and c.func is None and len(c.args) == 1 and c.args[0] in par.values():
                return Take(normal=[(("call", ("x", c.name), None, (c.args[0],), ()), st)])
            return turning(c, st)

        def on_iter(self, it, el, st, node, fr, eng):
            if bare(it)[0] == par.get("list"):
                if bare(it)[1]:
                    ctx.finding("order", f.short, "the repositories are not kept in their written order", f"{f.module.rel}:{node.lineno}", st.trace[-3:])
                return st.with_ps(frozenset())

        def on_add(self, cont, value, st, node, fr, eng):
            if value[0] == "elem" and bare(value[1])[0] == par.get("list"):
                if cont[0] == "s" or call_name(cont) in ("setdefault", "get"):
                    self.handled.add(cont)
                else:
                    self.kept.add(cont)
                    return st.with_ps(st.ps | {cont})

        def on_iter_end(self, it, el, st, node, fr, eng, filtered):
            if el[0] == "elem" and bare(el[1])[0] == par.get("list"):
                no = any(l[0] == "truthy" and not pol and call_name(l[1]) == "accept_non_url_packages" for l, (pol, _) in st.facts.items())
                self.lost.setdefault(node.lineno, []).append((bool(st.ps) or no, st))

    r = Init()
    eng = Engine(r)
    out = eng.run(f, frozenset(), self_cls=comp.qual)
    ctx.analysed(eng)
    if not any(all(ok for ok, _ in v) for v in r.lost.values()):
        for line, v in r.lost.items():
            st = next(s for ok, s in v if not ok)
            ctx.finding("left-out", f.short, "a repository that takes requirements without a URL may not be kept in the list that is searched", f"{f.module.rel}:{line}", st.trace[-3:])
    slf = ("p", f.qual, f.params[0])
    for st in [s for _, s in out.ret] + list(out.normal or ()):
        for k, v in st.heap.items():
            if isinstance(k, tuple) and k[0] == "fld" and k[1] == slf:
                for a in alts(v):
                    for role, t in par.items():
                        if bare(a)[0] == t or role == "list" and a in r.kept:
                            fields[role] = k[2]
                    if any(mentions(h, a) or mentions(h, ("a", slf, k[2])) for h in r.handled):
                        fields["urls"] = k[2]
    return fields


class Chain(Rule):
    """attached_repo.  ps: frozenset of ("load"|"wrap", manager, result)"""
    keep_all_facts = True
    max_states = 80
    term_depth = 16

    def __init__(self, ctx, f):
        self.ctx, self.f, self.loops, self.inherits = ctx, f, 0, set()

    def can_raise(self, c):
        return False

    def opaque(self, f):
        return f.name in ("package_lookup_chain", "load", "_wrap_attached_repository", "parent_contexts")

    def on_property(self, c, st, eng):
        return Take(normal=[(("a", c.recv, c.name.split(".")[-1]), st)])

    def bad(self, kind, what, where, st):
        self.ctx.finding(kind, self.f.short, what, where, st.trace[-3:])

    def manager(self, t):
        """(manager of the chain, the chain is gone through from its end)"""
        if t[0] in ("elem", "other"):
            b, turned = bare(t[1])
            if call_name(b) == "package_lookup_chain":
                return t, turned
        return None, False

    def on_iter(self, it, el, st, node, fr, eng):
        m, turned = self.manager(el)
        if m is not None:
            self.loops += 1
            self.ctx.count("lookup_chains")
            if turned == any(x == ("reversed", it) for x in st.ps):
                self.bad("order", "the configurations are not put on each other from the farthest to the nearest", f"{self.f.module.rel}:{getattr(node, 'lineno', 0)}", st)
            return st.with_ps(frozenset(x for x in st.ps if x[0] == "reversed"))

    def on_call(self, c, st, eng):
        if t := turning(c, st):
            return t
        if c.name == "load" and len(c.args) >= 3:
            b = c.args[1]
            m = b[1] if b[0] == "a" and b[2] == "configuration" else const(None)
            t = ("call", ("m", "load"), m, (), ())
            self.inherits |= {call_name(x) for x in alts(c.args[2])}
            return Take(normal=[(t, st.with_ps(st.ps | {("load", m, t)}))])
        if c.name == "_wrap_attached_repository" and c.recv is not None:
            t = ("call", ("m", "wrap"), c.recv, (), ())
            given = {x for a in c.args[:1] for x in alts(a) if call_name(x) == "load"}
            return Take(normal=[(t, st.with_ps(st.ps | {("wrap", c.recv, x) for x in given or {const(None)}}))])

    def on_iter_end(self, it, el, st, node, fr, eng, filtered):
        m, turned = self.manager(el)
        if m is None:
            return None
        where = f"{self.f.module.rel}:{getattr(node, 'lineno', 0)}"
        ls = [x[2] for x in st.ps if x[0] == "load" and x[1] == m]
        ws = [x[2] for x in st.ps if x[0] == "wrap" and x[1] == m]
        none = any(l[0] == "isinst" and pol and l[1] == m or l[0] == "truthy" and not pol and call_name(l[1]) == "exists" and mentions(l[1], m) for l, (pol, _) in st.facts.items())
        if not ls and not none:
            self.bad("configuration-skipped", "a configuration of the chain may be left out though its file exists", where, st)
        if not ws:
            self.bad("configuration-skipped", "what a context adds to its repositories may be left out", where, st)
        elif ls and not any(x == y for x in ws for y in ls):
            self.bad("configuration-skipped", "the repositories of a configuration may be dropped after they were loaded", where, st)


class Modes(Rule):
    keep_all_facts = True
    max_states = 80

    def can_raise(self, c):
        return False

    def opaque(self, f):
        return f.name in ("parent_contexts",)

    def on_property(self, c, st, eng):
        return Take(normal=[(("a", c.recv, c.name.split(".")[-1]), st)])

    def keep(self, lit, st, eng):
        return lit[0] == "eq"


class Keep(Rule):
    """changing the bindings of some packages keeps the others"""
    keep_all_facts = True

    def __init__(self, ctx, f):
        self.ctx, self.f, self.kept = ctx, f, {}
        self.pars = tuple(("p", f.qual, n) for n in f.params[1:2])

    def can_raise(self, c):
        return False

    def opaque(self, f):
        return f.name in ("save", "_update_config", "package_name_key")

    def old(self, t):
        return any(x[0] == "a" and x[2] == "package_bindings" for x in subterms(t))

    def on_iter_end(self, it, el, st, node, fr, eng, filtered):
        if not (filtered and self.old(el)):
            return None
        for l, (pol, _) in st.facts.items():
            if pol and l[0] in ("eq", "in") and self.old(l) and any(mentions(l, p) or self.reach(l, p, st) for p in self.pars):
                return None
            if pol and l[0] == "in" and self.old(l[1]) and l[2][0] == "cont" and not st.heap.get(l[2]):
                return None
        self.ctx.finding("binding-lost", self.f.short, "a binding of another package may be lost", f"{self.f.module.rel}:{getattr(node, 'lineno', 0)}", st.trace[-3:])

    def reach(self, t, v, st, seen=()):
        if mentions(t, v):
            return True
        return any(x not in seen and isinstance(st.heap.get(x), frozenset) and any(self.reach(e, v, st, seen + (x,)) for e, _ in st.heap[x])
                   for x in subterms(t) if x[0] == "cont")

    def holds_old(self, t, st, seen=()):
        if self.old(t):
            return True
        return any(x not in seen and isinstance(st.heap.get(x), frozenset) and any(self.holds_old(e, st, seen + (x,)) for e, _ in st.heap[x])
                   for x in subterms(t) if x[0] == "cont")

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        if kind == "attr" and key in ("package_bindings", const("package_bindings")):
            self.ctx.count("binding_changes")
            self.kept.setdefault(getattr(node, "lineno", 0), []).append((self.holds_old(value, st), st))


def managing(ctx, p):
    base = p.cls(MANAGE + ".RepositoryManagement")
    ctx.need(base, "RepositoryManagement")
    f = base.methods.get("attached_repo")
    ctx.need(f, "RepositoryManagement.attached_repo")
    r = Chain(ctx, f)
    eng = Engine(r)
    out = eng.run(f, frozenset(), self_cls=base.qual)
    ctx.analysed(eng)
    for t, st in out.ret:
        if r.loops and not any(call_name(x) == "wrap" for x in subterms(t)):
            if not all(a == const(None) for a in alts(t)):
                r.bad("configuration-skipped", "the repository that is attached to a context is not the one of its configurations", f.where, st)

    if r.inherits and not r.inherits - {None}:
        r.bad("inheritance", "the configurations are loaded without the repositories of the contexts above", f.where, out.ret[0][1])
    f = base.methods.get("package_lookup_chain")
    if f is not None:
        r = Modes()
        eng = Engine(r)
        out = eng.run(f, frozenset(), self_cls=base.qual)
        ctx.analysed(eng)
        slf = ("p", f.qual, f.params[0])
        for t, st in out.ret:
            els = [e for a in alts(t) if isinstance(st.heap.get(a), frozenset) for e, _ in st.heap[a]]
            if len(mode(st)) > 1 or not els:
                continue
            m = next(iter(mode(st)))
            ctx.count("lookup_modes")
            others = [e for e in els if e != slf]
            if m != "INHERIT_CONTEXT" and slf not in els:
                ctx.finding("configuration-skipped", f"{f.short}:{m}", f"with {m} a context does not use its own configuration", f.where, st.trace[-3:])
            if m == "NO_INHERITANCE" and others:
                ctx.finding("inheritance", f"{f.short}:{m}", f"with {m} the configuration also gets those of other contexts", f.where, st.trace[-3:])
            if m == "INHERIT_GLOBAL" and not any(e[0] == "a" and e[2] == "repository_management" and e[1][0] == "g" for e in others):
                ctx.finding("inheritance", f"{f.short}:{m}", f"with {m} the configuration does not get the global repositories", f.where, st.trace[-3:])
    ctx.at_least("lookup_modes", 1)

    for cls in p.all_subclasses(base):
        f = cls.methods.get("_wrap_attached_repository")
        if f is None:
            continue
        r = Modes()
        eng = Engine(r)
        out = eng.run(f, frozenset(), self_cls=cls.qual)
        ctx.analysed(eng)
        inh = ("p", f.qual, f.params[1])
        for t, st in out.ret:
            for a in alts(t):
                ctx.count("wrappings")
                terms, todo = [], [a]
                while todo and len(terms) < 60:
                    terms.append(todo.pop())
                    parts = set(subterms(terms[-1]))
                    todo += [v for k, v in st.heap.items() if isinstance(k, tuple) and k[0] == "fld" and k[1] in parts and v not in terms]
                if not any(mentions(x, inh) for x in terms) and not any(x[0] == "a" and x[2] in ("global_repo", "_global_repo") for x in subterms(a)):
                    ctx.finding("configuration-skipped", f.short, f"{f.short} drops the repositories of the configurations", f.where, st.trace[-3:])

    for n in ("register_bindings", "remove_repository"):
        f = base.methods.get(n)
        if f is None:
            continue
        r = Keep(ctx, f)
        eng = Engine(r)
        eng.run(f, frozenset(), self_cls=base.qual)
        ctx.analysed(eng)
        for line, vs in r.kept.items():
            if not any(ok for ok, _ in vs):
                ctx.finding("binding-lost", f.short, "the bindings of other packages are not kept", f"{f.module.rel}:{line}", vs[0][1].trace[-3:])


def check(ctx):
    p = program()
    roles = loading(ctx, p)
    building(ctx, p)
    comp = p.cls(LOADER + "._CompositeRepository")
    ctx.need(comp, "_CompositeRepository")
    fields = stored(ctx, comp, roles)
    f = comp.methods["_do_match"]
    r = Ask(ctx, f, fields)
    eng = Engine(r)
    out = eng.run(f, frozenset(), self_cls=comp.qual)
    ctx.analysed(eng)
    for vs in r.found.values():
        if None not in vs:
            for kind, what, where, st in vs[:1]:
                r.bad(kind, what, where, st)
    for t, st in out.ret:
        if by_url(st):
            continue
        b = r.bound(st)
        for a in alts(t):
            ctx.count("answers")
            asked = call_name(a) == "match"
            if any(m[0] == "kept" and mentions(a, m[1]) for m in st.ps):
                r.bad("merged", "what several repositories have is put together", f.where, st)
            if b and not asked:
                r.bad("bound-to-nothing", "the search for a package that is bound to a repository may find nothing without an error, though its repository is not defined", f.where, st)
            elif b is False and not any(m[0] == "done" and m[1:] in r.asking for m in st.ps) and not (asked and st.facts.get(("truthy", a), (None,))[0]):
                r.bad("gives-up", "the search may end at a repository that has no match, before those that follow are asked", f.where, st)
            elif b is None and not asked and st.facts.get(("truthy", r.list), (None,))[0] is not False:
                r.bad("gives-up", "the search may end before any repository is asked", f.where, st)
    managing(ctx, p)
    ctx.at_least("configuration_duties", 8)
    ctx.at_least("inheritance_paths", 3)
    ctx.at_least("repositories_asked", 2)
    ctx.at_least("answers", 2)
