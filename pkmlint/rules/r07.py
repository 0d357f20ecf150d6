"""R07: configured dependency overrides reach every resolution.  (1) a function that was given overrides hands them on, on every
path, to each call that can take them; (2) what is resolved for the dependencies of an application configuration is resolved
with the overrides of the same configuration; (3) the problem given to the solver keeps them and makes a term of a
requirement's own specification only where it found no override for its package."""
import re
from ..common import *
from . import r01

NAME = re.compile(r"overrid|overwrit", re.I)
PUB = "pkm.resolution.pubgrub"


def carriers(p):
    """function -> its parameter that takes overrides"""
    r = {}
    for f in p.funcs.values():
        if f.module.name.split(".")[0] in LIBRARY or f.module.name.startswith("pkm_cli"):
            for a in list(f.params) + list(f.kwonly):
                if NAME.search(a):
                    r[f.qual] = a
    ti = types()
    changed = True
    while changed:
        changed = False
        for f in p.funcs.values():
            if f.qual in r or f.module.name.split(".")[0] not in LIBRARY:
                continue
            for n in ast.walk(f.node):
                if not isinstance(n, ast.Call):
                    continue
                g = ti.static_callee(n, f)
                if g is None or getattr(g, "qual", None) not in r:
                    continue
                v = argument(n, g, r[g.qual])
                if isinstance(v, ast.Name) and v.id in list(f.params) + list(f.kwonly):
                    r[f.qual] = v.id
                    changed = True
    return r


def argument(call, g, name):
    for k in call.keywords:
        if k.arg == name:
            return k.value
    ps = list(g.params)
    if name in ps:
        i = ps.index(name) - (1 if g.cls is not None and not g.is_static else 0)
        if 0 <= i < len(call.args) and not any(isinstance(a, ast.Starred) for a in call.args[:i + 1]):
            return call.args[i]
    return None


class HandOn(Rule):
    """the calls of one function"""
    keep_all_facts = True
    max_states = 60

    def __init__(self, ctx, entry, carry, tables):
        self.ctx, self.entry, self.carry, self.tables = ctx, entry, carry, tables
        self.own = ("p", entry.qual, carry[entry.qual]) if entry.qual in carry else None
        self.handed = 0
        self.stored = set()
        self.placeholders = self.defaults()

    def can_raise(self, c):
        return c.func is not None and c.func.qual in self.carry or c.ext is None and c.func is None and c.cls is None

    def opaque(self, f):
        return f.parent is None and f.cls is not self.entry.cls or f.qual in self.carry or not (
                f.parent is not None or any(isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)) and
                                            (getattr(n.func, "id", None) or n.func.attr) in self.names for n in walk_own(f.node)))

    @property
    def names(self):
        return {q.rsplit(".", 1)[1] if not q.endswith("__init__") else q.rsplit(".", 2)[1] for q in self.carry}

    def defaults(self):
        """where an empty container stands in for overrides that were not given"""
        out = set()
        for n in ast.walk(self.entry.node):
            if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or):
                test, parts = n.values[0], n.values[1:]
            elif isinstance(n, ast.IfExp):
                test, parts = n.test, [n.body, n.orelse]
            elif isinstance(n, ast.If):
                test, parts = n.test, [x.value for x in n.body if isinstance(x, ast.Assign)]
            else:
                continue
            if self.own is not None and any(isinstance(y, ast.Name) and y.id == self.own[2] for y in ast.walk(test)):
                out |= {(x.lineno, x.col_offset) for x in parts}
        return out

    def holds(self, t, st, seen=()):
        """t is, or is made of all of, the overrides this function was given"""
        if t is None or t in seen:
            return False
        if t[0] == "phi":
            return all(self.holds(x, st, seen) or self.empty(x, st) and self.none_given(st) for x in t[1])
        if mentions(t, self.own):
            return t not in self.filtered
        r = st.heap.get(t)
        if t[0] == "cont" and not r and tuple(t[2][1:]) in self.placeholders:
            return True
        if isinstance(r, frozenset):
            return t not in self.filtered and (any(mentions(el, self.own) for el, _ in r) or not r and self.none_given(st) or
                                               any(y[0] == "cont" and self.holds(y, st, (*seen, t)) for el, _ in r for y in subterms(el)))
        return False

    filtered = frozenset()

    def empty(self, t, st):
        return t == NONE or t[0] == "cont" and not st.heap.get(t)

    def none_given(self, st):
        return any((lit == ("truthy", self.own) and not pol) or (lit == ("isnone", self.own) and pol) for lit, (pol, _) in st.facts.items())

    def on_call(self, c, st, eng):
        fs = [f for f in ([c.func] if c.func is not None else []) + list(c.impls or ()) if f.qual in self.carry]
        if not fs and c.cls is not None:
            init = program().find_method(c.cls, "__init__")
            fs = [init] if init is not None and init.qual in self.carry else []
        if not fs:
            return None
        f = fs[0]
        name = self.carry[f.qual]
        ps = [a for a in f.params if not (f.cls is not None and not f.is_static and a == f.params[0])]
        v = c.kwargs.get(name)
        if v is None and name in ps:
            v = c.args[ps.index(name)] if ps.index(name) < len(c.args) else None
        if v is None and "**" in c.kwargs and c.kwargs["**"] is not None:
            v = c.kwargs["**"]
        if v is None and any(isinstance(a, tuple) and a[0] == "star" for a in c.args):
            v = next(a[1] for a in c.args if a[0] == "star")
        self.ctx.count("calls_that_take_overrides")
        if self.own is not None:
            if not self.holds(v, st) and not self.none_given(st):
                self.ctx.finding("overrides-lost", self.entry.short, f"{self.entry.short} calls {f.short} without the overrides it was given", c.where, st.trace[-4:])
            else:
                self.handed += 1
        want = self.belonging(c, st)
        for field, table in want:
            self.ctx.count("calls_with_configured_dependencies")
            if v is None or not (mentions(v, table) or any(isinstance(st.heap.get(y), frozenset) and any(mentions(el, table) for el, _ in st.heap[y])
                                                           for y in subterms(v) if y[0] == "cont")):
                self.ctx.finding("overrides-lost", self.entry.short, f"{self.entry.short} calls {f.short} for the `{field}` of a configuration without its overrides", c.where, st.trace[-4:])
        return Take(normal=[(("call", ("m", f.name), None, (), (c.where,)), st)], raises=[(("exc", None, None), st)])

    def belonging(self, c, st):
        """(field, overrides of the same object) for each configuration whose dependencies are handed over"""
        out = []
        for x in list(c.args) + list(c.kwargs.values()):
            if not isinstance(x, tuple):
                continue
            ys = list(subterms(x)) + [y for z in subterms(x) if z[0] == "cont" and isinstance(st.heap.get(z), frozenset) for el, _ in st.heap[z] for y in subterms(el)]
            for y in ys:
                if y[0] == "a" and y[2] == "dependencies":
                    for field in self.config_fields(y[1], c):
                        if ("dependencies", ("a", y[1], field)) not in out:
                            out.append(("dependencies", ("a", y[1], field)))
        return out

    def config_fields(self, t, c):
        if t[0] == "p":
            f = program().funcs.get(t[1])
            ann = f.annotations.get(t[2]) if f is not None else None
            text = ast.unparse(ann) if isinstance(ann, ast.AST) else str(ann)
            return {field for cfg, field in self.configs if cfg.name in text}
        return self.tables.get(t[2], ()) if t[0] == "a" else ()

    def on_iter_end(self, it, el, st, node, fr, eng, filtered):
        if filtered and self.own is not None and mentions(it, self.own) or filtered and any(x == self.own for x in subterms(el)):
            for cont, r in list(st.heap.items()):
                if isinstance(r, frozenset) and isinstance(cont, tuple) and cont[0] == "cont" and cont[2][1:] and cont[2][1] == getattr(node, "lineno", 0):
                    self.filtered = self.filtered | {cont}
        return None

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        if kind == "attr" and self.own is not None and value is not None and (mentions(value, self.own) or self.holds(value, st)):
            self.stored.add(key)
        return None


class Applied(r01.Terms):
    """the requirement's own specification counts only where no override was found"""
    fields = frozenset()

    def judge_terms(self, out):
        pass

    def got(self, cont, value, st, eng):
        r = super().got(cont, value, st, eng)
        if value[:2] == ("call", ("mk", "Term")):
            pkg, spec = value[3]
            els = {x for x in subterms(spec) if x[0] == "elem"} | {x for x in subterms(pkg) if x[0] == "elem"}
            for el in els:
                looked = self.bare(spec) != spec and not mentions(self.bare(spec), el)
                self.ctx.count("terms_judged")
                if looked:
                    self.ctx.count("terms_of_overrides")
                elif not self.absent(el, st):
                    self.ctx.finding("override-ignored", self.entry.short, f"{self.entry.short} uses a requirement's own specification without having found "
                                     "that there is no override for its package", self.entry.where, st.trace[-4:])
        return r

    def bare(self, t):
        """t without the overrides that were looked up in it"""
        if not isinstance(t, tuple):
            return t
        if t[:1] in (("call",), ("s",)) and any(x[0] == "a" and x[2] in self.fields for x in subterms(t) if isinstance(x, tuple) and x):
            return ("override",)
        return tuple(self.bare(x) for x in t)

    def on_call(self, c, st, eng):
        if c.name == "get" and c.recv is not None and c.recv[0] == "a" and c.recv[2] in self.fields and len(c.args) > 1 and c.args[1] != NONE:
            na, got, done, o = st.ps
            none = st.with_ps((na, got, done, o | {("absent", x) for y in c.args for x in subterms(y) if x[0] == "elem"}))
            return Take(normal=[(("call", ("m", "get"), c.recv, (c.args[0],), ()), st), (c.args[1], none)])
        return super().on_call(c, st, eng)

    def on_iter(self, it, el, st, node, fr, eng):
        st = super().on_iter(it, el, st, node, fr, eng)
        e = self.core(el)
        return st.with_ps(st.ps[:3] + (frozenset(x for x in st.ps[3] if x[:1] != ("absent",) or x[1] != e),))

    def absent(self, el, st):
        if ("absent", el) in st.ps[3]:
            return True
        for lit, (pol, _) in st.facts.items():
            if lit[0] in ("truthy", "isnone") and pol == (lit[0] == "isnone") and mentions(lit[1], el) and any(x[0] == "a" and x[2] in self.fields for x in subterms(lit[1])):
                return True
            if lit[0] == "in" and not pol and mentions(lit[1], el) and any(x[0] == "a" and x[2] in self.fields for x in subterms(lit[2])):
                return True
            if lit[0] == "truthy" and not pol and lit[1][0] == "a" and lit[1][2] in self.fields:
                return True     # there are none
        return False


def check(ctx):
    p = program()
    carry = carriers(p)
    ctx.need(len(carry) >= 4, "functions that take dependency overrides")
    ctx.rule("a function that was given overrides hands them on to every call that can take them; what is installed for the dependencies of a "
             "configuration is installed with the overrides of that configuration")
    tables = {}
    configs = []
    for c in p.classes.values():
        if c.module.name.split(".")[0] in LIBRARY and "dependencies" in c.fields:
            for f in c.fields:
                if NAME.search(f):
                    configs.append((c, f))
    names = {q.rsplit(".", 1)[1] if not q.endswith("__init__") else q.rsplit(".", 2)[1] for q in carry}
    ctx.need(configs, "a configuration with dependencies and overrides")
    # attributes that hold such a configuration
    for c in p.classes.values():
        if c.module.name.split(".")[0] not in LIBRARY:
            continue
        for a, ann in c.fields.items():
            for cfg, f in configs:
                if ann is not None and cfg.name in (ast.unparse(ann) if isinstance(ann, ast.AST) else str(ann)):
                    tables.setdefault(a, set()).add(f)
    callers = {f.qual for f in p.funcs.values() if any(
        isinstance(n, ast.Call) and (getattr(n.func, "id", None) or getattr(n.func, "attr", None)) in names for n in ast.walk(f.node))}
    while True:         # also through a method of the same object
        more = {f.qual for f in p.funcs.values() if f.cls is not None and f.qual not in callers and any(
            isinstance(n, ast.Attribute) and n.attr in f.cls.methods and f.cls.methods[n.attr].qual in callers for n in ast.walk(f.node))}
        if not more:
            break
        callers |= more
    stored = {}
    for f in sorted(p.funcs.values(), key=lambda f: f.qual):
        if f.module.name.split(".")[0] not in LIBRARY:
            continue
        calls = f.qual in callers
        configured = any(isinstance(n, ast.Attribute) and n.attr in tables for n in ast.walk(f.node)) or any(
            cfg.name in (ast.unparse(a) if isinstance(a, ast.AST) else "") for cfg, _ in configs for a in f.annotations.values() if a is not None)
        if f.parent is not None or not (f.qual in carry or calls and configured):
            continue
        r = HandOn(ctx, f, carry, tables)
        r.configs = configs
        eng = Engine(r)
        eng.run(f, ())
        ctx.analysed(eng)
        ctx.count("functions_that_handle_overrides")
        if r.stored:
            stored[f.cls.qual if f.cls is not None else f.qual] = r.stored
        body = [x for x in f.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)) and not isinstance(x, ast.Pass)]
        if f.qual in carry and not r.handed and not r.stored and body:
            ctx.finding("overrides-lost", f.short, f"{f.short} does nothing with the overrides it is given", f.where)
    ctx.at_least("calls_that_take_overrides", 4)
    ctx.at_least("calls_with_configured_dependencies", 1)
    check_problem(ctx, p, stored)


def check_problem(ctx, p, stored):
    ctx.rule("the problem given to the solver makes a term of a requirement's own specification only where it found no override for the package")
    base = p.cls(PUB + ".Problem")
    ctx.need(base, PUB + ".Problem")
    for c in p.all_subclasses(base):
        m = c.methods.get("get_dependencies")
        if m is None or c.module.name.split(".")[0] not in LIBRARY or len(m.params) < 3 or c.qual not in stored:
            continue
        pk = ("p", m.qual, m.params[1])
        r = Applied(ctx, m, set(), ("a", pk, "extras"))
        r.package, r.version = pk, ("p", m.qual, m.params[2])
        r.fields = frozenset(stored[c.qual])
        eng = Engine(r)
        eng.run(m, r.start())
        ctx.analysed(eng)
        ctx.count("problems")
    ctx.at_least("problems", 1)
    ctx.at_least("terms_of_overrides", 1)
