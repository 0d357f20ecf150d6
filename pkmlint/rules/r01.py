"""R01: no applicable requirement is lost between a package and the solver.  One arbitrary requirement is followed through each
step on the way: (1) every `dependencies` implementation returns all of them, leaving out only what was found inapplicable for
the given environment and the given extras; (2) the installation problem turns each one that it does not find inapplicable into
a term with the requirement's own specification or that of the override configured for its package; (3) terms on the same
package are combined, none replaces another; (4) each term becomes an incompatibility that is registered for every package it
mentions and that covers this version; (5) a version is decided on only after that, and its packages are required; (6) every
package of the solution is returned."""
from ..common import *

DEP = "pkm.api.dependencies.dependency.Dependency"
PUB = "pkm.resolution.pubgrub"
OWN = const("<the incompatibility it already has>")
APPLICABLE = {"is_applicable_for", "evaluate_on"}


class Follow(Rule):
    """ps: (inapplicable elements, (element, container) pairs, loops done, what else the rule notes)"""
    max_states = 60
    keep_all_facts = True
    fold_counters = False

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry
        self.bad, self.seen, self.adding, self.bad_loops = {}, set(), set(), {}

    def start(self):
        return (frozenset(), frozenset(), frozenset(), frozenset())

    def can_raise(self, c):
        return False

    def param(self, name):
        return ("p", self.entry.qual, name)

    def opaque(self, f):
        return f.name != "__init__" and not (f.cls is not None and f.cls is self.entry.cls) and f.parent is None and f.module is not self.entry.module

    @staticmethod
    def core(el):
        return el if el[0] == "elem" else next((x for x in subterms(el) if x[0] == "elem"), el)

    # ---- the loop
    def on_iter(self, it, el, st, node, fr, eng):
        el = self.core(el)
        na, got, done, o = st.ps
        if any(x[:2] == ("call", ("x", "@slice")) and any(b != NONE for b in x[3][1][2:]) for x in subterms(it)):
            self.bad.setdefault(it, (f"{fr.func.module.rel}:{getattr(node, 'lineno', 0)}", st.trace[-3:]))     # a part of them
        self.seen.add(it)
        return st.with_ps((frozenset(x for x in na if not mentions(x, el)), frozenset(x for x in got if x[0] != el), done, o))

    def on_add(self, cont, value, st, node, fr, eng):
        if value is None:
            return None
        return self.got(cont, value, st, eng)

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        return self.got(base, value, st, eng) if kind == "sub" and value is not None else None

    def got(self, cont, value, st, eng):
        na, got, done, o = st.ps
        els = {x for x in subterms(value) if x[0] == "elem"}
        return st.with_ps((na, got | {(e, cont) for e in els}, done, o)) if els else None

    def may_drop(self, el, st):
        return el in st.ps[0]

    def on_iter_end(self, it, el, st, node, fr, eng, filtered):
        el = self.core(el)
        if any(e == el for e, _ in st.ps[1]):
            self.adding.add((it, getattr(node, "lineno", 0)))
        elif not self.may_drop(el, st):
            self.bad.setdefault(it, (f"{fr.func.module.rel}:{getattr(node, 'lineno', 0)}", st.trace[-3:]))
            self.bad_loops[(it, getattr(node, "lineno", 0))] = self.bad[it]
        return None

    def on_iter_break(self, it, el, st, node, fr, eng):
        self.bad.setdefault(it, (f"{fr.func.module.rel}:{getattr(node, 'lineno', 0)}", st.trace[-3:]))
        self.bad_loops[(it, getattr(node, "lineno", 0))] = self.bad[it]
        return None

    def on_loop_done(self, it, st, node, fr, eng):
        return st.with_ps(st.ps[:2] + (st.ps[2] | {it}, st.ps[3]))


class Deps(Follow):
    """a `dependencies` implementation"""

    def __init__(self, ctx, entry, envs, extras):
        super().__init__(ctx, entry)
        self.envs, self.extras = envs, extras
        self.asked, self.wrong = 0, {}

    def good_env(self, t):
        return t in self.envs or t is not None and t[0] == "a" and t[1] in self.envs

    def good_extras(self, t):
        if self.extras is None:
            return True
        return t is not None and (t == self.extras or t[0] == "op" and t[1] == "or" and t[2] == self.extras or
                                  t[0] == "phi" and self.extras in t[1])

    def on_call(self, c, st, eng):
        if c.ext == "dataclasses.replace" and c.args:      # a changed copy of the requirement
            return Take(normal=[(("call", ("x", "copy"), None, tuple(c.args) + tuple(v for _, v in sorted(c.kwargs.items(), key=str)), ()), st)])
        if c.name in APPLICABLE and c.recv is not None and c.args:
            el = next((x for x in subterms(c.recv) if x[0] == "elem"), None)
            ex = c.arg(1, "extras")
            ex = ex if ex is not None else c.kwargs.get("extras")
            ok = self.good_env(c.arg(0, "env")) and self.good_extras(ex)
            self.asked += 1
            no = st if el is None or not ok else st.with_ps((st.ps[0] | {el},) + st.ps[1:])
            return Take(normal=[(TRUE, st), (FALSE, no)])
        if c.name == "dependencies" and c.recv is not None and (c.args or c.kwargs):
            self.asked += 1
            t = ("call", ("m", "dependencies"), c.recv, tuple(c.args), tuple(sorted((k, v) for k, v in c.kwargs.items() if isinstance(k, str))))
            if not self.good_env(c.arg(0, "target")) or not self.good_extras(c.arg(1, "extras")):
                self.wrong[t] = (c.where, st.trace[-3:])
            return Take(normal=[(t, st)])
        return None

    def may_drop(self, el, st):
        if el in st.ps[0]:
            return True
        for lit, (pol, _) in st.facts.items():
            if lit[0] == "eq" and pol and any(x[0] == "a" and x[1] == el and "name" in x[2] for x in lit[1:]) and \
                    any(x == const("python") for x in lit[1:]):
                return True     # the interpreter itself is not a package
            if lit[0] in ("truthy", "isnone") and pol == (lit[0] == "isnone") and call_name(lit[1]) == "installed_package" and mentions(lit[1], el):
                return self.removal
        return False

    removal = False

    def judge(self, out):
        some = False
        for t, st in out.ret:
            self.ctx.count("results_of_dependencies")
            r = st.heap.get(t)
            its = set(self.sources(t, st, set()))
            if not isinstance(r, frozenset):
                its.add(t)
            some = some or bool(its)
            for i in its:
                if i in self.wrong:
                    self.fail("asked-for-other", "asks another package for its requirements without passing on the environment and the extras", *self.wrong[i])
                if self.nothing(i):
                    self.fail("no-source", "returns the requirements of something that is never there", self.entry.where, st.trace[-3:])
            if not isinstance(r, frozenset):
                continue
            bad = next((self.bad[i] for i in its if i in self.bad), None)
            if bad:
                self.fail("requirement-dropped", "leaves out a requirement that was not found inapplicable", *bad)
            if not r and not st.ps[2] and not any((lit[0] == "truthy" and not pol or lit[0] == "isnone" and pol) and
                                                  any(x[0] in ("a", "call", "s") for x in subterms(lit[1])) for lit, (pol, _) in st.facts.items()):
                self.fail("requirement-dropped", "returns no requirements without looking at them", self.entry.where, st.trace[-3:])
        if not some and self.bad:
            self.fail("requirement-dropped", "leaves out a requirement that was not found inapplicable", *next(iter(self.bad.values())))

    def fail(self, kind, what, where, trace=()):
        self.ctx.finding(kind, self.entry.short, f"{self.entry.short} {what}", where, trace)

    def nothing(self, t):
        """t is read from a property that always returns None"""
        for x in subterms(t):
            if x[0] == "a" and x[1] in (self.param(self.entry.params[0]), NONE):
                if x[1] == NONE:
                    return True
                m = program().find_method(self.entry.cls, x[2])
                body = [] if m is None else [s for s in m.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
                if m is not None and m.is_property and len(body) == 1 and isinstance(body[0], ast.Return) and \
                        (body[0].value is None or isinstance(body[0].value, ast.Constant) and body[0].value.value is None):
                    return True
        return False

    def sources(self, t, st, seen):
        """the iterables whose elements t holds"""
        if t in seen:
            return
        seen.add(t)
        r = st.heap.get(t)
        for e in ([x for x, _ in r] if isinstance(r, frozenset) else [t]):
            yield from self.inner(e, st, seen)

    def inner(self, t, st, seen):
        if not isinstance(t, tuple) or not t:
            return
        if t[0] == "elem":
            yield t[1]
            yield from self.sources(t[1], st, seen)
        elif t[0] == "cont":
            yield from self.sources(t, st, seen)
        elif t[0] in ("call", "op", "phi", "tup", "kv", "s"):
            for x in t[1:]:
                if isinstance(x, tuple):
                    for y in (x,) if x and isinstance(x[0], str) else x:
                        yield from self.inner(y, st, seen)


class Terms(Deps):
    """a problem's get_dependencies: requirements in, terms out"""

    def opaque(self, f):
        return f.name == "of" or super().opaque(f) or f.cls is not None and f.cls.name == "Term"

    def on_call(self, c, st, eng):
        if c.cls is not None and c.cls.qual == PUB + ".Term":
            pkg, spec = c.arg(0, "package"), c.arg(1, "constraint")
            return Take(normal=[(("call", ("mk", "Term"), None, (pkg or NONE, spec or NONE), ()), st)])
        if c.cls is not None and c.cls.name.startswith("Version"):
            return Take(normal=[(("call", ("mk", c.cls.qual), None, tuple(c.args) + tuple(v for _, v in sorted(c.kwargs.items(), key=str)), ()), st)])
        if c.name == "dependencies" and c.recv is not None:
            self.asked += 1
            t = ("call", ("m", "dependencies"), c.recv, tuple(c.args), tuple(sorted((k, v) for k, v in c.kwargs.items() if isinstance(k, str))))
            if not self.good_extras(c.arg(1, "extras")):
                self.wrong[t] = (c.where, st.trace[-3:])
            return Take(normal=[(t, st)])
        return super().on_call(c, st, eng)

    def good_env(self, t):
        return t is not None and any(x[0] == "a" and "target" in x[2] for x in subterms(t)) or super().good_env(t)

    def got(self, cont, value, st, eng):
        """a term stands for the requirement whose specification it carries, or for the one it overrides"""
        if value[:2] != ("call", ("mk", "Term")):
            return None
        pkg, spec = value[3]
        na, got, done, o = st.ps
        owner = spec[1] if spec[0] == "a" else None
        self.ctx.count("terms_made")
        if owner is not None and mentions(pkg, owner):
            if owner[0] == "elem":
                return st.with_ps((na, got | {(owner, cont)}, done, o))
            els = {x for x in subterms(owner) if x[0] == "elem"}
            if any(x[0] == "a" and "overrid" in x[2] for x in subterms(owner)):
                return st.with_ps((na, got | {(e, cont) for e in els}, done, o))
        elif spec[0] != "elem" and mentions(spec, self.version) and any(x[0] == "a" or x == self.package for x in subterms(pkg)):
            return st.with_ps((na, got, done, o | {("self", cont)}))
        return None

    def judge_terms(self, out):
        for t, st in out.ret:
            self.ctx.count("ways_through_get_dependencies")
            for where, trace in [v for k, v in self.bad_loops.items() if k in self.adding][:1]:
                self.fail("requirement-dropped", "makes no term of a requirement that was not found inapplicable, or one without its specification", where, trace)
            for i in self.wrong:
                self.fail("asked-for-other", "asks the package for its requirements without passing on the extras", *self.wrong[i])
            if not any(k[0] in st.ps[2] for k in self.adding):
                self.fail("requirement-dropped", "returns without looking at the requirements", self.entry.where, st.trace[-3:])
            plain = any(lit == ("truthy", self.extras) and not pol or lit == ("isnone", self.extras) and pol for lit, (pol, _) in st.facts.items())
            if not plain and not any(x[0] == "self" for x in st.ps[3]):
                self.fail("base-not-required", "does not require the package itself for a package with extras", self.entry.where, st.trace[-3:])


class Fetch(Follow):
    """the terms of a version end in its table of dependencies"""

    def opaque(self, f):
        return f.name in ("intersect", "join") or super().opaque(f)

    def on_call(self, c, st, eng):
        if c.name == "get_dependencies":
            self.fetched = ("call", ("m", "get_dependencies"), c.recv, (), ())
            return Take(normal=[(self.fetched, st)])
        if c.cls is not None and c.cls.name == "PackageDependency":
            return Take(normal=[(("call", ("mk", c.cls.qual), None, tuple(c.args) + tuple(v for _, v in sorted(c.kwargs.items(), key=str)), ()), st)])
        if c.name in ("intersect", "join", "intersect_with"):
            return Take(normal=[(c.term(), st)])
        if c.name in ("get", "pop") and c.recv is not None and c.recv[0] == "cont" and c.args:
            na, got, done, o = st.ps
            there = Take(normal=[(("s", c.recv, c.args[0]), st)])
            if c.name == "get":
                there.normal.append((c.arg(1, "default") or NONE, st.with_ps((na, got, done, o | {(c.recv, c.args[0])}))))
            return there
        return None

    def on_load(self, base, key, st, node, fr, eng):
        if base[0] == "cont" and isinstance(node, ast.Subscript):
            return Take(normal=[(("s", base, key), st)])

    def on_iter(self, it, el, st, node, fr, eng):
        st = super().on_iter(it, el, st, node, fr, eng)
        src = node.generators[0].iter if hasattr(node, "generators") else getattr(node, "iter", None)
        pairs = el[0] == "tup" and isinstance(src, ast.Call) and isinstance(src.func, ast.Attribute) and src.func.attr == "items"
        return st.with_ps(st.ps[:3] + (frozenset([("key", el[1][0])] if pairs else ()),))      # keys of a table do not repeat

    fetched = None

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        if kind == "sub":
            self.write(base, key, value, st, node, fr, isinstance(node, ast.DictComp))
            return self.got(base, value, st, eng)
        if kind == "attr" and value is not None and base == self.param(self.entry.params[0]):
            self.stored.append((value, st))
        return None

    def write(self, cont, key, value, st, node, fr, at_once=False):
        """an entry of a table is written; what was there under the key must be part of the new value"""
        self.ctx.count("table_writes")
        term = next((x for x in subterms(key) if x[0] == "elem"), None)
        if term is None or not (key[0] == "a" and key[1] == term):
            return
        if ("key", key) in st.ps[3]:
            return
        if any(x == ("s", cont, key) for x in subterms(value)) or (cont, key) in st.ps[3] or not at_once and ("item", cont, key) not in st.heap:
            return
        for lit, (pol, _) in st.facts.items():      # found missing
            if lit[0] in ("truthy", "isnone") and pol == (lit[0] == "isnone") and lit[1] == ("s", cont, key):
                return
            if lit[0] == "in" and not pol and lit[1] == key and (lit[2] == cont or mentions(lit[2], cont)):
                return
        self.lost = (f"{fr.func.module.rel}:{getattr(node, 'lineno', 0)}", st.trace[-3:])

    lost = None


class Compute(Follow):
    """each requirement of a version becomes an incompatibility that covers the version"""
    max_states = 120

    def opaque(self, f):
        return f is not self.entry

    def start(self):
        return super().start()

    @property
    def slf(self):
        return self.param(self.entry.params[0])

    def of_self(self, t):
        """mentions the range of versions this version stands for"""
        if t[:2] == ("call", ("mk", "Term")) and len(t[3]) > 1:
            t = t[3][1]         # what matters is what the term says about the package, not that it is about the package
        return any(x[0] == "a" and x[1] == self.slf and ("range" in x[2] or x[2] in ("term", "version")) for x in subterms(t))

    def on_call(self, c, st, eng):
        na, got, done, o = st.ps
        if c.cls is not None and c.cls.module.name == PUB and c.cls.name in ("Term", "DependencyIncompatibility"):
            return Take(normal=[(("call", ("mk", c.cls.name), None, tuple(c.args) + tuple(v for _, v in sorted(c.kwargs.items(), key=str)), ()), st)])
        if c.name == "update_dependant" and c.args and self.of_self(c.args[0]) and c.recv is not None and any(
                x[0] == "a" and x[1] == c.recv for x in subterms(c.args[0])):
            return Take(normal=[(NONE, st.with_ps((na, got, done, o | {("widened", c.recv)})))])
        if c.func is not None and c.func.module is self.entry.module or c.name in ("union_with", "get"):
            return Take(normal=[(c.term(), st)])
        return None

    def on_iter(self, it, el, st, node, fr, eng):
        if not self.is_requirement(el):
            return None
        st = super().on_iter(it, el, st, node, fr, eng)
        st = st.with_ps(st.ps[:3] + (frozenset(),))
        st.heap[("fld", self.req(el), "incompatibility")] = ("phi", (NONE, OWN))      # it has an incompatibility, or has none
        return st

    def is_requirement(self, el):
        return mentions(el, ("a", self.slf, "dependencies"))

    @staticmethod
    def req(el):
        return el[1][1] if el[0] == "tup" and len(el[1]) == 2 else el

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        if kind == "attr" and value is not None and value[:2] == ("call", ("mk", "DependencyIncompatibility")):
            if st.heap.get(("fld", base, key)) != NONE:
                self.again = (f"{fr.func.module.rel}:{getattr(node, 'lineno', 0)}", st.trace[-3:])
            return st.with_ps(st.ps[:3] + (st.ps[3] | {("kept", value, ("a", base, key))},))
        return None

    again = None

    def on_add(self, cont, value, st, node, fr, eng):
        if value is None:
            return None
        return st.with_ps(st.ps[:3] + (st.ps[3] | {("added", value)},))

    def covered(self, el, st):
        o = st.ps[3]
        for tag in o:
            if tag[0] != "added":
                continue
            v = tag[1]
            if v[:2] == ("call", ("mk", "DependencyIncompatibility")):
                if any(x == ("a", el, "term") for x in v[3]) and any(self.of_self(x) for x in v[3]) and any(k[0] == "kept" and k[1] == v for k in o):
                    return True
            elif v == OWN or any(k[0] == "kept" and k[2] == v for k in o):
                return True
            elif ("widened", v) in o and mentions(v, ("a", ("a", el, "term"), "package")) and self.same(el, v, st):
                return True
        return False

    def same(self, el, v, st):
        """the requirement v was made for is this one (judged for the direct neighbour; beyond it the walk is merged)"""
        spec = ("a", ("a", el, "term"), "constraint")
        nxt = ("a", self.slf, "next")
        if mentions(v, ("a", nxt, "next")) or not mentions(v, nxt):
            return True
        for lit, (pol, _) in st.facts.items():
            if pol and lit[0] == "eq" and (spec in lit[1:] and any(mentions(x, nxt) for x in lit[1:]) or
                                           ("a", el, "term") in lit[1:] and any(mentions(x, nxt) for x in lit[1:])):
                return True
        return False

    def on_iter_end(self, it, el, st, node, fr, eng, filtered):
        if not self.is_requirement(el):
            return None
        self.ctx.count("requirements_made_incompatibilities")
        if not self.covered(self.req(el), st):
            self.bad.setdefault(it, (f"{fr.func.module.rel}:{getattr(node, 'lineno', 0)}", st.trace[-3:]))
        return None

    def on_iter_break(self, it, el, st, node, fr, eng):
        return super().on_iter_break(it, el, st, node, fr, eng) if self.is_requirement(el) else None


class Index(Follow):
    """an incompatibility is entered for every package it mentions"""

    def opaque(self, f):
        return f is not self.entry

    def on_add(self, cont, value, st, node, fr, eng):
        if value == self.param(self.entry.params[1]):
            els = {x for x in subterms(cont) if x[0] == "elem"}
            return st.with_ps((st.ps[0], st.ps[1] | {(e, "index") for e in els}) + st.ps[2:])
        return None

    def may_drop(self, el, st):
        inc = self.param(self.entry.params[1])
        return any(lit[0] == "in" and pol and lit[1] == inc and mentions(lit[2], ("a", el, "package")) for lit, (pol, _) in st.facts.items())

    def known(self, st):
        inc = self.param(self.entry.params[1])
        return any((lit[0] == "truthy" and pol and lit[1][0] == "a" and lit[1][1] == inc) or (lit[0] == "in" and pol and lit[1] == inc)
                   for lit, (pol, _) in st.facts.items())


class Decide(Follow):
    """a version is decided on after its incompatibilities are registered, and its packages are required then"""
    max_states = 120

    def __init__(self, ctx, entry, add, fetch, compute):
        super().__init__(ctx, entry)
        self.add, self.fetch, self.compute = add, fetch, compute
        self.decided, self.decisions = 0, []

    def opaque(self, f):
        return not self.force_inline(f)

    def force_inline(self, f):
        return f.cls is self.entry.cls and f is not self.add and any(
            isinstance(n, ast.Attribute) and n.attr in (self.add.name, self.compute, "assign", "require") for n in walk_own(f.node)) and \
            not any(isinstance(n, ast.Attribute) and n.attr == "backtrack" for n in walk_own(f.node))

    def on_iter(self, it, el, st, node, fr, eng):
        st = super().on_iter(it, el, st, node, fr, eng)
        return st

    def on_call(self, c, st, eng):
        na, got, done, o = st.ps
        if c.name == self.fetch and c.recv is not None:
            return Take(normal=[(NONE, st.with_ps((na, got, done, frozenset([("fetched", c.recv)]))))], raises=[(("exc", None, None), st)])
        if c.name == self.compute and c.recv is not None:
            t = ("call", ("m", self.compute), c.recv, (), ())
            return Take(normal=[(t, st.with_ps((na, got, done, o | {("computed", c.recv)})))])
        if c.func is self.add and c.args:
            els = {x for x in subterms(c.args[0]) if x[0] == "elem"}
            return Take(normal=[(NONE, st.with_ps((na, got | {(e, "registered") for e in els}, done, o)))])
        if c.name == "make_assignment":
            return Take(normal=[(("call", ("m", "make_assignment"), None, tuple(c.args), tuple(sorted((k, v) for k, v in c.kwargs.items() if isinstance(k, str)))), st)])
        if c.cls is not None and c.func is None and c.cls.module.name == PUB or c.cls is not None and c.cls.name == "VersionMatch":
            return Take(normal=[(("call", ("mk", c.cls.name), None, tuple(c.args) + tuple(v for _, v in sorted(c.kwargs.items(), key=str)), ()), st)])
        if c.name == "assign" and c.args:
            cause = c.arg(1, "cause")
            a = c.args[0]
            if call_name(a) == "make_assignment":
                cause = a[3][1] if len(a[3]) > 1 else dict(a[4]).get("cause")
            if cause is None or cause == NONE:
                self.decided += 1
                vs = {x[2] for x, _ in done if x[0] == "call" and x[1] == ("m", self.compute) and mentions(a, x[2])}
                self.decisions.append((vs, done, c.where, st.trace[-3:]))
                return Take(normal=[(NONE, st.with_ps((na, got, done, o | {("decided", v) for v in vs})))])
            return Take(normal=[(NONE, st)])
        if c.name == "require" and c.args:
            v = next((x[1] for x in subterms(c.args[0]) if x[0] == "a" and x[2] == "dependencies"), None)
            return Take(normal=[(NONE, st.with_ps((na, got, done, o | {("required", v)})))])
        return None

    def on_loop_done(self, it, st, node, fr, eng):
        return st.with_ps(st.ps[:2] + (st.ps[2] | {(it, getattr(node, "lineno", 0))}, st.ps[3]))

    def unregistered(self):
        """decisions on versions for which no loop that registers incompatibilities was finished"""
        for vs, done, where, trace in self.decisions:
            if not any(k in self.adding and k[0][:2] == ("call", ("m", self.compute)) and k[0][2] in vs for k in done):
                yield where, trace


class Solution(Follow):
    """every decided package of the solution is part of the result"""

    def opaque(self, f):
        return f is not self.entry and super().opaque(f)

    def may_drop(self, el, st):
        return any(lit[0] == "truthy" and pol and lit[1][0] == "a" and lit[1][2] == "extras" and mentions(lit[1], self.core(el))
                   for lit, (pol, _) in st.facts.items())

    def on_call(self, c, st, eng):
        if c.name == "solve":
            return Take(normal=[(("call", ("m", "solve"), None, (), ()), st)])
        if c.cls is not None and c.func is None:
            return Take(normal=[(c.term(), st)])
        return None


def returns_requirements(f):
    r = f.node.returns
    t = r.value if isinstance(r, ast.Constant) and isinstance(r.value, str) else ast.unparse(r) if r is not None else ""
    return "Dependency" in t.replace('"', "").replace("'", "").replace("]", "[").split("[") and "[" in t


def implementations(p):
    """every method that answers with the requirements of its object"""
    for c in sorted(p.classes.values(), key=lambda c: c.qual):
        if c.module.name.split(".")[0] not in LIBRARY:
            continue
        for m in c.methods.values():
            if not m.name.endswith("dependencies") or not (m.name == "dependencies" and not m.is_property and len(m.params) > 1 or returns_requirements(m)):
                continue
            body = [s for s in m.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
            if body and not any(decorator_name(d) in ("abstractmethod", "abc.abstractmethod") for d in m.node.decorator_list):
                yield c, m


def check(ctx):
    p = program()
    ctx.rule("every dependencies() returns each requirement of the package that it did not find inapplicable for the given environment and extras")
    for c, m in implementations(p):
        target = ("p", m.qual, m.params[min(1, len(m.params) - 1)])
        extras = ("p", m.qual, "extras") if "extras" in m.params + list(m.kwonly) else None
        r = Deps(ctx, m, {target}, extras)
        r.removal = True
        eng = Engine(r)
        out = eng.run(m, r.start(), self_cls=c.qual)
        ctx.analysed(eng)
        ctx.count("dependencies_implementations")
        ctx.sample(f"{m.short}: asked {r.asked}, loops {len(r.seen)}, results {[show(t)[:40] for t, _ in out.ret][:3]}")
        r.judge(out)
    ctx.at_least("dependencies_implementations", 5)
    check_problem(ctx, p)
    check_fetch(ctx, p)


def check_problem(ctx, p):
    ctx.rule("the installation problem makes a term, with the requirement's or its override's specification, of each requirement it did not find "
             "inapplicable for the environment and the extras; a package with extras requires itself without them")
    base = p.cls(PUB + ".Problem")
    ctx.need(base, PUB + ".Problem")
    n = 0
    for c in p.all_subclasses(base):
        m = c.methods.get("get_dependencies")
        if m is None or c.module.name.split(".")[0] not in LIBRARY or len(m.params) < 3:
            continue
        n += 1
        pk = ("p", m.qual, m.params[1])
        r = Terms(ctx, m, set(), ("a", pk, "extras"))
        r.package, r.version = pk, ("p", m.qual, m.params[2])
        eng = Engine(r)
        out = eng.run(m, r.start())
        ctx.analysed(eng)
        r.judge_terms(out)
    ctx.need(n, "the installation problem")


def check_fetch(ctx, p):
    ctx.rule("requirements of a version on the same package are combined in its table of dependencies, none replaces another")
    n = 0
    for f in p.funcs.values():
        if f.module.name != PUB or f.cls is None or not any(isinstance(x, ast.Attribute) and x.attr == "get_dependencies" for x in walk_own(f.node)):
            continue
        n += 1
        r = Fetch(ctx, f)
        r.stored = []
        eng = Engine(r)
        out = eng.run(f, r.start())
        ctx.analysed(eng)
        if r.lost:
            ctx.finding("requirement-replaced", f.short, f"{f.short} replaces a requirement by another one on the same package", *r.lost)
        if r.bad:
            ctx.finding("requirement-dropped", f.short, f"{f.short} drops a requirement", *next(iter(r.bad.values())))
        if not r.stored or not r.seen:
            ctx.finding("requirement-dropped", f.short, f"{f.short} does not keep the requirements of the version", f.where)
    ctx.need(n, "where the solver asks for the requirements of a version")
    check_solver(ctx, p)


def check_solver(ctx, p):
    ctx.rule("each requirement of a version becomes an incompatibility that covers this version: a new one, the one it already has, or that of the "
             "neighbouring version with the same requirement, widened")
    comp = [f for f in p.funcs.values() if f.module.name == PUB and f.cls is not None and any(
        isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "DependencyIncompatibility" for x in walk_own(f.node))]
    ctx.need(comp, "where requirements become incompatibilities")
    for f in comp:
        r = Compute(ctx, f)
        eng = Engine(r)
        eng.run(f, r.start())
        ctx.analysed(eng)
        if r.bad:
            ctx.finding("requirement-unregistered", f.short, f"{f.short} makes no incompatibility that covers the version for a requirement",
                        *next(iter(r.bad.values())))
        if r.again:
            ctx.finding("incompatibility-replaced", f.short, f"{f.short} replaces the incompatibility of a requirement that already has one (the new one is "
                        "equal to a registered one, is not registered itself, and is the one that is widened later)", *r.again)
    ctx.at_least("requirements_made_incompatibilities", 1)
    ctx.rule("an incompatibility is entered for every package it mentions, unless it was entered before")
    solver = p.cls(PUB + ".Solver")
    ctx.need(solver, PUB + ".Solver")
    adds = [m for m in solver.methods.values() if len(m.params) == 2 and any(
        isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "add", "insert") and x.args and
        any(isinstance(a, ast.Name) and a.id == m.params[1] for a in x.args) for x in ast.walk(m.node))]
    ctx.need(len(adds) == 1, "the method that registers an incompatibility")
    add = adds[0]
    r = Index(ctx, add)
    eng = Engine(r)
    out = eng.run(add, r.start())
    ctx.analysed(eng)
    if r.bad:
        ctx.finding("not-indexed", add.short, f"{add.short} leaves an incompatibility out of the index of a package", *next(iter(r.bad.values())))
    for _, st in list(out.ret) + [(None, s) for s in out.normal]:
        ctx.count("ways_of_registering")
        if not st.ps[2] and not r.known(st):
            ctx.finding("not-indexed", add.short, f"{add.short} returns without registering the incompatibility", add.where, st.trace[-3:])
    ctx.rule("a version is decided on only after its requirements were fetched and registered; then the packages it requires are required")
    n = 0
    for m in solver.methods.values():
        if not any(isinstance(x, ast.Attribute) and x.attr == "fetch_dependencies_info" for x in walk_own(m.node)):
            continue
        r = Decide(ctx, m, add, "fetch_dependencies_info", comp[0].name)
        eng = Engine(r)
        out = eng.run(m, r.start())
        ctx.analysed(eng)
        n += r.decided
        for where, trace in r.unregistered():
            ctx.finding("decided-unregistered", m.short, f"{m.short} decides on a version whose requirements were not all registered before", where, trace)
        if r.bad:
            own = [v for k, v in r.bad_loops.items() if k in r.adding and k[0][:2] == ("call", ("m", r.compute))]
            if own:
                ctx.finding("requirement-unregistered", m.short, f"{m.short} does not register every incompatibility of the version", *own[0])
        for _, st in list(out.ret) + [(None, s) for s in out.normal]:
            ctx.count("ways_of_deciding")
            for t in st.ps[3]:
                if t[0] == "decided" and ("required", t[1]) not in st.ps[3]:
                    ctx.finding("not-required", m.short, f"{m.short} decides on a version without requiring the packages it needs", m.where, st.trace[-3:])
    ctx.count("decisions", n)
    ctx.at_least("decisions", 1)
    ctx.rule("the result holds every package of the solution except those that stand for a package with extras")
    n = 0
    for f in p.funcs.values():
        if f.module.name.startswith("pkm.resolution") and (f.name == "resolve_dependencies" or f.name == "decisions" and f.cls is not None):
            r = Solution(ctx, f)
            eng = Engine(r)
            eng.run(f, r.start())
            ctx.analysed(eng)
            n += len(r.seen)
            if r.bad:
                ctx.finding("solution-cut", f.short, f"{f.short} leaves out a package of the solution", *next(iter(r.bad.values())))
    ctx.need(n >= 2, "the loops over the solution")
