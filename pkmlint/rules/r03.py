"""R03: what a repository returns for a requirement.

(1) `match`: one arbitrary package delivered by the repository is followed to what `match` returns: it must have been found
compatible with the environment that was asked for, and a pre-release gets through only if the requirement allows
pre-releases or no other package is left.  (2) every `_do_match`: each returned package was looked up or built under the
name that was asked for and its version was tested against the requirement (or it was built from the URL the requirement
names, or another repository returned it for the same requirement and environment).  (3) every package class answers
`is_compatible_with` from its Python requirement, its tags or the package it wraps, for the environment it is given."""
from ..common import *

PLANNING = "pkm.api.packages.package_installation"     # helper packages of the planner; no repository offers them to anybody else
MATCHERS = ("match", "_do_match")


def mk(c):
    return ("call", ("mk", c.cls.qual), None, tuple(c.args), tuple(sorted(c.kwargs.items())))


class Base(Rule):
    max_states = 60
    max_depth = 6
    term_depth = 18
    keep_all_facts = True

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry
        ps = [a for a in entry.params if a not in ("self", "cls")]
        self.dep = ("p", entry.qual, ps[0]) if ps else None
        self.env = ("p", entry.qual, ps[1]) if len(ps) > 1 else None

    tuples_are_values = True

    def can_raise(self, c):
        return False

    def force_inline(self, f):
        return f.module.name == "pkm.utils.iterators"

    def packages(self, t, st):
        """the elements of a returned collection: [(element, facts)]"""
        if t[0] == "phi":
            return [x for m in t[1] for x in self.packages(m, st)]
        if t[0] == "tup":
            return [(x, {}) for x in t[1]]
        r = st.heap.get(t)
        if isinstance(r, frozenset):
            return [(el, dict(facts)) for el, facts in r]
        if t == NONE or t[0] == "cont" or t[0] == "c":
            return []
        return [(("elem", t), {})]


# ---------------------------------------------------------------- (1) the template
class Match(Base):
    def __init__(self, ctx, entry):
        super().__init__(ctx, entry)
        self.rest, self.left_out = set(), set()

    def opaque(self, f):
        return f.name in ("_do_match", "is_compatible_with", "allows_pre_or_dev_releases", "is_pre_or_dev_release", "allows_version") or \
            in_modules(f, "pkm.api.dependencies", "pkm.api.versions")

    def on_property(self, c, st, eng):
        if c.name.split(".")[-1] in ("version", "version_spec"):
            return Take(normal=[(("a", c.recv, c.name.split(".")[-1]), st)])

    def judge(self, o):
        f = self.entry
        seen = 0
        self.collect_rest(o)
        for t, st in o.ret:
            for el, facts in self.packages(t, st):
                facts = {**{l: p for l, (p, _) in st.facts.items()}, **facts}
                src = [x for x in subterms(el) if call_name(x) in MATCHERS]
                if not src:
                    continue
                seen += 1
                fits = any(l[0] == "truthy" and pol and call_name(l[1]) == "is_compatible_with" and l[1][2] == el and self.env in l[1][3]
                           for l, pol in facts.items())
                if not fits:
                    self.ctx.finding("compatibility-unchecked", f.short, f"{f.short} returns a package that was not found compatible with the "
                                     "environment it was asked for", f"{f.module.rel}:{f.node.lineno}")
                if not self.pre_ok(el, facts, st):
                    self.ctx.finding("prerelease-offered", f.short, f"{f.short} may return a pre-release although the requirement does not "
                                     "allow pre-releases and other packages match", f"{f.module.rel}:{f.node.lineno}")
        return seen

    def pre_ok(self, el, facts, st):
        for l, pol in facts.items():
            x = l[1]
            if l[0] == "truthy" and call_name(x) == "allows_pre_or_dev_releases" and pol and x[2] is not None and (
                    x[2] == ("a", self.dep, "version_spec") or mentions(x[2], self.dep) or any(call_name(y) == "parse" for y in subterms(x[2]))):
                return True
            if l[0] == "truthy" and call_name(x) == "is_pre_or_dev_release" and not pol and mentions(x, el):
                return True
        # nothing else is left: the collection that takes every package that is no pre-release is empty
        return any(not st.heap.get(c) and c in st.heap or any(l == ("truthy", c) and not pol for l, pol in facts.items()) for c in self.rest)

    def stable(self, el, facts):
        return any(l[0] == "truthy" and not pol and call_name(l[1]) == "is_pre_or_dev_release" and mentions(l[1], el) for l, pol in facts)

    def collect_rest(self, o):
        """the collections that hold only packages that are no pre-releases"""
        good, bad = set(), set()
        for t, st in o.ret:
            for c, r in st.heap.items():
                if isinstance(c, tuple) and c[0] == "cont" and isinstance(r, frozenset):
                    for el, facts in r:
                        (good if self.stable(el, facts) else bad).add(c)
        self.rest = good - bad - self.left_out

    def on_iter_end(self, it, el, st, node, fr, eng, filtered):
        """a loop that sorts out the pre-releases keeps all the others"""
        facts = [(l, p) for l, (p, _) in st.facts.items()]
        if not any(call_name(x) in MATCHERS for x in subterms(el)):
            return
        if any(l[0] == "truthy" and p and call_name(l[1]) == "is_pre_or_dev_release" and mentions(l[1], el) for l, p in facts):
            return
        if any(l[0] == "truthy" and call_name(l[1]) == "is_pre_or_dev_release" for l, p in facts):
            for c, r in st.heap.items():
                if isinstance(c, tuple) and c[0] == "cont" and isinstance(r, frozenset) and not any(e == el for e, _ in r):
                    self.left_out.add(c)


# ---------------------------------------------------------------- (2) the implementations
class Do(Base):
    def __init__(self, ctx, entry, cls):
        super().__init__(ctx, entry)
        self.cls = cls
        self.pk = program().cls("pkm.api.packages.package.Package")

    def opaque(self, f):
        return f.name in ("required_url", "allows_version", "is_compatible_with", "match", "_do_match", "list", "load", "parse", "clone", "update",
                          "package_from", "from_config", "normalize_name", "normalized_package_name") or \
            in_modules(f, "pkm.utils.http", "pkm.api.versions", "pkm.config", "pkm.utils.files", "pkm.api.projects", "pkm.api.environments")

    def keep(self, lit, st, eng):
        return any(isinstance(x, tuple) and has_call(x, "allows_version") or isinstance(x, tuple) and has_call(x, "required_url") for x in lit[1:])

    def on_property(self, c, st, eng):
        n = c.name.split(".")[-1]
        if n in ("version", "descriptor", "package_name_key", "name", "name_key"):
            return Take(normal=[(("a", c.recv, n), st)])

    def on_call(self, c, st, eng):
        if c.cls is not None and (c.cls.name == "PackageDescriptor" or self.pk in program().mro(c.cls)):
            return Take(normal=[(mk(c), st)])
        return None

    def name_ok(self, el):
        return any(x[0] == "a" and x[1] == self.dep and x[2].startswith("package_name") for x in subterms(el))

    def version_ok(self, el, facts):
        for l, pol in facts.items():
            x = l[1]
            if l[0] == "truthy" and pol and call_name(x) == "allows_version" and x[2] == ("a", self.dep, "version_spec") and x[3]:
                v = x[3][0]
                if mentions(v, el) or mentions(el, v):
                    return True
        return False

    def delegated(self, t):
        return any(call_name(x) in MATCHERS and len(x[3]) >= 2 and x[3][0] == self.dep and x[3][1] == self.env for x in subterms(t))

    def from_url(self, el, facts):
        return any(call_name(x) == "required_url" and x[2] == self.dep for x in subterms(el)) and any(
            l[0] in ("truthy", "isnone") and pol == (l[0] == "truthy") and call_name(l[1]) == "required_url" for l, pol in facts.items())

    def judge(self, o):
        f, n = self.entry, 0
        where = f"{f.module.rel}:{f.node.lineno}"
        for t, st in o.ret:
            base = {l: p for l, (p, _) in st.facts.items()}
            for el, facts in self.packages(t, st):
                n += 1
                facts = {**base, **facts}
                if self.delegated(el) or self.from_url(el, facts):
                    continue
                other = [x for x in subterms(el) if call_name(x) in MATCHERS]
                if other:
                    self.ctx.finding("asks-something-else", f.short, f"{f.short} returns what another repository has for a different requirement or "
                                     f"environment: {show(other[0])[:120]}", where)
                    continue
                if not self.name_ok(el):
                    self.ctx.finding("other-name", f.short, f"{f.short} returns a package that was neither looked up nor built under the requested "
                                     f"name: {show(el)[:120]}", where)
                if not self.version_ok(el, facts):
                    self.ctx.finding("version-unchecked", f.short, f"{f.short} returns a package whose version was not tested against the requirement: "
                                     f"{show(el)[:120]}", where)
        return n


# ---------------------------------------------------------------- (3) compatibility answers
class Answer(Base):
    def __init__(self, ctx, entry):
        super().__init__(ctx, entry)
        self.env = self.dep

    def opaque(self, f):
        return f.name in ("is_compatible_with", "allows_version", "compatibility_tag_score", "compatibility_score", "compute_compatibility_tags",
                          "best_artifact_for", "_best_artifact_for") or in_modules(f, "pkm.config", "pkm.api.versions")

    def on_property(self, c, st, eng):
        return Take(normal=[(("a", c.recv, c.name.split(".")[-1]), st)])

    def env_rooted(self, t):
        while t[0] == "a":
            t = t[1]
        return t == self.env

    def judge(self, o, eng):
        f = self.entry
        n = 0
        for t, st in o.ret:
            if t[0] == "c" and not t[2]:
                continue
            s = eng.assume(st, t, True)
            if s is None:
                continue
            n += 1
            facts = [(l, p) for l, (p, _) in s.facts.items()]
            if not any(self.reason(l, p) for l, p in facts):
                self.ctx.finding("compatibility-claimed", f.short, f"{f.short} answers that the package is compatible without looking at its Python "
                                 "requirement, its tags or the package it stands for", f"{f.module.rel}:{f.node.lineno}")
        return n

    def reason(self, l, pol):
        x = l[1] if isinstance(l[1], tuple) else None
        if x is None:
            return False
        if l[0] == "truthy" and pol and call_name(x) == "is_compatible_with" and x[2] is not None and self.env in x[3]:
            return True
        if l[0] == "truthy" and pol and call_name(x) == "allows_version" and x[3] and x[3][0][0] == "a" and x[3][0][2] == "interpreter_version" and self.env_rooted(x[3][0]) \
                and any("python" in a for a in attrs_in(x[2] or ())):
            return True
        if l[0] == "isnone" and not pol and x[0] == "call" and (
                x[2] is not None and self.env_rooted(x[2]) and call_name(x) in ("compatibility_tag_score", "compatibility_score") or
                self.env in x[3] and "artifact" in (call_name(x) or "")):
            return True
        if l[0] == "truthy" and pol and x[0] == "call" and self.env in x[3] and "artifact" in (call_name(x) or ""):
            return True
        # a source distribution: no wheel, hence nothing to check before it is built
        if l[0] == "isinst" and not pol and "WheelDistribution" in str(l):
            return True
        # no Python requirement at all
        if (l[0] == "truthy" and not pol or l[0] == "isnone" and pol) and any("python" in a for a in attrs_in(x)):
            return True
        return False


def helpers(f, c):
    """the methods of the class that the template uses, but not the ones every repository implements"""
    return {n.attr for m in c.methods.values() for n in ast.walk(m.node) if isinstance(n, ast.Attribute)} & set(c.methods) - set(MATCHERS)


def check(ctx):
    p = program()
    ctx.rule("what match returns was found compatible with the given environment and is no pre-release unless the requirement allows them or nothing "
             "else is left; every _do_match returns packages of the requested name whose version the requirement allows, built from the required URL, "
             "or returned by another repository for the same question; compatibility is answered from requirement, tags or the wrapped package")
    repo = p.cls("pkm.api.repositories.repository.Repository")
    pkg = p.cls("pkm.api.packages.package.Package")
    ctx.need(repo, "Repository")
    ctx.need(pkg, "Package")
    for c in sorted(p.classes.values(), key=lambda c: c.qual):
        if c.module.name.split(".")[0] not in LIBRARY:
            continue
        mro = p.mro(c)
        if repo in mro and c is not repo:
            for name in MATCHERS:
                f = c.methods.get(name)
                if f is None or f.is_abstract or len(f.params) < 3 or c.module.name == PLANNING:
                    continue
                if name == "match":
                    n = 0
                    for sub in [c] + sorted((x for x in p.classes.values() if c in p.mro(x) and x is not c and x.module.name != PLANNING and helpers(f, c) & set(x.methods)),
                                            key=lambda x: x.qual):
                        r = Match(ctx, f)
                        eng = Engine(r)
                        n += r.judge(eng.run(f, frozenset(), self_cls=None if sub is c else sub.qual))
                        ctx.count("templates_judged")
                    ctx.count("template_packages_judged", n)
                else:
                    r = Do(ctx, f, c)
                    eng = Engine(r)
                    n = r.judge(eng.run(f, frozenset()))
                    ctx.count("implementations_judged")
                ctx.analysed(eng)
                ctx.count("returned_packages_judged", n)
                ctx.sample(f"{f.short}: {n} returned packages judged")
        if pkg in mro and c is not pkg and c.module.name != PLANNING:
            f = c.methods.get("is_compatible_with")
            if f is not None and not f.is_abstract:
                r = Answer(ctx, f)
                eng = Engine(r)
                n = r.judge(eng.run(f, frozenset()), eng)
                ctx.analysed(eng)
                ctx.count("compatibility_answers_judged", n)
    ctx.at_least("templates_judged", 1)
    ctx.at_least("template_packages_judged", 1)
    ctx.at_least("implementations_judged", 4)
    ctx.at_least("compatibility_answers_judged", 3)
