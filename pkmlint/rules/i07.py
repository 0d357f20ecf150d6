"""I07: uninstalling.  (1) The requirement the remaining packages are resolved from holds the request of every installed
package the user asked for, except those named for removal.  (2) What may be kept is looked up among all installed packages,
and the lookup finds every one of them.  (3) What that resolution returned is, as a whole, what the executed plan keeps;
nothing is removed otherwise.  (4) A named package that is kept, and no other, loses its request mark, and it is not
reported as removed.  (That a package keeps its requirements in the resolution is R01, that a plan removes only what is not
part of it is I06.)"""
from ..common import *

TARGET = "pkm.api.packages.package_installation.PackageInstallationTarget"
MOD = "pkm.api.packages.package_installation"


def listing(t):
    return t is not None and t[0] == "call" and call_name(t) in ("installed_packages", "find_requested_packages")


class Uninstall(Rule):
    keep_all_facts = True
    max_states = 80
    term_depth = 20

    def __init__(self, ctx, f, request, universe):
        self.ctx, self.f, self.request, self.universe = ctx, f, request, universe
        self.named = ("p", f.qual, f.params[1])
        self.skips, self.asking, self.removed, self.breaks = [], set(), [], []
        self.unmark_loops, self.unmark_skips = set(), []
        self.feeds, self.visits = {}, {}        # collection -> loops that fill it;  loop -> what it visits
        self.plans = self.executed = self.requests = 0

    # ps: ((loop over packages, the current one was collected), (loop over named packages, mark taken, reported), plan executed)
    def start(self):
        return ((None, False), (None, False, False), False)

    def opaque(self, f):
        return f.cls is not None and f.cls.name in ("SitePackages", "DistInfo", "InstalledPackage", "InstallationPlan") or \
            f.name in ("resolve_dependencies", "package_name_key", "to_dependency", "reload", "name_key", "force_remove") or \
            f.cls is not None and f.cls.qual in (self.request, self.universe)

    def can_raise(self, c):
        return False

    def where(self, node, fr):
        return f"{fr.func.module.rel}:{getattr(node, 'lineno', 0)}"

    def is_package(self, el):
        return el[0] == "elem" and self.installed(el[1])

    def installed(self, it):
        if it[0] == "call" and it[1][0] == "x" and it[3]:
            return self.installed(it[3][0])
        return listing(it)

    def is_named(self, el):
        return el == ("elem", self.named)

    def key_of(self, t, el):
        """a normalized name of el"""
        if t[0] == "call" and call_name(t) in ("package_name_key", "normalize_name", "casefold", "lower"):
            return mentions(t, el)
        return t[0] == "a" and t[2] in ("name_key", "package_name_key") and mentions(t, el)

    def on_iter(self, it, el, st, node, fr, eng):
        a, b, x = st.ps
        if self.is_package(el):
            self.visits.setdefault(node_span(node), set()).add(it)
            return st.with_ps(((node_span(node), False), b, x))
        if self.is_named(el):
            return st.with_ps((a, (node_span(node), False, False), x))
        return None

    def collected(self, cont, value, st):
        if value is None:
            return None
        a, b, x = st.ps
        if any(y[0] == "elem" and self.is_package(y) for y in subterms(value)):
            if any(y[0] == "a" and y[2] == "user_request" for y in subterms(value)):
                self.asking.add(a[0])
            self.feeds.setdefault(cont, set()).add(a[0])
            return st.with_ps(((a[0], True), b, x))
        if self.is_named(value):
            return st.with_ps((a, b[:2] + (True,), x))
        return None

    def on_add(self, cont, value, st, node, fr, eng):
        return self.collected(cont, value, st)

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        if kind == "sub":
            return self.collected(base, value, st)
        if kind in ("delsub", "remove", "clear"):
            self.removed.append((base, key, self.where(node, fr), tuple(st.trace[-3:])))
        return None

    def close(self):
        """the loops that take part in collecting the requests"""
        todo = list(self.asking)
        while todo:
            for it in self.visits.get(todo.pop(), ()):
                for l in self.feeds.get(it, ()):
                    if l not in self.asking:
                        self.asking.add(l)
                        todo.append(l)

    def kept_fact(self, el, st):
        """True: el is among what the resolution returned, False: it is not, None: not known"""
        for l, (pol, _) in st.facts.items():
            if l[0] == "in" and self.key_of(l[1], el):
                r = st.heap.get(l[2])
                src = [e for e, _ in r] if isinstance(r, frozenset) else [l[2]]
                if not src or any(has_call(e, "resolve_dependencies") for e in src):
                    return pol
        return None

    def named_fact(self, el, st):
        for l, (pol, _) in st.facts.items():
            if l[0] == "in" and pol and self.key_of(l[1], el):
                r = st.heap.get(l[2])
                src = [e for e, _ in r] if isinstance(r, frozenset) else [l[2]]
                if all(self.key_of(e, ("elem", self.named)) for e in src):     # (nothing is in an empty collection)
                    return True
        return False

    def unrequested(self, el, st):
        for l, (pol, _) in st.facts.items():
            x = l[1] if len(l) > 1 and isinstance(l[1], tuple) else None
            if x is not None and x[0] == "a" and x[1] == el and x[2] == "user_request" and (l[0] == "truthy" and not pol or l[0] == "isnone" and pol):
                return True
        return False

    def no_mark(self, el, st):
        for l, (pol, _) in st.facts.items():
            x = l[1] if len(l) > 1 and isinstance(l[1], tuple) else None
            if x is None or not mentions(x, el):
                continue
            if call_name(x) == "installed_package" and (l[0] == "isnone" and pol or l[0] == "truthy" and not pol):
                return True
            if (call_name(x) == "is_user_requested" or x[0] == "a" and x[2] == "user_request") and (l[0] == "isnone" and pol or l[0] == "truthy" and not pol):
                return True
        return False

    def on_iter_end(self, it, el, st, node, fr, eng, filtered):
        a, b, _ = st.ps
        if self.is_package(el) and not a[1] and not self.unrequested(el, st) and not self.named_fact(el, st):
            self.skips.append((node_span(node), self.where(node, fr), tuple(st.trace[-3:])))
        if self.is_named(el):
            if not b[1] and self.kept_fact(el, st) is not False and not self.no_mark(el, st):
                self.unmark_skips.append((node_span(node), self.where(node, fr), tuple(st.trace[-3:])))
        return None

    def on_iter_break(self, it, el, st, node, fr, eng):
        if self.is_package(el):
            self.breaks.append((node_span(node), self.where(node, fr)))
        return None

    def full(self, t, st, of):
        """t is everything that `of` accepts"""
        if t is None:
            return False
        if of(t):
            return True
        if t[0] == "call" and t[1][0] == "x" and len(t[3]) == 1 and call_name(t) in ("list", "tuple", "sorted", "iter", "set"):
            return self.full(t[3][0], st, of)
        r = st.heap.get(t)
        if isinstance(r, frozenset):
            return all(e[0] == "elem" and self.full(e[1], st, of) and not any(mentions(l, e) for l, _ in facts) for e, facts in r)
        return False

    def on_call(self, c, st, eng):
        f = self.f.short
        if c.cls is not None and c.cls.qual == self.request:
            self.requests += 1
            return Take(normal=[(("call", ("mk", "request"), None, tuple(c.all_args()), ()), st)])
        if c.cls is not None and c.cls.qual == self.universe:
            self.ctx.count("universes")
            x = next((a for a in c.all_args() if a[0] != "call" or a[1] != ("mk", "request")), None)
            if not self.full(x, st, lambda t: t[0] == "call" and call_name(t) == "installed_packages"):
                self.ctx.finding("partial-universe", f, f"{f} looks for what is still needed among {show(x) if x else 'nothing'}, which need not be all "
                                 "installed packages", c.where, st.trace[-3:])
            return Take(normal=[(("call", ("mk", "universe"), None, tuple(c.all_args()), ()), st)])
        if c.name == "resolve_dependencies":
            self.ctx.count("resolutions")
            mk = {x[1][1] for a in c.all_args() for x in subterms(a) if x[0] == "call" and x[1][0] == "mk"}
            if mk != {"request", "universe"}:
                self.ctx.finding("other-resolution", f, f"{f} resolves something else than the requests of the remaining packages among the installed ones",
                                 c.where, st.trace[-3:])
            return None
        if c.cls is not None and c.cls.name == "InstallationPlan":
            self.plans += 1
            x = c.arg(1, "packages")
            if not self.full(x, st, lambda t: t[0] == "call" and call_name(t) == "resolve_dependencies"):
                self.ctx.finding("needed-package-removed", f, f"{f} executes a plan that keeps {show(x) if x else 'nothing'} instead of all packages that are "
                                 "still needed", c.where, st.trace[-3:])
            return None
        if c.name == "execute" and c.func is not None and c.func.cls is not None and c.func.cls.name == "InstallationPlan":
            return Take(normal=[(c.term(), st.with_ps(st.ps[:2] + (True,)))])
        if c.name in ("uninstall", "force_remove", "rmtree", "unlink") and (c.func is None or c.func is not self.f):
            if not (c.recv is not None and self.kept_fact(("elem", self.named), st) is False):
                self.ctx.finding("removed-without-plan", f, f"{f} removes something regardless of what is still needed", c.where, st.trace[-3:])
        if c.name == "unmark_as_user_requested":
            self.ctx.count("marks_taken")
            el = ("elem", self.named)
            if not mentions(c.recv, el):
                self.ctx.finding("other-mark-taken", f, f"{f} takes the request mark of {show(c.recv)}, a package that was not named for removal", c.where,
                                 st.trace[-3:])
            a, b, x = st.ps
            self.unmark_loops.add(b[0])
            return Take(normal=[(c.term(), st.with_ps((a, (b[0], True, b[2]), x)))])
        return None


def node_span(n):
    return (getattr(n, "lineno", 0), getattr(n, "end_lineno", 0) or 0, getattr(n, "col_offset", 0))


class Lookup(Rule):
    """the universe holds every package it was given"""
    keep_all_facts = True

    def __init__(self, ctx, f, given):
        self.ctx, self.f, self.given, self.seen = ctx, f, ("p", f.qual, given), 0

    def can_raise(self, c):
        return False

    def on_iter(self, it, el, st, node, fr, eng):
        if el == ("elem", self.given):
            self.seen += 1
            return st.with_ps(False)

    def got(self, value, st):
        return st.with_ps(True) if value is not None and mentions(value, ("elem", self.given)) else None

    def on_add(self, cont, value, st, node, fr, eng):
        return self.got(value, st)

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        if kind == "sub":
            return self.got(value, st)

    def on_iter_end(self, it, el, st, node, fr, eng, filtered):
        if el == ("elem", self.given) and st.ps is not True:
            self.ctx.finding("package-unknown", self.f.short, f"{self.f.short} leaves out an installed package: whatever needs it, it would be removed",
                             f"{self.f.module.rel}:{getattr(node, 'lineno', 0)}", st.trace[-3:])

    def on_iter_break(self, it, el, st, node, fr, eng):
        if el == ("elem", self.given):
            self.ctx.finding("package-unknown", self.f.short, f"{self.f.short} leaves out an installed package", self.f.where)


class Match(Rule):
    """an installed package is found under its name, whatever version is asked for"""
    keep_all_facts = True

    def __init__(self, ctx, f):
        self.ctx, self.f, self.slf = ctx, f, ("p", f.qual, f.params[0])

    def opaque(self, f):
        return f.name in ("package_name_key", "name_key") or f.cls is not None and f.cls.name in ("Dependency", "VersionSpecifier", "InstalledPackage")

    def can_raise(self, c):
        return False

    def missing(self, st):
        """a fact that no such package is installed (or that it is not a version that was asked for)"""
        for l, (pol, _) in st.facts.items():
            x = l[1] if len(l) > 1 and isinstance(l[1], tuple) else None
            if x is None:
                continue
            if l[0] == "isnone" and pol and self.of_self(x) or l[0] == "truthy" and not pol and (self.of_self(x) or call_name(x) == "allows_version") or \
                    l[0] == "in" and not pol and self.of_self(l[2]):
                return True
        return False

    def of_self(self, x):
        return any(y[0] == "a" and y[1] == self.slf for y in subterms(x))

    def judge(self, out):
        for t, st in out.ret:
            self.ctx.count("lookup_results")
            r = st.heap.get(t)
            if (r == frozenset() or t in (NONE,)) and not self.missing(st):
                self.ctx.finding("package-unknown", self.f.short, f"{self.f.short} can answer that a package is not installed although it is: whatever "
                                 "is needed under that name would be taken for missing", self.f.where, st.trace[-3:])


def check(ctx):
    p = program()
    ctx.rule("the packages to keep are resolved from every request of the user except those for the packages named for removal")
    ctx.rule("the executed plan keeps everything that resolution returned; only named packages that were kept lose their request mark")
    cls = p.cls(TARGET)
    ctx.need(cls, TARGET)
    m = cls.methods.get("uninstall")
    ctx.need(m, f"{TARGET}.uninstall")
    request, universe = p.cls(MOD + "._UserRequestPackage"), p.cls(MOD + "._RemovalRepository")
    ctx.need(request is not None and universe is not None, "the request and the universe of a removal")
    r = Uninstall(ctx, m, request.qual, universe.qual)
    eng = Engine(r)
    out = eng.run(m, r.start())
    ctx.analysed(eng)
    ctx.need(r.requests or ctx.findings, "the request of the remaining packages")
    ctx.need(r.asking or ctx.findings, "the collection of user requests")
    r.close()
    for span, where, trace in r.unmark_skips:
        if span in r.unmark_loops:
            ctx.finding("mark-stays", m.short, f"{m.short} can leave the request mark of a named package that is kept", where, trace)
    for span, where, trace in r.skips:
        if span in r.asking:
            ctx.finding("request-dropped", m.short, f"{m.short} can pass over a package which the user requested and which was not named for removal", where, trace)
    for span, where in r.breaks:
        if span in r.asking:
            ctx.finding("request-dropped", m.short, f"{m.short} stops before every user request was seen", where)
    for base, key, where, trace in r.removed:
        if key is None or not r.key_of(key, ("elem", r.named)):
            ctx.finding("request-dropped", m.short, f"{m.short} takes out the request of {show(key) if key else 'everything'}, which was not named for removal",
                        where, trace)
    for t, st in out.ret:
        ctx.count("ways_to_end")
        if not st.ps[2]:
            ctx.finding("plan-not-executed", m.short, f"{m.short} can end without executing the plan it reports on", m.where, st.trace[-3:])
        for e, facts in (st.heap.get(t) if isinstance(st.heap.get(t), frozenset) else ()):
            if mentions(e, ("elem", r.named)) and not any(l[0] == "in" and not pol and r.key_of(l[1], ("elem", r.named)) for l, pol in facts):
                ctx.finding("reported-removed", m.short, f"{m.short} reports a package as removed that may have been kept", m.where, st.trace[-3:])
    ctx.at_least("resolutions", 1)
    ctx.at_least("universes", 1)
    ctx.need(r.plans or ctx.findings, "the plan that removes")
    if not r.unmark_loops:
        ctx.finding("mark-stays", m.short, f"{m.short} leaves the request mark of a named package that is kept", m.where)
    # the universe
    init, match = universe.methods.get("__init__"), p.find_method(universe, "_do_match")
    ctx.need(init is not None and match is not None and len(init.params) > 1, "the lookup of installed packages")
    lk = Lookup(ctx, init, init.params[1])
    eng = Engine(lk)
    eng.run(init, None)
    ctx.analysed(eng)
    ctx.need(lk.seen or ctx.findings, "the visit of the installed packages")
    mt = Match(ctx, match)
    eng = Engine(mt)
    mt.judge(eng.run(match, None))
    ctx.analysed(eng)
    ctx.at_least("lookup_results", 2)
    ctx.sample(f"{m.short}: {r.requests} request, {r.plans} plans, {len(r.asking)} loops over requests")
