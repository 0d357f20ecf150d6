"""I12: uninstalling keeps what other requested packages need and removes the rest.  `uninstall` is followed with the installed
packages and the names to remove as symbolic collections (see I11 for how the contents of collections are decided); the resolver
and the execution of a plan are opaque.  What is resolved must be the requests of all packages the user asked for except the
named ones, over a repository that offers the installed packages and nothing else; exactly its result must be planned and
executed; named packages that it keeps lose their request and the others are returned."""
from ..common import *
from .i11 import Planning, Offer, TARGET, covers, flat, request_package


class Removing(Planning):
    def __init__(self, ctx, f):
        super().__init__(ctx, f, {})
        self.rm = ("p", f.qual, "packages_to_remove")
        self.handled = {}        # loop over the named packages -> kinds of handling seen there
        self.skips = {}

    def opaque(self, f):
        return super().opaque(f) or f.name in ("execute", "unmark_as_user_requested", "compute_operations_for_target")

    def own_request(self, l, p):
        return super().own_request(l, p) or self.membership("packages_to_remove", False, None)(l, p)

    def membership(self, what, polarity, st):
        def ok(l, p):
            if l[0] == "in" and p == polarity:
                n = self.names_of(l[2], st or self.cur)
                return n == {what} or not n and l[2][0] == "cont" and not self.contents(l[2], st or self.cur)
            return False
        return ok

    # ps: (iterated sources, stack of (loop, element, how it was dealt with), events)
    def on_iter(self, it, el, st, node, fr, eng):
        src, stack, ev = st.ps
        if self.sources(it, st) or self.kind(el):
            src = src | {(id(node), it)}
        return st.with_ps((src, stack + (((fr.func.qual, getattr(node, "lineno", 0), getattr(node, "col_offset", 0)), el, ""),), ev))

    def on_iter_end(self, it, el, st, node, fr, eng, filtered):
        src, stack, ev = st.ps
        if not stack:
            return None
        loop, el, how = stack[-1]
        if self.kind(el) == "rm":
            if how:
                self.handled.setdefault(loop, set()).add(how)
            else:
                self.skips.setdefault(loop, []).append((el, st, fr.func.short))
        return st.with_ps((src, stack[:-1], ev))

    def on_loop_done(self, it, st, node, fr, eng):
        if super().on_loop_done(it, st, node, fr, eng) is DEAD:
            return DEAD
        if "request dropped" in self.handled.get((fr.func.qual, getattr(node, "lineno", 0), getattr(node, "col_offset", 0)), ()):
            return self.happened(st, "request dropped")
        return None

    def on_iter_break(self, it, el, st, node, fr, eng):
        src, stack, ev = st.ps
        if stack and self.kind(stack[-1][1]):
            what = {"rm": "packages to remove"}.get(self.kind(stack[-1][1]), "installed packages")
            self.ctx.finding("stops", f"{self.f.short}:{self.kind(stack[-1][1])}", f"{self.f.short} stops before it has seen all {what}", self.f.where, st.trace[-3:])
        return st.with_ps((src, stack[:-1], ev))

    def put(self, st, value, how="kept"):
        src, stack, ev = st.ps
        if not stack or value is None:
            return st
        new = tuple((n, el, h or (how if any(x == el for x in subterms(value)) else "")) for n, el, h in stack)
        return st.with_ps((src, new, ev)) if new != stack else st

    def happened(self, st, what):
        src, stack, ev = st.ps
        return st.with_ps((src, stack, ev | {what}))

    def clobber(self, *a):
        pass

    def takes(self, cont, key, st, where):
        """cont loses the entry of key"""
        ks = {self.kind(el) for el, _ in self.contents(cont, st)}
        el = next((el for _, el, _ in st.ps[1] if self.kind(el) == "rm" and key is not None and mentions(key, el)), None)
        if el is None or not has_name_key(key):
            if not ks & {"old", "pkg"}:
                return None
            self.ctx.finding("others", self.f.short, f"{self.f.short} takes something other than the named packages, by their normalized names, out of a collection of installed "
                             "packages or requests", where, st.trace[-3:])
            return None
        return self.happened(self.put(st, key, "request dropped"), "request dropped")

    def on_add(self, cont, value, st, node, fr, eng):
        how = "returned" if value is not None and self.kind(value) == "rm" else "kept"
        if value is not None and self.kind(value) is None and self.kind(value) != "rm" and how == "kept":
            for x in subterms(value):
                if self.kind(x) == "rm":
                    return self.put(st, value, "named")
        return self.put(st, value, how)

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        if kind == "sub" and value is not None:
            return self.put(st, value)
        if kind == "delsub":
            return self.takes(base, key, st, self.f.where)
        if kind == "clear" and base is not None and {self.kind(el) for el, _ in self.contents(base, st)} & {"old", "pkg"}:
            self.takes(base, None, st, self.f.where)
        return None

    def on_call(self, c, st, eng):
        self.cur = st
        if c.name == "pop" and c.recv is not None and c.func is None:
            r = self.takes(c.recv, c.args[0] if c.args else None, st, c.where)
            return Take(normal=[(c.term(), r)]) if r is not None else None
        if c.name == "unmark_as_user_requested":
            s = st
            for _, el, _ in st.ps[1]:
                if self.kind(el) == "rm" and mentions(c.recv, el):
                    s = self.put(s, c.recv, "unmarked")
            return Take(normal=[(c.term(), self.happened(s, "unmarked") if s is not st else st)])
        if c.name == "resolve_dependencies":
            repo = c.arg(2, "pkgs") or (c.args[2] if len(c.args) > 2 else None)
            self.resolution(c, repo, st)
            return Take(normal=[(c.term(), self.happened(st, "resolved"))], raises=[(("exc", "UnsolvableProblemException", None), st)])
        if c.name == "execute" and c.recv is not None and c.recv[0] == "new" and "InstallationPlan" in c.recv[1]:
            self.ctx.count("executions")
            return Take(normal=[(c.term(), self.happened(st, "executed"))])
        if c.name == "InstallationPlan" and c.cls is not None:
            self.plan(c, st)
        return None

    def resolution(self, c, repo, st):
        self.ctx.count("resolutions")
        reqs = self.requests_in(repo, st) if repo is not None else []
        if not reqs:
            if not self.exempted(st, self.own_request):
                self.ctx.finding("requests-lost", self.f.short, f"{self.f.short} resolves without the requests of the packages that stay", c.where, st.trace[-3:])
                return
        for r in reqs:
            if not self.complete(r, st, "old", self.own_request):
                self.ctx.finding("requests-lost", self.f.short, f"{self.f.short} resolves without the requests of all packages that stay", c.where, st.trace[-3:])
            rm = self.membership("packages_to_remove", False, st)
            known = any(rm(l, pol) for l, (pol, _) in st.facts.items())
            for el, facts in self.contents(r, st):
                if self.kind(el) == "old" and "request dropped" not in st.ps[2] and not known and not any(rm(l, p) for l, p in facts):
                    self.ctx.finding("not-removed", self.f.short, f"{self.f.short} resolves with the requests of the packages that are to be removed", c.where, st.trace[-3:])
        held = [v for k, v in st.heap.items() if isinstance(k, tuple) and k[0] == "fld" and k[1] == repo and any(self.kind(el) == "pkg" for el, _ in self.contents(v, st))]
        never = lambda l, p: False
        if not any(self.complete(h, st, "pkg", never) for h in held):
            self.ctx.finding("not-offered", self.f.short, f"{self.f.short} resolves over a repository that does not hold every installed package", c.where, st.trace[-3:])
            return
        self.offers(c, repo, held, st)

    def offers(self, c, repo, held, st):
        cls = program().cls(repo[1]) if repo[0] == "new" else None
        m = cls.methods.get("_do_match") or cls.methods.get("match") if cls is not None else None
        if m is None:
            return
        sub = Offer(self, repo)
        e2 = Engine(sub)
        o = e2.run(m, (), args={m.params[0]: repo}, self_cls=cls.qual, heap=st.heap, facts={k: (v[0], True) for k, v in st.facts.items()})
        self.ctx.analysed(e2)
        for t, s in o.ret:
            self.ctx.count("offers")
            vals = [el for x in flat(t) for el, _ in self.contents(x, s)]
            missing = any(l[0] in ("truthy", "isnone") and pol == (l[0] == "isnone") and sub.looked_up(l[1], held) or
                          l[0] == "in" and not pol and l[2] in held for l, (pol, _) in s.facts.items())
            if vals and all(self.stands_for(v, held, s) or v[0] == "new" and self.is_request(v, s) for v in vals):
                continue
            if not vals and missing and t[0] == "cont":
                continue
            if vals:
                self.ctx.finding("offers-other", m.short, f"{m.short} can offer something other than the installed package", m.where, s.trace[-3:])
            else:
                self.ctx.finding("not-offered", m.short, f"{m.short} does not offer a package although it is installed", m.where, s.trace[-3:])

    def stands_for(self, v, held, s, n=2):
        if self.kind(v) == "pkg" or v[0] == "s" and v[1] in held:
            return True
        return n > 0 and v[0] == "new" and any(isinstance(k, tuple) and k[0] == "fld" and k[1] == v and any(self.stands_for(y, held, s, n - 1) for y in flat(x))
                                               for k, x in s.heap.items())

    def is_request(self, v, s):
        return v[1].rsplit(".", 1)[-1] == "_UserRequestPackage" or any(isinstance(k, tuple) and k[0] == "fld" and k[1] == v and {self.kind(el) for el, _ in self.contents(x, s)} & {"old"}
                                                                      for k, x in s.heap.items())

    def plan(self, c, st):
        self.ctx.count("plans")
        self.plans += 1
        pk = c.arg(1, "packages")
        if pk is None:
            return
        els = self.contents(pk, st)
        if not any(call_name(x) == "resolve_dependencies" for t in flat(pk) for x in subterms(t)) and not any(call_name(x) == "resolve_dependencies" for el, _ in els for x in subterms(el)):
            self.ctx.finding("plan", self.f.short, f"{self.f.short} plans something that the resolver did not choose", c.where, st.trace[-3:])
        elif any(self.kind(el) == "pkg" for el, _ in els):
            self.ctx.finding("kept-orphan", self.f.short, f"{self.f.short} also keeps packages that nothing needs any more", c.where, st.trace[-3:])
        elif pk[0] == "cont" and any(any(mentions(l, el) for l, _ in facts) for el, facts in els):
            self.ctx.finding("plan", self.f.short, f"{self.f.short} plans only a part of what the resolver chose to keep", c.where, st.trace[-3:])

    def judge(self, out):
        for loop, skipped in self.skips.items():
            hows = self.handled.get(loop, set())
            for el, st, where in skipped:
                self.cur = st
                inres = next((pol for l, (pol, _) in st.facts.items() if l[0] == "in" and mentions(l[1], el) and self.membership("result", pol, st)(l, pol)), None)
                inreq = next((pol for l, (pol, _) in st.facts.items() if l[0] == "in" and mentions(l[1], el) and self.names_of(l[2], st) != {"result"}), None)
                absent = any(l[0] in ("truthy", "isnone") and pol == (l[0] == "isnone") and mentions(l[1], el) for l, (pol, _) in st.facts.items())
                if "request dropped" in hows and inreq is not False and not absent:
                    self.ctx.finding("not-removed", f"{where}:request", f"{where} leaves the request of some named packages in place", self.f.where, st.trace[-3:])
                if "unmarked" in hows and inres is not False and not absent:
                    self.ctx.finding("still-requested", where, f"{where} leaves some named packages that are kept marked as requested", self.f.where, st.trace[-3:])
                if "named" in hows:
                    self.ctx.finding("not-removed", f"{where}:names", f"{where} leaves out some of the names", self.f.where, st.trace[-3:])
        for t, st in out.ret:
            self.cur = st
            self.ctx.count("returns")
            ev = st.ps[2]
            none_named = any(l[0] == "truthy" and l[1] == self.rm and not pol for l, (pol, _) in st.facts.items())
            if none_named:
                continue
            if "executed" not in ev:
                self.ctx.finding("not-executed", self.f.short, f"{self.f.short} can return without executing the plan", self.f.where, st.trace[-3:])
                continue
            gone = self.membership("result", False, st)
            if not self.complete(t, st, "rm", gone):
                self.ctx.finding("answer", self.f.short, f"{self.f.short} does not name every package that was removed", self.f.where, st.trace[-3:])
            for el, facts in self.contents(t, st):
                if self.kind(el) == "rm" and not any(gone(l, p) for l, p in facts) and not any(gone(l, p) for l, (p, _) in st.facts.items()):
                    self.ctx.finding("answer", self.f.short, f"{self.f.short} names packages as removed that may be kept", self.f.where, st.trace[-3:])
        if not any("unmarked" in h for h in self.handled.values()):
            self.ctx.finding("still-requested", self.f.short, f"{self.f.short} never takes the request mark from the packages that are kept", self.f.where)


def has_name_key(t):
    return any(x[0] == "a" and x[2] in ("package_name_key", "name_key") or call_name(x) in ("package_name_key", "name_key") for x in subterms(t))


class Needs(Rule):
    """the dependencies of an installed package, as far as they are installed"""
    keep_all_facts = True
    max_states = 100

    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f

    def can_raise(self, c):
        return False

    def opaque(self, f):
        return f.name in ("dependencies", "installed_package", "package_name_key", "site_packages")

    def on_call(self, c, st, eng):
        if c.name == "dependencies":
            ex = c.arg(1, "extras")
            self.ctx.count("dependency_lookups")
            if ex is None or not mentions(ex, ("p", self.f.qual, "extras")):
                self.ctx.finding("dependencies", f"{self.f.short}:extras", f"{self.f.short} leaves out what the requested extras need", c.where, st.trace[-3:])

    def on_iter_break(self, it, el, st, node, fr, eng):
        self.ctx.finding("dependencies", self.f.short, f"{self.f.short} stops before it has seen all dependencies", self.f.where, st.trace[-3:])

    def is_dep(self, el):
        return el[0] == "elem" and call_name(el[1]) == "dependencies"

    def judge(self, out):
        for t, st in out.ret:
            self.ctx.count("needs")
            if any(call_name(x) == "dependencies" for x in flat(t)):
                continue
            recs = [r for x in flat(t) for r in (st.heap.get(x) if isinstance(st.heap.get(x), frozenset) else ())]
            ok = lambda l, p: l[0] in ("truthy", "isnone") and p == (l[0] == "truthy") and call_name(l[1]) == "installed_package" or \
                l[0] == "in" and p and any(call_name(x) == "installed_packages" for x in subterms(l[2]))
            known = {l: pol for l, (pol, _) in st.facts.items()}
            if any(ok(l, not p) for l, p in known.items()) or not recs:
                continue
            if not covers([frozenset((l, p) for l, p in facts if not ok(l, p) and known.get(l) != p) for el, facts in recs if self.is_dep(el)]):
                self.ctx.finding("dependencies", self.f.short, f"{self.f.short} leaves out dependencies that are installed", self.f.where, st.trace[-3:])
        if not any(self.is_dep(el) for t, st in out.ret for x in flat(t) for el, _ in (st.heap.get(x) if isinstance(st.heap.get(x), frozenset) else ())) and \
                not any(call_name(x) == "dependencies" for t, _ in out.ret for x in flat(t)):
            self.ctx.finding("dependencies", self.f.short, f"{self.f.short} does not return the dependencies of the installed package", self.f.where)


def check(ctx):
    p = program()
    ctx.rule("what is resolved is the requests of all packages except the named ones over the installed packages; exactly the result is planned and executed; "
             "named packages that are kept lose their request mark, the others are returned")
    cls = p.cls(TARGET)
    f = cls.methods.get("uninstall") if cls is not None else None
    ctx.need(f, "PackageInstallationTarget.uninstall")
    request_package(ctx)
    r = Removing(ctx, f)
    eng = Engine(r)
    out = eng.run(f, (frozenset(), (), frozenset()))
    ctx.analysed(eng)
    r.judge(out)
    if not r.plans:
        ctx.finding("plan", f.short, f"{f.short} never makes a plan", f.where)
    rp = p.cls("pkm.api.packages.package_installation._RemovalPackage")
    g = rp.methods.get("dependencies") if rp is not None else None
    if g is not None:
        n = Needs(ctx, g)
        eng = Engine(n)
        n.judge(eng.run(g, None))
        ctx.analysed(eng)
    ctx.sample(f"{f.short}: loops over the named packages {sorted((l[1], sorted(h)) for l, h in r.handled.items())}, {r.plans} plans")
    ctx.at_least("resolutions", 1)
