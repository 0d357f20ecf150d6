"""I11: installing packages never drops what was installed or requested before.  `plan_installation` is followed with the
installed packages and the new dependencies as symbolic collections; the resolver is opaque.  For every request to the resolver
the contents of the request are computed: one that does not hold the requests of everything the user asked for before may only
be made of a repository that offers the installed packages as they are, and what it resolved to must be completed with every
installed package it does not name.  The contents of collections are records (element, conditions under which it was added);
a collection is complete when its records, apart from the conditions that are allowed, cover every case."""
from ..common import *

TARGET = "pkm.api.packages.package_installation.PackageInstallationTarget"
NAMES = ("updates", "packages_to_remove")      # the parameters which list names of packages


def flat(t):
    return [y for x in t[1] for y in flat(x)] if t[0] == "phi" else [t]


def covers(clauses):
    """the disjunction of the conjunctions in `clauses` (frozensets of (literal, polarity)) is a tautology (by resolution)"""
    cs = {frozenset((l, p) for l, p in c if l[0] != "isnone" or p or (("truthy", l[1]), True) not in c) for c in clauses}
    cs = {c for c in cs if not any((l, not p) in c for l, p in c)}
    for _ in range(4):
        if frozenset() in cs:
            return True
        new = set()
        for a in cs:
            for b in cs:
                for l, p in a:
                    if p and (l, False) in b:
                        r = (a | b) - {(l, True), (l, False)}
                        if not any((x, not q) in r for x, q in r):
                            new.add(frozenset(r))
        if new <= cs or len(cs) > 300:
            break
        cs |= new
    return frozenset() in cs


class Planning(Rule):
    keep_all_facts = True
    max_states = 300
    max_depth = 10

    def __init__(self, ctx, f, verdict=None):
        self.ctx, self.f = ctx, f
        self.verdict = verdict   # which resolutions have all the earlier requests (None: to be found out)
        self.new_src = None
        self.attempts = {}
        self.plans = 0
        self.loops = {}          # loop -> [element was put somewhere, element was skipped: (where, trace)]

    def can_raise(self, c):
        return False

    def opaque(self, f):
        return f.name in ("resolve_dependencies", "installed_packages", "installed_package", "reload", "package_name_key", "name_key", "user_request", "normalize_name",
                          "match", "_do_match", "list", "parse", "to_dependency", "dist_info", "descriptor", "version")

    def force_inline(self, f):
        return f.module is self.f.module

    # -- vocabulary
    def is_old(self, t):
        return t[0] == "elem" and any(call_name(x) == "installed_packages" for x in flat(t[1]))

    def kind(self, v):
        """what a collected value is: an installed package, its request or a new dependency"""
        if v[0] == "kv":
            v = v[2]
        if v[0] == "tup" and v[1]:
            v = v[1][-1]
        ks = {self.kind1(x) for x in flat(v)}
        return ks.pop() if len(ks) == 1 else None

    def kind1(self, v):
        if self.is_old(v):
            return "pkg"
        if v[0] == "a" and v[2] == "user_request" and self.is_old(v[1]) or call_name(v) == "user_request" and v[2] is not None and self.is_old(v[2]):
            return "old"
        if v[0] == "elem" and v[1] == ("p", self.f.qual, "packages_to_remove"):
            return "rm"
        if v[0] == "elem" and v[1] == self.new_src or v[0] == "s" and v[1] == self.new_src:
            return "new"
        return None

    def contents(self, t, st, seen=()):
        """the records of a collection: (value, conditions)"""
        if t in seen:
            return []
        if t[0] == "phi":
            return [r for x in t[1] for r in self.contents(x, st, seen + (t,))]
        recs = st.heap.get(t)
        out = [(el, facts) for el, facts in recs] if isinstance(recs, frozenset) else []
        if t[0] == "tup":
            out += [(x, frozenset()) for x in t[1]]
        if t[0] == "call" and (call_name(t) in ("list", "tuple", "set", "values", "copy", "dict", "sorted", "items") or call_name(t) == "installed_packages"):
            if call_name(t) == "installed_packages":
                out.append((("elem", t), frozenset()))
            for x in ([t[2]] if t[2] is not None else []) + list(t[3]):
                out += self.contents(x, st, seen + (t,))
        if t == self.new_src or t == ("p", self.f.qual, "packages_to_remove"):
            out.append((("elem", t), frozenset()))
        for el, facts in list(out):
            if el[0] == "elem" and el[1] != t and isinstance(st.heap.get(el[1]), frozenset):
                out += self.contents(el[1], st, seen + (t,))
        return out

    def exempted(self, st, allowed):
        """in this state the tracked element is one that may be missing"""
        return any(allowed(l, not pol) for l, (pol, _) in st.facts.items())

    def complete(self, t, st, kind, allowed):
        """in this state (a case of the tracked element) the element is in the collection, unless it is exempt"""
        known = {l: pol for l, (pol, _) in st.facts.items()}
        if self.exempted(st, allowed):
            return True
        cl = [frozenset((l, p) for l, p in facts if not allowed(l, p) and known.get(l) != p) for el, facts in self.contents(t, st)
              if self.kind(el) == kind and not any(known.get(l, p) != p for l, p in facts)]
        return covers(cl)

    def names_of(self, coll, st):
        """the sources whose names a collection of names holds"""
        out = set()
        for el, facts in self.contents(coll, st) or [(("elem", coll), frozenset())]:
            for x in subterms(el):
                if x[0] == "p" and x[1] == self.f.qual and x[2] in NAMES:
                    out.add(x[2])
                if call_name(x) == "resolve_dependencies":
                    out.add("result")
        return out

    def own_request(self, l, p):
        """a package counts as requested when it has a user request"""
        return l[0] in ("truthy", "isnone") and p == (l[0] == "truthy") and self.kind1(l[1]) == "old"

    def membership(self, what, polarity, st):
        def ok(l, p):
            if l[0] == "in" and p == polarity:
                n = self.names_of(l[2], st)
                return n == {what} or not n and l[2][0] == "cont" and not self.contents(l[2], st)
            return False
        return ok

    # -- ps: (iterated sources, stack of (loop, element, put somewhere))
    def sources(self, it, st):
        ks = {self.kind(el) for el, _ in self.contents(it, st)}
        return bool(ks & {"pkg", "old", "new", "rm"})

    def on_iter(self, it, el, st, node, fr, eng):
        src, stack = st.ps
        if self.sources(it, st) or self.kind(el):
            src = src | {(id(node), it)}
        return st.with_ps((src, stack + ((id(node), el, False),)))

    def on_iter_end(self, it, el, st, node, fr, eng, filtered):
        src, stack = st.ps
        if not stack:
            return None
        _, el, put = stack[-1]
        if self.kind(el) in ("pkg", "old", "new"):
            lp = self.loops.setdefault((fr.func.qual, getattr(node, "lineno", 0), getattr(node, "col_offset", 0)), [False, []])
            if put:
                lp[0] = True
            elif not self.exempt(el, st):
                lp[1].append((f"{fr.func.short}", el, st.trace[-3:], f"{self.f.where.split(':')[0]}:{getattr(node, 'lineno', 0)} {fr.func.short}", dict(st.facts)))
        return st.with_ps((src, stack[:-1]))

    def on_iter_break(self, it, el, st, node, fr, eng):
        src, stack = st.ps
        if stack and self.kind(stack[-1][1]) in ("pkg", "old", "new"):
            self.ctx.finding("dropped", f"{self.f.short}:{self.kind(stack[-1][1])}", f"{self.f.short} stops before it has seen all {self.say(stack[-1][1])}", self.f.where,
                             st.trace[-3:])
        return st.with_ps((src, stack[:-1]))

    def say(self, el):
        return {"pkg": "installed packages", "old": "earlier requests", "new": "new requirements"}[self.kind(el)]

    def exempt(self, el, st):
        """el need not be kept where it was skipped: it has no request, is listed for update or is resolved anew"""
        for l, (pol, _) in st.facts.items():
            if l[0] in ("truthy", "isnone") and pol == (l[0] == "isnone") and self.kind1(l[1]) == "old":
                return True
            if l[0] == "in" and pol and mentions(l[1], el) and (self.names_of(l[2], st) or l[2][0] == "cont" and not self.contents(l[2], st)):
                return True
            if l[0] == "in" and pol and mentions(l[1], el) and self.kind(el) == "old":     # the new requirement replaces it
                return True
            if self.kind(el) == "new" and mentions(l, el):      # which new requirements come without a version
                return True
        return False

    def on_loop_done(self, it, st, node, fr, eng):
        # there are installed packages, requests and new requirements: what happens without them is of no interest
        if self.sources(it, st) and (id(node), it) not in st.ps[0]:
            return DEAD
        return None

    def put(self, st, value):
        src, stack = st.ps
        if not stack or value is None:
            return st
        new = tuple((n, el, p or value == el or any(x == el for x in subterms(value))) for n, el, p in stack)
        return st.with_ps((src, new)) if new != stack else st

    def clobber(self, cont, value, st, node):
        """an earlier request is put over the new one for the same package"""
        if self.kind(value) != "old" or cont[0] != "cont":
            return
        if any(self.kind(el) == "new" and el[0] == "kv" for el, _ in self.contents(cont, st)):
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "setdefault":
                return
            if any(l[0] == "in" and not pol for l, (pol, _) in st.facts.items()):
                return
            self.ctx.finding("override", f"{self.f.short}", f"{self.f.short} lets the earlier request for a package replace the new one", self.f.where, st.trace[-3:])

    def on_add(self, cont, value, st, node, fr, eng):
        if value is not None and value[0] == "kv":
            self.clobber(cont, value, st, node)
        return self.put(st, value)

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        if kind == "sub" and value is not None:
            self.clobber(base, ("kv", key, value), st, node)
            return self.put(st, value)
        if kind in ("delsub", "clear", "remove"):
            ks = {self.kind(el) for el, _ in self.contents(base, st)} if base is not None else set()
            if ks & {"pkg", "old"}:
                self.ctx.finding("dropped", f"{self.f.short}:removed", f"{self.f.short} takes installed packages or earlier requests out of a collection", self.f.where, st.trace[-3:])
        return None

    # -- the resolver
    def request_of(self, t, st):
        """the collection of dependencies that a package (or the dependency on it) stands for: found through the repository"""
        return [v for k, v in st.heap.items() if isinstance(k, tuple) and k[0] == "fld" and k[1] == t]

    def on_call(self, c, st, eng):
        if c.name == "resolve_dependencies":
            repo = c.arg(2, "pkgs") or (c.args[2] if len(c.args) > 2 else None)
            key = self.attempt(c, repo, st, eng)
            t = c.term()
            t = ("call", t[1], t[2], tuple(t[3]) + (("c", "attempt", key),), t[4])
            return Take(normal=[(t, st)], raises=[(("exc", "UnsolvableProblemException", None), st)])
        if c.name == "InstallationPlan" and c.cls is not None:
            self.plan(c, st)
        if c.name == "pop" and c.recv is not None and {self.kind(el) for el, _ in self.contents(c.recv, st)} & {"pkg", "old"}:
            self.ctx.finding("dropped", f"{self.f.short}:removed", f"{self.f.short} takes installed packages or earlier requests out of a collection", c.where, st.trace[-3:])
        return None

    def requests_in(self, repo, st):
        """the collections of requests reachable from the repository a resolution works on"""
        out, seen, todo = [], set(), [repo]
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            for k, v in st.heap.items():
                if isinstance(k, tuple) and k[0] == "fld" and k[1] == t:
                    todo.extend(flat(v))
            if {self.kind(el) for el, _ in self.contents(t, st)} & {"old", "new"}:
                out.append(t)
        return out

    def attempt(self, c, repo, st, eng):
        self.ctx.count("resolutions")
        reqs = self.requests_in(repo, st) if repo is not None else []
        if not reqs:
            self.ctx.finding("no-request", self.f.short, f"{self.f.short} resolves without the requirements to be installed", c.where, st.trace[-3:])
            return
        key = (c.fr.fid, c.node.lineno, c.node.col_offset, tuple(sorted(repr(v) for k, v in st.heap.items() if isinstance(k, tuple) and k[0] == "fld"
                                                                         and k[1] == repo and v in (TRUE, FALSE))))
        if not all(self.complete(r, st, "new", self.membership("none", True, st)) for r in reqs):
            self.ctx.finding("new-missing", self.f.short, f"{self.f.short} resolves without all of the new requirements", c.where, st.trace[-3:])
        if not self.exempted(st, self.own_request) and self.verdict is None:
            ok = all(self.complete(r, st, "old", self.own_request) for r in reqs)
            self.attempts[key] = self.attempts.get(key, True) and ok
        if self.verdict is None or self.verdict.get(key):
            return key
        allowed = self.membership("updates", False, st)
        if self.exempted(st, allowed):
            return key
        held = [v for k, v in st.heap.items() if isinstance(k, tuple) and k[0] == "fld" and k[1] == repo and any(self.kind(el) == "pkg" for el, _ in self.contents(v, st))]
        if not any(self.complete(h, st, "pkg", allowed) for h in held):
            self.ctx.finding("not-as-is", f"{self.f.short}", f"{self.f.short} resolves without the requests of everything the user asked for before, with a repository "
                             "that does not hold every installed package that is not to be updated", c.where, st.trace[-3:])
            return key
        self.as_is(c, repo, held, st)
        return key

    def as_is(self, c, repo, held, st):
        """the repository of such a resolution offers the installed package, and nothing else, for its name"""
        cls = program().cls(repo[1]) if repo[0] == "new" else None
        m = cls.methods.get("match") or cls.methods.get("_do_match") if cls is not None else None
        if m is None:
            self.ctx.finding("requests-lost", self.f.short, f"{self.f.short} resolves without the requests of everything the user asked for before", c.where, st.trace[-3:])
            return
        sub = Offer(self, repo)
        e2 = Engine(sub)
        o = e2.run(m, (), args={m.params[0]: repo}, self_cls=cls.qual, heap=st.heap, facts={k: (v[0], True) for k, v in st.facts.items()})
        self.ctx.analysed(e2)
        for t, s in o.ret:
            self.ctx.count("offers")
            vals = [el for x in flat(t) for el, _ in self.contents(x, s)]
            if vals and all(self.kind(v) == "pkg" or v[0] == "s" and v[1] in held for v in vals):
                continue
            if vals and not any(self.kind(v) == "pkg" for v in vals) and all(v[0] == "new" for v in vals):
                continue         # the request itself
            if any(l[0] in ("truthy", "isnone") and pol == (l[0] == "isnone") and sub.looked_up(l[1], held) or
                   l[0] == "in" and not pol and l[2] in held for l, (pol, _) in s.facts.items()):
                continue         # no such package is installed
            self.ctx.finding("not-as-is", m.short, f"{m.short} can offer another version of an installed package to a resolution that leaves out the earlier "
                             "requests", m.where, s.trace[-3:])

    def plan(self, c, st):
        self.plans += 1
        self.ctx.count("plans")
        pk, rq = c.arg(1, "packages"), c.arg(2, "user_requests")
        if pk is None or rq is None:
            return
        src = [x for t in flat(pk) for x in subterms(t) if call_name(x) == "resolve_dependencies"]
        src += [x for el, _ in self.contents(pk, st) for x in subterms(el) if call_name(x) == "resolve_dependencies"]
        if not src:
            self.ctx.finding("plan", self.f.short, f"{self.f.short} plans something that the resolver did not choose", c.where, st.trace[-3:])
            return
        for res in set(src):
            if not self.full_result(res, st):
                if not self.complete(pk, st, "pkg", self.membership("result", False, st)):
                    self.ctx.finding("dropped", f"{self.f.short}:kept", f"{self.f.short} plans what was resolved from the new requirements alone without every installed "
                                     "package that this does not name: the others would be removed", c.where, st.trace[-3:])
        never = lambda l, p: False
        if not self.complete(rq, st, "old", self.own_request):
            self.ctx.finding("request-record", f"{self.f.short}:old", f"{self.f.short} plans without the requests that the user made earlier", c.where, st.trace[-3:])
        asked = st.facts.get(("truthy", ("p", self.f.qual, "user_requested")), (None,))[0]
        has = self.complete(rq, st, "new", self.membership("none", True, st))
        some = any(self.kind(el) == "new" for el, _ in self.contents(rq, st))
        if asked and not has:
            self.ctx.finding("request-record", f"{self.f.short}:new", f"{self.f.short} plans without recording the new requirements as requests of the user", c.where, st.trace[-3:])
        if asked is False and some:
            self.ctx.finding("request-record", f"{self.f.short}:dep", f"{self.f.short} records requirements that the user did not make as requests of the user", c.where, st.trace[-3:])

    def full_result(self, res, st):
        """the result is that of a resolution which had all the earlier requests"""
        return self.verdict is None or bool(self.verdict.get(res[3][-1][2]))

    def judge(self, out):
        for lp, (put, skipped) in self.loops.items():
            if put and skipped:
                where, el, trace, pos, _ = skipped[0]
                self.ctx.finding("dropped", f"{where}:{self.kind(el)}", f"{where} leaves out some of the {self.say(el)}", pos, trace)


class Mute:
    """the first pass only finds out which resolutions there are"""
    def finding(self, *a):
        pass

    def count(self, *a):
        pass

    analysed = count


class Offer(Rule):
    """what a repository offers for a name"""
    keep_all_facts = True
    max_states = 200

    def __init__(self, outer, repo):
        self.outer, self.repo = outer, repo

    def can_raise(self, c):
        return False

    def opaque(self, f):
        return self.outer.opaque(f) and f.name not in ("match", "_do_match") or f.name in ("match", "_do_match") and "package_installation" not in f.module.name

    def on_call(self, c, st, eng):
        if c.func is None or self.opaque(c.func):
            if c.name in ("match", "_do_match", "list", "parse", "max", "sort", "sorted"):     # what others do with their packages does not matter
                return Take(normal=[(c.term(), st)])
        return None

    def looked_up(self, t, held):
        return self.outer.kind(t) == "pkg" or call_name(t) in ("get", "pop") and t[2] in held or t[0] == "s" and t[1] in held


def request_package(ctx):
    """the package that stands for the requests depends on all of them"""
    cls = program().cls("pkm.api.packages.package_installation._UserRequestPackage")
    f = cls.methods.get("dependencies") if cls is not None else None
    if f is None:
        return
    r = Rule()
    r.keep_all_facts = True
    eng = Engine(r)
    slf = ("p", f.qual, f.params[0])
    for t, st in eng.run(f, None).ret:
        x = t
        while call_name(x) in ("list", "tuple", "copy") and (x[3] or x[2]):
            x = x[3][0] if x[3] else x[2]
        recs = st.heap.get(x)
        if x[0] == "cont" and isinstance(recs, frozenset):       # a copy
            els = {el for el, facts in recs if not any(mentions(l, el) for l, _ in facts)}
            x = next(iter(els))[1] if len(els) == 1 and next(iter(els))[0] == "elem" else x
        ctx.count("request_dependencies")
        if not (x[0] == "a" and x[1] == slf):
            ctx.finding("requests-lost", f.short, f"{f.short} does not return all the requests that it stands for", f.where, st.trace[-3:])
    ctx.analysed(eng)


def check(ctx):
    p = program()
    ctx.rule("a resolution that leaves out the earlier requests is one that cannot change installed packages and is completed with all of them; "
             "the plan records the earlier requests and, exactly when the user asked, the new ones")
    cls = p.cls(TARGET)
    f = cls.methods.get("plan_installation") if cls is not None else None
    ctx.need(f, "PackageInstallationTarget.plan_installation")
    request_package(ctx)
    verdict = None
    for asked in (False, False, True):
        r = Planning(ctx if verdict is not None else Mute(), f, verdict)
        r.new_src = ("p", f.qual, "dependencies")
        eng = Engine(r)
        out = eng.run(f, (frozenset(), ()), facts={("truthy", ("p", f.qual, "user_requested")): (asked, True)})
        ctx.analysed(eng)
        if verdict is None:
            verdict = r.attempts
            if verdict and not any(verdict.values()):
                ctx.finding("requests-lost", f.short, f"no resolution of {f.short} has the requests of everything the user asked for before", f.where)
            continue
        r.judge(out)
        if not r.plans:
            ctx.finding("plan", f.short, f"{f.short} never makes a plan", f.where)
        ctx.sample(f"{f.short} (user_requested={asked}): {len(verdict)} resolutions, {sum(verdict.values())} with all earlier requests, {r.plans} plans")
    ctx.at_least("resolutions", 2)
    ctx.at_least("plans", 2)
