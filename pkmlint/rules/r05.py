"""R05: candidates are tried in their order of preference.  Every list of candidates is followed from the index that makes it to
the decision of the solver: where it is sorted the key function is evaluated for an arbitrary candidate, so that what the sort
does is known ('newest first', 'those for which a condition holds first', …); copies, filters and comprehensions keep it."""
from ..common import *
from .b02 import Flow, falsy

REPO = "pkm.api.repositories.repository"
LOCK = "pkm.resolution.packages_lock"
INST = "pkm.api.packages.package_installation._InstallationRepository"
PROBLEM = "pkm.resolution.dependency_resolver._PkmPackageInstallationProblem"
SOLVER = "pkm.resolution.pubgrub.Solver"
MATCH = ("match", "_do_match", "list")


def version_of(t, el):
    return t[0] == "a" and t[2] == "version" and (t[1] == el or t[1][0] == "a" and t[1][1] == el)


class Order(Rule):
    """ps: frozenset of (list, what was done to its order last, detail)"""
    keep_all_facts = True
    max_states = 60
    term_depth = 16

    def __init__(self, ctx, f, opaque=()):
        self.ctx, self.f, self.names = ctx, f, opaque

    def can_raise(self, c):
        return False

    def opaque(self, f):
        return f.name in self.names or f.name in MATCH

    def force_inline(self, f):
        return f.name in ("_sorted_by_version", "sort_packages_by_lock_preference", "_sort_by_priority") or \
            f.module is self.f.module and f.cls is self.f.cls and f.name not in self.names and f.name not in MATCH

    # -- sorting
    def key(self, c, of, key, rev, st, eng):
        """what sorting the list by the key does"""
        down = rev is not None and rev != const(False)
        el = ("elem", of)
        if key is None or falsy(key, st):
            return ("version-desc" if down else "version-asc", ())
        if call_name(key) == "attrgetter" and key[3] == (const("version"),):
            return ("version-desc" if down else "version-asc", ())
        rs = eng.call(c.node, key, [el], {}, c.fr, st, [])
        if rs and all(version_of(t, el) for t, _ in rs):
            return ("version-desc" if down else "version-asc", ())
        if rs and all(t[0] == "tup" and any(version_of(x, el) for x in t[1]) for t, _ in rs):
            return ("version-desc" if down else "version-asc", ())
        if any(version_of(x, el) for t, _ in rs for x in (t,) + (t[1] if t[0] == "tup" else ())):
            return ("other", ())
        return ("partition", (el, down, tuple((t, tuple((l, v[0]) for l, v in s.facts.items() if mentions(l, el)))for t, s in rs)))

    def on_call(self, c, st, eng):
        n = c.ext or c.name
        if n == "sorted" and c.args:
            t = c.term()
            return Take(normal=[(t, st.with_ps(st.ps | {(t,) + self.key(c, c.args[0], c.kwargs.get("key"), c.kwargs.get("reverse"), st, eng)}))])
        if n == "reversed" and c.args:
            t = c.term()
            return Take(normal=[(t, st.with_ps(st.ps | {(t, "reversed", ())}))])
        if n in ("list", "tuple") and len(c.args) == 1 and (any(m[0] == c.args[0] for m in st.ps) or c.args[0][:2] == ("cont", "set")):
            return Take(normal=[(c.args[0], st)])
        if c.recv is not None and c.func is None and c.name == "sort":
            s = self.key(c, c.recv, c.kwargs.get("key"), c.kwargs.get("reverse"), st, eng)
            return Take(normal=[(const(None), st.with_ps(frozenset(m for m in st.ps if m[0] != c.recv or m[1] == "many") | {(c.recv,) + s}))])
        if c.recv is not None and c.func is None and c.name in ("reverse", "insert", "shuffle"):
            k = "reversed" if c.name == "reverse" else "inserted"
            d = (c.args[0], self.own(c.args[1], st)) if k == "inserted" and len(c.args) > 1 else ()
            ps = frozenset(m for m in st.ps if m[0] != c.recv or m[1] == "inserted") | {(c.recv, k, d)}
            return Take(normal=[(const(None), st.with_ps(ps))]) if k == "reversed" else None if self.own(c.args[-1], st) is None else self.inserted(c, st.with_ps(ps))
        return None

    def inserted(self, c, st):
        return Take(normal=[(const(None), st)])

    def own(self, v, st):
        """the lock that v comes from is one of this environment (only used for locks)"""
        for x in subterms(v):
            for l, (pol, _) in st.facts.items():
                if l[0] == "eq" and any(y == ("a", x, "env_markers_hash") for y in l[1:]):
                    return pol
        return None

    def on_iter(self, it, el, st, node, fr, eng):
        m = {("iter",) + x[1:] for x in self.marks(it, st)} | {("iter", "many", it)}
        if m - st.ps:
            return st.with_ps(st.ps | m)

    def marks(self, it, st):
        return {x for x in st.ps if x[0] == it} | ({(it, "unordered", ())} if it[:2] == ("cont", "set") else set())

    def on_loop_done(self, it, st, node, fr, eng):
        ms = {x[1:] for x in self.marks(it, st)} | {("many", it)}
        if any(x[0] == "iter" and x[1:] in ms for x in st.ps):
            return st.with_ps(frozenset(x for x in st.ps if not (x[0] == "iter" and x[1:] in ms)))

    def on_add(self, cont, value, st, node, fr, eng):
        ms = {(cont,) + x[1:] for x in st.ps if x[0] == "iter"}
        if ms - st.ps:
            return st.with_ps(st.ps | ms)

    # -- what a list is made of
    def chain(self, t, st, seen=()):
        """(what was done to the order, where the elements come from)"""
        if t in seen or len(seen) > 12:
            return [], None
        seen += (t,)
        steps = [m[1:] for m in st.ps if m[0] == t and m[1] != "many"]
        if t[0] == "cont":
            if t[1] in ("set",) and not steps:
                steps = [("unordered", ())]
            els = [e for e, _ in st.heap.get(t, ())] if isinstance(st.heap.get(t), frozenset) else []
            srcs = {x[1] for e in els for x in self.tops(e)}
            loops = {m[2] for m in st.ps if m[:2] == (t, "many")}
            if not srcs and len(loops) == 1 and els:
                srcs = loops         # what is added is made for the elements of that list
            if not srcs:
                return steps, ("items", len(els))
            if len(srcs) > 1:
                return steps, ("many", tuple(srcs))
            a, src = self.chain(next(iter(srcs)), st, seen)
            return steps + a, src
        if t[0] == "call" and (call_name(t) in ("list", "tuple", "iter", "sorted", "reversed") and t[2] is None or call_name(t) == "filter") and t[3]:
            a, src = self.chain(t[3][-1] if call_name(t) == "filter" else t[3][0], st, seen)
            return steps + a, src
        if t[0] == "call" and call_name(t) in ("set", "frozenset"):
            return steps + [("unordered", ())], t
        if call_name(t) == "@slice":
            a, src = self.chain(t[2] if t[2] is not None else t[3][0], st, seen)
            return steps + a, src
        if t[0] == "s" and t[2][0] in ("slice", "op", "call", "c") and t[2][0] != "c":
            a, src = self.chain(t[1], st, seen)
            return steps + a, src
        return steps, t

    def tops(self, e):
        """the outermost elements mentioned in e"""
        if not isinstance(e, tuple):
            return []
        if e and e[0] == "elem":
            return [e]
        return [y for x in e if isinstance(x, tuple) for y in self.tops(x)]

    def alternatives(self, t):
        if t[0] == "phi":
            return [y for x in t[1] for y in self.alternatives(x)]
        if t[0] == "op" and t[1] == "or":
            return [y for x in t[2:4] for y in self.alternatives(x)]
        return [t]


def by_url(st):
    return any(call_name(l[1]) == "required_url" and (l[0] == "truthy" and pol or l[0] == "isnone" and not pol) for l, (pol, _) in st.facts.items())


def first(detail, holds):
    """the sort puts the candidates for which `holds(facts)` is True before those for which it is False (None: unknown)"""
    el, down, rs = detail
    ranks = {True: [], False: []}
    for t, facts in rs:
        if t[0] == "op" and t[1] in ("==", "!=", "in", "notin", "not in", "is", "isnot", "is not", "not"):
            v = holds(((("eq" if t[1] in ("==", "!=") else "in",) + t[2:4], True),))
            if v is not None:
                ranks[True].append(t[1] in ("==", "in"))
                ranks[False].append(t[1] not in ("==", "in"))
            continue
        v = holds(facts)
        if v is None:
            return None
        ranks[v].append(t[2] if t[0] == "c" and isinstance(t[2], (int, float, bool)) else None)
    if not ranks[True] or not ranks[False] or None in ranks[True] + ranks[False]:
        return None
    if down:
        return min(ranks[True]) > max(ranks[False])
    return max(ranks[True]) < min(ranks[False])


BAD = {"version-asc": "oldest first", "reversed": "in reverse", "unordered": "in no order", "other": "not newest first"}


def indexes(ctx, p):
    base = p.cls(REPO + ".AbstractRepository")
    ctx.need(base, "AbstractRepository")
    for cls in p.all_subclasses(base):
        f = cls.methods.get("_do_match")
        if f is None or cls.name == "LockPrioritizingRepository":
            continue
        r = Order(ctx, f, ("subdir_by_name", "fetch_resource", "_create_artifact_from_pypi_release", "_extract_version", "groupby", "feed", "from_config",
                           "parse", "required_url", "allows_version", "load_package_from_filesystem"))
        eng = Engine(r)
        out = eng.run(f, frozenset(), self_cls=cls.qual)
        ctx.analysed(eng)
        ctx.count("indexes")
        for t, st in out.ret:
            if by_url(st):
                continue
            for a in r.alternatives(t):
                steps, src = r.chain(a, st)
                kinds = [k for k, _ in steps]
                ctx.count("candidate_lists")
                if src is not None and (src[0] == "items" and src[1] <= 1 and "unordered" not in kinds and not any(m[1] == "many" and mentions(a, m[0]) for m in st.ps) or src[0] == "c" or src[0] == "tup" and len(src[1]) <= 1):
                    continue
                wrapped = src is not None and call_name(src) in MATCH
                if wrapped:
                    bad = [k for k in kinds if k in BAD]
                    if bad:
                        ctx.finding("order", f.short, f"{f.short} returns the packages of another repository {BAD[bad[0]]}", f.where, st.trace[-3:])
                elif not kinds or kinds[0] != "version-desc":
                    ctx.finding("order", f.short, f"{f.short} returns its packages {BAD.get(kinds[0] if kinds else 'unordered', 'not newest first')}, not newest first", f.where, st.trace[-3:])


def kept(ctx, f, self_cls, source, what, opaque=(), args=None):
    """the list that f returns has the order of the one that `source` makes"""
    r = Order(ctx, f, opaque)
    eng = Engine(r)
    out = eng.run(f, frozenset(), self_cls=self_cls)
    ctx.analysed(eng)
    found = 0
    for t, st in out.ret:
        for a in r.alternatives(t):
            steps, src = r.chain(a, st)
            if src is None or not any(call_name(x) in source for x in subterms(src)) and not (src[0] == "items" and src[1] and steps):
                continue
            found += 1
            ctx.count("kept_orders")
            if steps:
                ctx.finding("order", f.short, f"{f.short} does not keep the order of {what} ({steps[0][0]})", f.where, st.trace[-3:])
    return found


def installed(ctx, p):
    cls = p.cls(INST)
    ctx.need(cls, "_InstallationRepository")
    f = cls.methods.get("match")
    ctx.need(f, "_InstallationRepository.match")
    r = Order(ctx, f)
    eng = Engine(r)
    out = eng.run(f, frozenset(), self_cls=cls.qual)
    ctx.analysed(eng)

    def is_installed(t):
        return mentions_attr(t, "_installed_packages")

    def same_version(facts):
        for l, pol in facts:
            if l[0] == "eq" and any(is_installed(x) for x in l[1:]) and not all(is_installed(x) for x in l[1:]):
                return pol
        return None
    for t, st in out.ret:
        there = next((pol == (l[0] != "isnone") for l, (pol, _) in st.facts.items() if l[0] in ("truthy", "isnone") and (l[1][0] == "s" or call_name(l[1]) in ("get", "pop")) and is_installed(l[1]) or
                      l[0] == "in" and is_installed(l[2])), None)
        steps, src = r.chain(t, st)
        if src is None or call_name(src) not in MATCH:
            if t[0] == "op" and t[1] == "+":
                ctx.count("installed_first")
            continue
        ctx.count("planning_lists")
        if any(k in BAD for k, _ in steps):
            ctx.finding("order", f.short, f"{f.short} returns the candidates of the repository {BAD[next(k for k, _ in steps if k in BAD)]}", f.where, st.trace[-3:])
        elif there is True:
            ctx.count("installed_first")
            v = [first(d, same_version) for k, d in steps if k == "partition"]
            facts = [(l, pol) for _, fs in (st.heap.get(t) if isinstance(st.heap.get(t), frozenset) else ()) for l, pol in (fs.items() if isinstance(fs, dict) else fs)]
            if not v and same_version(facts) is not None:
                continue       # put together from parts that are told apart by that
            if not v:
                ctx.finding("installed-first", f.short, f"{f.short} does not put the version that is installed before the others", f.where, st.trace[-3:])
            elif v[0] is False:
                ctx.finding("installed-first", f.short, f"{f.short} puts the version that is installed behind the others", f.where, st.trace[-3:])


def mentions_attr(t, name):
    return any(x[0] == "a" and x[2] == name for x in subterms(t) if x)


def lock(ctx, p):
    cls = p.cls(LOCK + ".LockPrioritizingRepository")
    ctx.need(cls, "LockPrioritizingRepository")
    f = cls.methods.get("_do_match")
    ctx.need(f, "LockPrioritizingRepository._do_match")
    r = Order(ctx, f, ("locked_versions",))
    r.force_inline = lambda g: g.name == "sort_packages_by_lock_preference" or g.module is f.module and g.name not in MATCH + ("locked_versions",)
    eng = Engine(r)
    out = eng.run(f, frozenset(), self_cls=cls.qual)
    ctx.analysed(eng)
    for t, st in out.ret:
        steps, src = r.chain(t, st)
        if src is None or call_name(src) not in MATCH:
            continue
        empty = any(l[0] == "truthy" and not pol and l[1] == src for l, (pol, _) in st.facts.items())
        if empty:
            continue
        ctx.count("lock_preferences")
        if any(k in BAD for k, _ in steps):
            ctx.finding("order", f.short, f"{f.short} returns the candidates {BAD[next(k for k, _ in steps if k in BAD)]}", f.where, st.trace[-3:])
            continue
        parts = [d for k, d in steps if k == "partition"]
        if not parts:
            ctx.finding("lock-ignored", f.short, f"{f.short} does not put locked versions before the others", f.where, st.trace[-3:])
            continue
        el, down, rs = parts[0]

        def locked(facts):
            return next((pol for l, pol in facts if l[0] == "in" and any(version_of(x, el) or x == el for x in subterms(l[1]))), None)
        ranked = [(t, facts) for t, facts in rs if ordered_by(t, el)]
        if down and ranked:
            ctx.finding("lock-last", f.short, f"{f.short} puts the locked versions last", f.where, st.trace[-3:])
        elif not ranked:
            v = first(parts[0], locked)
            if v is False:
                ctx.finding("lock-last", f.short, f"{f.short} puts the locked versions last", f.where, st.trace[-3:])
            elif v:
                ctx.finding("lock-flat", f.short, f"{f.short} does not put the version locked for this environment before the versions locked for others", f.where, st.trace[-3:])
        else:
            for t, facts in rs:
                if t[0] == "c" and isinstance(t[2], (int, float)) and t[2] <= 0 and locked(facts) is False:
                    ctx.finding("lock-last", f.short, f"{f.short} puts versions that are not locked first", f.where, st.trace[-3:])
                if locked(facts) is True and t[0] == "c":
                    ctx.finding("lock-flat", f.short, f"{f.short} does not put the version locked for this environment before the versions locked for others", f.where, st.trace[-3:])
                for x in subterms(t):
                    if call_name(x) in ("index",) and x[2] is not None:
                        a, s = r.chain(x[2], st)
                        if any(k in BAD for k, _ in a):
                            ctx.finding("lock-last", f.short, f"{f.short} ranks the locked versions {BAD[next(k for k, _ in a if k in BAD)]}", f.where, st.trace[-3:])
    g = p.cls(LOCK + ".PackagesLock").methods.get("locked_versions")
    ctx.need(g, "PackagesLock.locked_versions")
    r = Locked(ctx, g)
    eng = Engine(r)
    out = eng.run(g, frozenset())
    ctx.analysed(eng)
    own = 0
    for t, st in out.ret:
        ctx.count("lock_lists")
        parts = [t]
        if t[0] == "op" and t[1] == "+":
            parts = flat(t)
        pols = [x for q in parts for x in r.content(q, st)]
        if any(m[0] in parts and m[1] == "own-last" for m in st.ps) or any(r.late(q) for q in parts):
            ctx.finding("lock-order", g.short, f"{g.short} puts what is locked for this environment behind what is locked for others", g.where, st.trace[-3:])
            own += 1
            continue
        if r.partitioned(t, st) or any(m[0] in parts and m[1] == "own-first" for m in st.ps):
            own += 1
            if any(m[0] in parts and m[1] == "own-last" for m in st.ps):
                ctx.finding("lock-order", g.short, f"{g.short} puts what is locked for this environment behind what is locked for others", g.where, st.trace[-3:])
            continue
        if len(parts) > 1 and None not in pols and pols:
            own += True in pols
            if pols != sorted(pols, reverse=True):
                ctx.finding("lock-order", g.short, f"{g.short} puts what is locked for this environment behind what is locked for others", g.where, st.trace[-3:])
        elif any(m[0] in parts and m[1] == "own-last" for m in st.ps):
            ctx.finding("lock-order", g.short, f"{g.short} puts what is locked for this environment behind what is locked for others", g.where, st.trace[-3:])
    if not own:
        ctx.finding("lock-order", g.short, f"{g.short} does not put what is locked for this environment first", g.where)


def flat(t):
    if call_name(t) == "@slice":
        return flat(t[2] if t[2] is not None else t[3][0])
    return [y for x in t[2:4] for y in flat(x)] if t[0] == "op" and t[1] == "+" else [t]


def ordered_by(t, el):
    """the rank is the position in a list, or looked up for the version"""
    return any(call_name(x) in ("index", "get") and any(version_of(a, el) or a == el for a in x[3]) or x[0] == "s" and version_of(x[2], el) for x in subterms(t) if x)


class Locked(Order):
    """the locks of a package: those of this environment are known by the comparison of the hash"""

    def __init__(self, ctx, f):
        super().__init__(ctx, f, ("package_name_key",))
        self.added = {}

    def late(self, cont):
        """what is locked for this environment is added to the list after what is locked for others"""
        own, other = self.added.get((cont, True)), self.added.get((cont, False))
        return bool(own and other) and min(own) > max(other)

    def inserted(self, c, st):
        own = self.own(c.args[-1], st)
        ps = frozenset(m for m in st.ps if m[1] != "inserted")
        if own and c.args[0] == const(0):
            ps |= {(c.recv, "own-first", ())}
        elif own:
            ps |= {(c.recv, "own-last", ())}
        return Take(normal=[(const(None), st.with_ps(ps))])

    def on_add(self, cont, value, st, node, fr, eng):
        st = super().on_add(cont, value, st, node, fr, eng) or st
        own = self.own(value, st)
        if own is None:
            pols = {y for x in subterms(value) for q in flat(x) if q[0] == "cont" for y in self.content(q, st)}
            own = next(iter(pols)) if len(pols) == 1 else None
        if own is not None:
            self.added.setdefault((cont, own), set()).add(getattr(node, "lineno", 0))
        if own:
            return st.with_ps(st.ps | {(cont, "own-first", ())})
        return st

    def content(self, q, st):
        """for every element of the list, whether it is locked for this environment"""
        els = st.heap.get(q)
        out = set()
        for e, facts in els if isinstance(els, frozenset) else ():
            fs = facts.items() if isinstance(facts, dict) else facts
            v = None
            for x in subterms(e):
                for l, pol in fs:
                    if l[0] == "eq" and any(y == ("a", x, "env_markers_hash") for y in l[1:]):
                        v = pol[0] if isinstance(pol, tuple) else pol
            out.add(v)
        return sorted(out, key=str)

    def partitioned(self, t, st):
        def is_own(facts):
            return next((pol for l, pol in facts if l[0] == "eq" and any(x[0] == "a" and x[2] == "env_markers_hash" for x in l[1:])), None)
        return any(first(d, is_own) is True for k, d in self.chain(t, st)[0] if k == "partition")


class Candidates(Flow):
    """every candidate that is allowed reaches the list of those that are tried"""

    def __init__(self, ctx, f, source, excuses):
        super().__init__(ctx, f)
        self.source, self.excuses = source, excuses

    def relevant(self, it, el, st):
        return call_name(it) in self.source

    def on_add(self, cont, value, st, node, fr, eng):
        if value[0] == "new" and st.ps:
            return st.with_ps(st.ps[:-1] + ((st.ps[-1][0], True),))
        return super().on_add(cont, value, st, node, fr, eng)

    def exempt(self, it, el, st):
        return any(l[0] == "truthy" and call_name(l[1]) in self.excuses and pol == self.excuses[call_name(l[1])] and mentions(l[1], el) or
                   l[0] == "isinst" and not pol and mentions(l[1], el) for l, (pol, _) in st.facts.items()) or falsy(el, st)


class Decide(Order):
    """the solver tries the first of the versions that are allowed"""

    def __init__(self, ctx, f):
        super().__init__(ctx, f, ("package_versions", "_attempt_minor_adjustments", "_add_dependency_incompatibilities", "check_satisfaction", "make_assignment"))
        self.tried = {}

    def force_inline(self, f):
        return super().force_inline(f) and f.name not in self.names and f.cls is self.f.cls

    def on_call(self, c, st, eng):
        if c.name == "fetch_dependencies_info" and c.recv is not None:
            self.tried.setdefault((c.recv, c.where), st)
            return Take(normal=[(const(None), st)])
        if c.name == "pop" and c.recv is not None and c.recv[0] == "cont":
            return Take(normal=[(c.term(), st)])
        return super().on_call(c, st, eng)


def check(ctx):
    p = program()
    ctx.rule("indexes return candidates newest first; locked and installed versions are put first, everything else keeps the order; the solver tries the first candidate that is allowed")
    indexes(ctx, p)
    base = p.cls(REPO + ".AbstractRepository")
    f = base.methods.get("match")
    ctx.need(f, "AbstractRepository.match")
    if not kept(ctx, f, base.qual, ("_do_match",), "the candidates", ("_do_match", "is_compatible_with")):
        ctx.finding("order", f.short, f"{f.short} does not return the candidates of _do_match", f.where)
    r = Candidates(ctx, f, ("_do_match",), {"is_compatible_with": False})
    eng = Engine(r)
    eng.run(f, (), self_cls=base.qual)
    r.report("left-out", "a candidate")
    b = p.cls(REPO + ".Repository")
    f = b.methods.get("list") if b is not None else None
    if f is not None:
        kept(ctx, f, b.qual, ("match",), "the candidates")
    installed(ctx, p)
    lock(ctx, p)
    pr = p.cls(PROBLEM)
    f = pr.methods.get("get_versions") if pr is not None else None
    ctx.need(f, "get_versions")
    if not kept(ctx, f, pr.qual, ("result", "list", "match"), "the candidates", ("is_compatible_with", "_prefetch")):
        ctx.finding("order", f.short, f"{f.short} does not return the versions of the candidates", f.where)
    r = Candidates(ctx, f, ("result",), {"is_compatible_with": False})
    eng = Engine(r)
    eng.run(f, (), self_cls=pr.qual)
    ctx.analysed(eng)
    r.report("left-out", "a candidate")
    so = p.cls(SOLVER)
    f = so.methods.get("package_versions") if so is not None else None
    if f is not None:
        kept(ctx, f, so.qual, ("get_versions",), "the candidates")
        r = Candidates(ctx, f, ("get_versions",), {})
        eng = Engine(r)
        eng.run(f, (), self_cls=so.qual)
        r.report("left-out", "a candidate")
    f = so.methods.get("_make_next_decision")
    ctx.need(f, "Solver._make_next_decision")
    d = Decide(ctx, f)
    eng = Engine(d)
    eng.run(f, frozenset(), self_cls=so.qual)
    ctx.analysed(eng)
    for (v, where), st in d.tried.items():
        ctx.count("tried_versions")
        bad = None
        lst = None
        if call_name(v) == "pop" and v[2] is not None:
            lst = v[2]
            bad = "the last" if v[3] != (const(0),) else None
        elif v[0] == "s":
            lst = v[1]
            bad = "not the first" if v[2] != const(0) else None
        elif call_name(v) in ("max", "min", "choice"):
            bad = "not the first"
        if lst is not None:
            steps, src = d.chain(lst, st)
            rev = sum(k == "reversed" for k, _ in steps)
            if call_name(v) == "pop" and bad and rev % 2:
                bad = None
            elif any(k in BAD or k in ("version-desc", "partition") for k, _ in steps) and not (bad is None and not steps):
                bad = bad or "not the first"
        if bad:
            ctx.finding("not-first", f.short, f"{f.short} tries {bad} of the versions that are allowed", where, st.trace[-3:])
    r = Candidates(ctx, f, ("package_versions", "get_versions"), {"allows_version": False})
    r.opaque = lambda g: g.name in d.names
    eng = Engine(r)
    eng.run(f, (), self_cls=so.qual)
    ctx.analysed(eng)
    r.report("left-out", "a candidate")
    ctx.at_least("indexes", 4)
    ctx.at_least("candidate_lists", 4)
    ctx.at_least("kept_orders", 2)
    ctx.at_least("lock_preferences", 1)
    ctx.at_least("tried_versions", 1)
