"""R06: what PackagesLock keeps.  One arbitrary locked version is followed through every loop that visits the locks: it is
put into the new collection, except under the fact that it was locked for the environment that is being recorded; the
visit reaches every group and every lock of it, and the collection that was built from that visit is the one that is
stored or saved.  Versions recorded for the environment carry that environment's hash."""
from ..common import *

LOCK = "pkm.resolution.packages_lock.PackagesLock"
ITEM = "_LockedVersion"


class Keep(Rule):
    max_states = 60
    keep_all_facts = True
    force = ("pkm.utils.iterators",)
    interesting = {"save", "append"}

    def __init__(self, ctx, entry, slf, may_drop):
        self.ctx, self.entry, self.slf, self.may_drop = ctx, entry, slf, may_drop
        self.visits = self.kept = self.made = 0
        self.result = []

    # ps: (containers that received the current lock, containers that received every lock (None: no visit), finished iterables,
    #      the lock being visited)
    def start(self):
        return (frozenset(), None, frozenset(), None)

    def opaque(self, f):
        return f.name in ("groupby", "unone", "installed_packages") or f.cls is not None and f.cls.name in ("ConfigFile", "Environment", "SitePackages") \
            or f.is_property

    def can_raise(self, c):
        return False

    def is_lock(self, el, eng, st):
        t = eng.type_of(el, st)
        return bool(t and t[0] == "cls" and t[1].split(".")[-1] == ITEM)

    def of_locks(self, t):
        return any(x[0] == "a" and x[1] == self.slf and x[2] == "_locked_packages" for x in subterms(t)) or \
            any(x[0] == "p" and "lock" in x[2] for x in subterms(t)) and any(x[0] == "p" and x[1] == self.entry.qual for x in subterms(t))

    def whole(self, it, st):
        """it runs over all groups (or all locks)"""
        r = st.heap.get(it)
        if isinstance(r, frozenset):
            return any(self.of_locks(el) for el, _ in r)
        return self.of_locks(it) and it[0] != "s" and it[0] != "elem"

    def group(self, el, eng, st):
        """el is one group of locks"""
        if el[0] == "elem" and el[1] == ("a", self.slf, "_locked_packages"):
            return True     # one name
        return el[0] in ("elem", "s", "tup") and self.of_locks(el) and not self.is_lock(el, eng, st)

    def on_iter(self, it, el, st, node, fr, eng):
        if self.is_lock(el, eng, st):
            self.visits += 1
            return st.with_ps((frozenset(),) + st.ps[1:3] + (el,))
        return None

    def on_add(self, cont, value, st, node, fr, eng):
        if value is not None and value[0] == "elem" and self.is_lock(value, eng, st):
            self.kept += 1
            if st.ps[3] != value and self.of_locks(value):     # all elements at once
                good = frozenset([cont]) if st.ps[1] is None else st.ps[1] & {cont} or frozenset([cont])
                return st.with_ps((st.ps[0], good, st.ps[2] | {value[1]}, None))
            return st.with_ps((st.ps[0] | {cont},) + st.ps[1:])
        return None

    def dropped_ok(self, el, st):
        for l, (pol, _) in st.facts.items():
            if l[0] == "eq" and pol and any(x == ("a", el, "env_markers_hash") for x in l[1:]) and self.may_drop and \
                    any(x[0] == "a" and x[2] == "markers_hash" for y in l[1:] if isinstance(y, tuple) for x in subterms(y)):
                return True
        return False

    def on_iter_end(self, it, el, st, node, fr, eng, filtered):
        ps = st.ps
        if self.is_lock(el, eng, st):
            if self.dropped_ok(el, st):
                return st.with_ps((frozenset(),) + ps[1:3] + (None,))
            got = ps[0]
            if not got:
                self.ctx.finding("lock-dropped", f"{self.entry.short}", f"{self.entry.short} drops a locked version that another environment "
                                 "may have locked", f"{fr.func.module.rel}:{getattr(node, 'lineno', 0)}", st.trace[-3:])
            good = got if ps[1] is None else (ps[1] & got or got)
            return st.with_ps((frozenset(), good, ps[2], None))
        if self.group(el, eng, st):
            if not any(mentions(x, y) for x in ps[2] for y in (el[1] if el[0] == "tup" else (el,)) if y[0] != "elem" or el[0] != "tup"):
                self.ctx.finding("group-skipped", f"{self.entry.short}", f"{self.entry.short} skips the locked versions of a package",
                                 f"{fr.func.module.rel}:{getattr(node, 'lineno', 0)}", st.trace[-3:])
            return st.with_ps((ps[0], ps[1], frozenset(x for x in ps[2] if not mentions(x, el)), None))
        return None

    def on_iter_break(self, it, el, st, node, fr, eng):
        if self.is_lock(el, eng, st) or self.group(el, eng, st):
            self.ctx.finding("visit-cut-short", f"{self.entry.short}", f"{self.entry.short} stops before every locked version was visited",
                             f"{fr.func.module.rel}:{getattr(node, 'lineno', 0)}", st.trace[-3:])
        return None

    def on_loop_done(self, it, st, node, fr, eng):
        return st.with_ps(st.ps[:2] + (st.ps[2] | {it}, None))

    def check_result(self, value, st, where):
        """value must be a collection of all visited locks"""
        ps = st.ps
        self.made += 1
        if value is not None and value[0] == "call" and call_name(value) == "groupby":
            value = value[3][0]
        visited = any(self.whole(x, st) for x in ps[2])
        if not visited and value is not None and self.of_locks(value):
            return      # the collection itself
        if not visited or ps[1] is not None and not any(mentions(value, c) or self.covers(value, c, st) for c in ps[1]):
            self.ctx.finding("other-collection", self.entry.short, f"{self.entry.short} keeps a collection that does not hold the "
                             "versions that were locked before", where, st.trace[-3:])

    @staticmethod
    def covers(value, c, st):
        a, b = st.heap.get(value), st.heap.get(c)
        return isinstance(a, frozenset) and isinstance(b, frozenset) and bool(b) and {e for e, _ in b} <= {e for e, _ in a}

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        if kind == "attr" and key == "_locked_packages" and base == self.slf:
            self.check_result(value, st, f"{fr.func.module.rel}:{node.lineno}")
        return None

    def on_call(self, c, st, eng):
        if c.name in ("pop", "clear", "popitem") and c.recv is not None and c.recv == ("a", self.slf, "_locked_packages"):
            self.ctx.finding("lock-dropped", f"{self.entry.short}", f"{self.entry.short} removes locked versions regardless of their environment", c.where)
        if c.cls is not None and c.cls.name == ITEM:
            h = c.arg(0, "env_markers_hash")
            self.ctx.count("recorded_versions")
            if not (h is not None and h[0] == "a" and h[2] == "markers_hash" and h[1][0] == "p"):
                self.ctx.finding("recorded-for-other", self.entry.short, "a version is recorded under something else than the hash of "
                                 "the environment that was asked for", c.where)
            return Take(normal=[(("call", ("mk", c.cls.qual), None, tuple(c.args), ()), st)])
        if c.cls is not None and c.cls.name == "_PackageLockConfig":
            v = c.arg(0, "locks")
            self.check_result(v, st, c.where)
            return Take(normal=[(("call", ("mk", c.cls.qual), None, (v,), ()), st)])
        return None


class Grouping(Rule):
    """groupby puts every element into a group that is part of the result"""
    keep_all_facts = True
    max_states = 40

    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f
        self.src = ("p", f.qual, f.params[0])

    def can_raise(self, c):
        return False

    def on_iter(self, it, el, st, node, fr, eng):
        if it == self.src:
            return st.with_ps(False)

    def on_add(self, cont, value, st, node, fr, eng):
        if value == ("elem", self.src):
            return st.with_ps(True)

    def on_iter_end(self, it, el, st, node, fr, eng, filtered):
        if it == self.src:
            self.ctx.count("grouped_elements")
            if not st.ps:
                self.ctx.finding("grouping-drops", self.f.short, f"{self.f.short} drops an element", self.f.where, st.trace[-3:])

    def on_iter_break(self, it, el, st, node, fr, eng):
        if it == self.src:
            self.ctx.finding("grouping-drops", self.f.short, f"{self.f.short} stops before the last element", self.f.where)


def check(ctx):
    p = program()
    cls = p.cls(LOCK)
    ctx.need(cls, LOCK)
    ctx.rule("every locked version is carried over, except those recorded earlier for the environment that is being recorded")
    ctx.rule("saving writes every locked version")
    done = {}
    for name, may_drop in (("update_lock", True), ("save", False), ("__init__", False)):
        m = cls.methods.get(name)
        ctx.need(m, f"{LOCK}.{name}")
        r = Keep(ctx, m, ("p", m.qual, m.params[0]), may_drop)
        eng = Engine(r)
        out = eng.run(m, r.start())
        ctx.analysed(eng)
        ctx.count("visits_of_a_lock", r.visits)
        ctx.count("collections_checked", r.made)
        done[name] = r
        ctx.sample(f"{m.short}: {r.visits} visits, {r.kept} kept, {r.made} collections checked")
    ctx.need(done["save"].made or ctx.findings, "the saved lock")
    ctx.need(done["update_lock"].made or ctx.findings, "the updated lock")
    g = p.funcs.get("pkm.utils.iterators.groupby")
    if g is not None:
        eng = Engine(Grouping(ctx, g))
        eng.run(g, False)
        ctx.analysed(eng)
    ctx.at_least("visits_of_a_lock", 2)
    ctx.at_least("recorded_versions", 1)
