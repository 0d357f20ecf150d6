"""C04: typestate of a pooled connection in the functions that take one: idle -> request sent -> response read to its end
-> idle again.  However the request ends, the connection is given back or closed, and it is given back open only when it
is idle; afterwards the request does not touch it.  The pool itself is checked path by path: a connection that is handed
out is not in the pool any more, one that is given back is kept once or closed, and its user loses it."""
from ..common import *

CONN = ("call", ("x", "c04.connection"), None, (), ())
RESP = ("call", ("x", "c04.response"), None, (), ())
SEND = {"request", "putrequest", "putheader", "endheaders", "send", "connect"}
NET = "pkm.utils.http"


class Pool:
    """the pool, found by what it does: one method takes a connection out of a container attribute, one puts it there"""

    def __init__(self, p):
        self.p = p
        self.cls = self.acquire = self.release = self.attr = None
        for c in p.classes.values():
            if not c.module.name.startswith(NET):
                continue
            for m in c.methods.values():
                for a in self.attrs(m, ("pop", "popleft")):
                    for m2 in c.methods.values():
                        if a in self.attrs(m2, ("append", "appendleft", "add")) and len(m2.params) == 2:
                            self.cls, self.acquire, self.release, self.attr = c, m, m2, a
        self.acquirers = {self.acquire}
        self.proxy = None
        if self.acquire is None:
            return
        for n in ast.walk(self.acquire.node):
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
                q = resolve_name(self.acquire, n.func)
                k = p.classes.get(q) or next((x for x in p.classes.values() if x.module is self.cls.module and x.name == getattr(n.func, "id", None)), None)
                if k is not None and any(self.releases(m) for m in k.methods.values()):
                    self.proxy = k
        fs = [f for f in p.funcs.values() if f.module.name.startswith(NET)]
        changed = True
        while changed:
            changed = False
            for f in fs:
                if f not in self.acquirers and any(isinstance(n, ast.Return) and n.value is not None and self.takes(n.value) for n in walk_own(f.node)):
                    self.acquirers.add(f)
                    changed = True
        self.users = [f for f in p.funcs.values() if f not in self.acquirers and any(self.takes(s) for s in f.body if not isinstance(s, (ast.FunctionDef,)))
                      and f.module.name.split(".")[0] in LIBRARY]

    def attrs(self, m, names):
        return {n.func.value.attr for n in ast.walk(m.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in names
                and isinstance(n.func.value, ast.Attribute) and isinstance(n.func.value.value, ast.Name) and n.func.value.value.id == "self"}

    def releases(self, m):
        return any(isinstance(n, ast.Attribute) and n.attr == self.release.name for n in ast.walk(m.node))

    def takes(self, node):
        names = {f.name for f in self.acquirers}
        todo = [node]
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                continue
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in names and not self.lock(n.func.value):
                return True
            todo.extend(ast.iter_child_nodes(n))
        return False

    def lock(self, v):
        return "lock" in ast.dump(v).lower() or "sem" in ast.dump(v).lower()


class ConnRule(Rule):
    """ps: (phase, response open, delivered, error of the user)"""
    max_states = 40
    max_depth = 8
    fold_counters = False

    def __init__(self, ctx, pool, entry, discards, wrappers):
        self.ctx, self.pool, self.entry, self.discards, self.wrappers = ctx, pool, entry, discards, wrappers
        self.taken = self.released = self.sent = 0
        self.gives_out = False

    def start(self):
        return ("-", False, False, False)

    def opaque(self, f):
        return f is not self.entry and not self.force_inline(f)

    def force_inline(self, f):
        return f in self.wrappers or f.parent is self.entry or f.cls is not None and f.cls is self.entry.cls and f.name.startswith("_") and \
            f not in self.pool.acquirers and f.name != "__init__"

    def can_raise(self, c):
        return True

    def fail(self, kind, what, where, st, construct=None):
        self.ctx.finding(kind, construct or self.entry.short, what, where, st.trace[-4:])

    def give_back(self, st, where):
        ph, opened, d, t = st.ps
        if ph == "-":
            return st
        self.released += 1
        if ph == "busy":
            self.fail("returned-in-use", f"{self.entry.short} gives the connection back open although the response of a request on it was not read to its end",
                      where, st)
        return st.with_ps(("-", False, d, t), f"{where}: given back")

    def on_call(self, c, st, eng):
        ph, opened, d, t = st.ps
        if c.func is not None and c.func in self.pool.acquirers and c.func is not self.entry or \
                c.func is None and c.name in {f.name for f in self.pool.acquirers if f is not self.pool.acquire} and c.recv is not None:
            self.taken += 1
            if ph != "-":
                self.fail("not-given-back", f"{self.entry.short} takes another connection without giving back the one it has", c.where, st)
            if t:
                self.fail("error-swallowed", f"{self.entry.short} takes an error of the code that uses the response for a failed connection", c.where, st)
            return Take(normal=[(CONN, st.with_ps(("idle", False, d, t), f"{c.loc}: connection taken"))], raises=[(("exc", None, None), st)])
        if c.recv == CONN:
            if ph == "-":
                self.fail("used-after-return", f"{self.entry.short} uses the connection after giving it back", c.where, st)
                return Take(normal=[(c.term(), st)])
            if c.name in SEND:
                self.sent += 1
                if ph == "busy":
                    self.fail("used-while-busy", f"{self.entry.short} sends a request on a connection whose last response was not read to its end", c.where, st)
                s = st.with_ps(("busy", False, d, t), f"{c.loc}: request sent")
                return Take(normal=[(NONE, s)], raises=[(("exc", None, None), s)])
            if c.name == "getresponse":
                return Take(normal=[(RESP, st.with_ps((ph, True, d, t), f"{c.loc}: response"))], raises=[(("exc", None, None), st)])
            if c.name in self.discards:
                closes, gives = self.discards[c.name]
                s = st.with_ps(("idle", False, d, t), f"{c.loc}: connection closed") if closes else st
                return Take(normal=[(NONE, self.give_back(s, c.where) if gives else s)])
            if c.name == "close":
                return Take(normal=[(NONE, st.with_ps(("-", False, d, t), f"{c.loc}: connection closed"))])
        if c.func is not None and c.func is self.pool.release and c.args and c.args[0] == CONN:
            return Take(normal=[(NONE, self.give_back(st, c.where))])
        if c.recv == RESP or c.name in ("isclosed", "read") and c.recv is not None and mentions(c.recv, RESP):
            if c.name == "isclosed":
                if not opened:
                    return Take(normal=[(TRUE, st)])
                return Take(normal=[(TRUE, st.with_ps(("idle", opened, d, t), f"{c.loc}: response read to its end")), (FALSE, st)])
            if c.name == "read" and not c.args and not c.kwargs and c.recv == RESP:
                return Take(normal=[(c.term(), st.with_ps(("idle" if opened else ph, opened, d, t), f"{c.loc}: response read to its end"))],
                            raises=[(("exc", None, None), st)])
            if c.name == "close":
                return Take(normal=[(NONE, st.with_ps((ph, False, d, t)))])
            if c.name in ("getheader", "getheaders", "get"):
                return Take(normal=[(c.term(), st)])
        return None

    def on_load(self, base, key, st, node, fr, eng):
        if base == RESP and key == "closed" and st.ps[1]:
            return None
        return None

    def on_with(self, node, fr, term, st, eng):
        if term == CONN:
            where = f"{fr.func.module.rel}:{node.lineno} in {fr.func.short}"
            return st, lambda kind, s: self.give_back(s, where), CONN
        if term == RESP:
            return st, lambda kind, s: s.with_ps((s.ps[0], False) + s.ps[2:]), RESP
        return None

    def on_suspend(self, value, st, eng):
        ph, opened, d, t = st.ps
        if value == CONN:
            self.gives_out = True
            return Take(normal=[(NONE, st)], raises=[])
        if d:
            self.fail("delivered-twice", f"{self.entry.short} hands out a second response to the same user", self.entry.where, st)
        s = st.with_ps((ph, opened, True, t), "response handed out")
        e = st.with_ps((ph, opened, True, True), "response handed out, its user fails")
        return Take(normal=[(NONE, s)], raises=[(("exc", None, None), e), (("exc", "@Base", None), e)])


class ProxyRule(Rule):
    """ps: (underlying connection closed, given back, reference dropped, nothing held)"""
    max_states = 12

    def __init__(self, pool, m):
        self.pool, self.m = pool, m
        self.slf = ("p", m.qual, m.params[0])

    def opaque(self, f):
        return not (f.cls is self.m.cls and f is not self.m and f.name != "__getattr__")

    def force_inline(self, f):
        return f.cls is self.m.cls and f.name != "__getattr__"

    def can_raise(self, c):
        return False

    def on_call(self, c, st, eng):
        if c.func is self.pool.release or c.name == self.pool.release.name:
            dropped = isinstance(st.ps[2], tuple) and c.args[0] == ("a", self.slf, st.ps[2][1])
            return Take(normal=[(NONE, st.with_ps((st.ps[0], c.args[0], dropped)))])
        if c.name == "close" and c.recv is not None and c.recv[0] == "a" and c.recv[1] == self.slf:
            return Take(normal=[(NONE, st.with_ps((True,) + st.ps[1:]))])
        return None

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        if kind in ("attr", "delattr") and base == self.slf and (value == NONE or kind == "delattr"):
            if st.ps[1] is not None and st.ps[1] == ("a", self.slf, key):
                return st.with_ps(st.ps[:2] + (True,))
            if st.ps[1] is None:
                return st.with_ps(st.ps[:2] + (("dropped", key),))
        return None


class PoolRule(Rule):
    """ps: (what happened to the connection that is given back)"""
    max_states = 16
    keep_all_facts = True

    def __init__(self, pool, m, conn):
        self.pool, self.m, self.conn = pool, m, conn
        self.slf = ("p", m.qual, m.params[0])

    def can_raise(self, c):
        return False

    def opaque(self, f):
        return f is not self.m and f.cls is not self.m.cls

    def on_call(self, c, st, eng):
        if c.name in ("append", "appendleft", "add") and self.conn in c.args:
            return Take(normal=[(NONE, st.with_ps(st.ps + ("kept",)))])
        if c.name == "close" and c.recv == self.conn:
            return Take(normal=[(NONE, st.with_ps(st.ps + ("closed",)))])
        return None


def check(ctx):
    p = program()
    ctx.rule("a function that takes a pooled connection gives it back or closes it on every way out, open only when no request was sent on "
             "it or the last response was read to its end, and does not use it afterwards")
    ctx.rule("a response is handed out once, and an error of its user is passed on")
    ctx.rule("a connection that is given back is kept once or closed, and its user drops its reference")
    pool = Pool(p)
    ctx.need(pool.acquire, "the pool of connections (a class that pops from and appends to the same attribute)")
    discards = {}
    if pool.proxy is not None:
        for m in pool.proxy.methods.values():
            if m.name in ("__init__", "__getattr__") or not m.params:
                continue
            r = ProxyRule(pool, m)
            eng = Engine(r)
            out = eng.run(m, (False, None, False))
            ctx.analysed(eng)
            ctx.count("proxy_methods")
            ends = [st for _, st in out.ret] + list(out.normal)
            active = [st for st in ends if st.ps != (False, None, False)]
            for st in active:
                if st.ps[1] is not None and st.ps[2] is not True:
                    ctx.finding("kept-after-return", m.short, f"{m.short} gives the connection back and keeps using it", m.where, st.trace[-3:])
            if active:
                # paths on which nothing happened: no connection is held
                discards[m.name] = (all(st.ps[0] for st in active), all(st.ps[1] is not None for st in active))
    conn = ("p", pool.release.qual, pool.release.params[1])
    r = PoolRule(pool, pool.release, conn)
    eng = Engine(r)
    out = eng.run(pool.release, ())
    ctx.analysed(eng)
    for st in [s for _, s in out.ret] + list(out.normal):
        ctx.count("ways_of_giving_back")
        inside = next((pol for lit, (pol, _) in st.facts.items() if lit[0] == "in" and lit[1] == conn), None)
        if not st.ps and inside is not True:
            ctx.finding("connection-lost", pool.release.short, f"{pool.release.short} neither keeps nor closes the connection", pool.release.where, st.trace[-3:])
        if "kept" in st.ps and (len(st.ps) > 1 or inside is not False and pool.proxy is None):
            ctx.finding("kept-twice", pool.release.short, f"{pool.release.short} keeps a connection that is closed or already there", pool.release.where,
                        st.trace[-3:])
    fs = [f for f in p.funcs.values() if f.module.name.split(".")[0] in LIBRARY]
    todo, wrappers, done = list(pool.users), set(), set()
    while todo:
        f = todo.pop()
        if f.qual in done:
            continue
        done.add(f.qual)
        r = ConnRule(ctx, pool, f, discards, wrappers)
        mark = len(ctx.findings)
        eng = Engine(r)
        out = eng.run(f, r.start())
        ctx.analysed(eng)
        if r.gives_out:       # judged where it is used
            del ctx.findings[mark:]
            wrappers.add(f)
            todo += [g for g in fs if g is not f and any(isinstance(n, ast.Attribute) and n.attr == f.name for n in walk_own(g.node))]
            continue
        ctx.count("functions_using_connections")
        ctx.count("connections_taken", r.taken)
        ctx.count("requests_sent", r.sent)
        ctx.count("connections_given_back", r.released)
        ends = [("returns", st) for _, st in out.ret] + [("returns", st) for st in out.normal] + [("fails", st) for _, st in out.exc]
        for how, st in ends:
            ctx.count("exits_checked")
            if st.ps[0] != "-":
                ctx.finding("not-given-back", f.short, f"{f.short} {how} without giving back the connection", f.where, st.trace[-3:])
            if how == "returns" and st.ps[3]:
                ctx.finding("error-swallowed", f.short, f"{f.short} swallows an error of the code that uses the response", f.where, st.trace[-3:])
    ctx.at_least("functions_using_connections", 1)
    ctx.at_least("connections_given_back", 2)
