"""N02: typestate of a registered fetch.  A promise that is put into a table of fetches in progress must, on every way
out of the operation (return, error, interruption), have been completed or failed and taken out of the table again.
Waiting on the registered promise of another thread must not happen while the lock of the table is held."""
from ..common import *

CLIENT = "pkm.utils.http.http_client.HttpClient"


class FetchRule(Rule):
    interesting = {"complete", "fail", "pop", "result", "promise", "clear"}
    base_exceptions = True
    max_states = 40
    fact_names = {"_fetch_inprogress"}

    def __init__(self, ctx, slf, entry):
        self.ctx, self.slf, self.entry = ctx, slf, entry
        self.registered = self.removed = self.completed = 0

    # ps: (table, key, promise term, in table?, completed?, locks held)
    def start(self):
        return (None, None, None, False, False, frozenset())

    def opaque(self, f):
        return f.cls is not None and (f.cls.name in ("Deferred", "FetchedResource", "FetchInfoConfig", "Url", "CacheDirective")
                                      or "Promise" in f.cls.name) or in_modules(f, "pkm.config", "pkm.utils.monitors") or \
            f.name in ("_request", "_resource_files_of", "_add_standard_headers")

    def is_lock(self, term, eng, st):
        ty = eng.type_of(term, st)
        return bool(ty and (ty[0] == "ext" and "ock" in str(ty[1]) or "ock" in str(ty))) or \
            term[0] == "a" and "lock" in term[2].lower()

    def on_with(self, node, fr, term, st, eng):
        if self.is_lock(term, eng, st):
            s = st.with_ps(st.ps[:5] + (st.ps[5] | {term},))
            return s, (lambda kind, x: x.with_ps(x.ps[:5] + (x.ps[5] - {term},))), term
        return None

    def is_promise(self, v, st, eng):
        if v is None:
            return False
        ty = eng.type_of(v, st)
        return call_name(v) == "promise" or bool(ty and ty[0] == "cls" and "Promise" in ty[1] and v[0] in ("call", "new"))

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        ps = st.ps
        if kind == "sub" and base[0] == "a" and base[1] == self.slf and self.is_promise(value, st, eng):
            self.registered += 1
            if not ps[5]:
                self.ctx.finding("unlocked-registration", self.entry, "a fetch is registered without holding the lock of the table",
                                 f"{fr.func.module.rel}:{node.lineno}")
            return st.with_ps((base, key, value, True, ps[4] if ps[2] == value else False, ps[5]))
        if kind == "delsub" and base == ps[0] and (key == ps[1] or key is None) or kind == "clear" and base == ps[0]:
            self.removed += 1
            return st.with_ps(ps[:3] + (False,) + ps[4:])
        return None

    def on_call(self, c, st, eng):
        ps = st.ps
        if c.name in ("complete", "fail") and c.recv is not None and c.func is not None and c.func.cls is not None and \
                c.func.cls.name == "Deferred":
            self.completed += 1
            if ps[2] is None or mentions(ps[2], c.recv):
                return Take(normal=[(NONE, st.with_ps(ps[:4] + (True,) + ps[5:]))])
            return Take(normal=[(NONE, st)])
        if c.name == "pop" and c.recv is not None and c.recv == ps[0] and c.args and c.args[0] == ps[1] and ps[3]:
            self.removed += 1
            return Take(normal=[(ps[2], st.with_ps(ps[:3] + (False,) + ps[4:]))])
        if c.name == "promise" and c.func is not None:
            return Take(normal=[(c.term(), st)])
        if c.ext is not None and c.ext.endswith("Deferred") or c.name == "Deferred":
            return None
        if c.name == "result" and c.func is not None and c.func.cls is not None and "Promise" in c.func.cls.name:
            if ps[5]:
                self.ctx.finding("wait-under-lock", f"{self.entry}:result",
                                 "waits for a fetch while holding the lock the fetch needs to finish", c.where)
            if ps[2] is not None and c.recv == ps[2] and ps[3] and not ps[4]:
                self.ctx.finding("waits-for-itself", f"{self.entry}:result", "waits for its own fetch before completing it", c.where)
        return None

    def can_raise(self, c):
        if c.func is not None and c.func.cls is not None and c.func.cls.name == "Deferred":
            return False
        return c.name not in ("promise",)


def check(ctx):
    p = program()
    ctx.rule("from the moment a promise is entered into the table of fetches in progress, every way out of the operation "
             "- normal, error or interruption - completes or fails it and removes the entry")
    cls = p.cls(CLIENT)
    ctx.need(cls, CLIENT)
    for name, m in sorted(cls.methods.items()):
        if name.startswith("_"):
            continue
        r = FetchRule(ctx, ("p", m.qual, m.params[0]), m.short)
        eng = Engine(r)
        out = eng.run(m, r.start())
        ctx.analysed(eng)
        ctx.count("operations")
        ctx.count("registrations", r.registered)
        ctx.count("removals", r.removed)
        exits = [("returns", st) for _, st in out.ret] + [("returns", st) for st in out.normal] + \
            [("raises" + (" an interruption" if e[1] == "@Base" else ""), st) for e, st in out.exc]
        for how, st in exits:
            ctx.count("exits_checked")
            if st.ps[0] is None:
                continue
            if not st.ps[4]:
                ctx.finding("never-completed", m.short,
                            f"{m.short} {how} without completing the fetch others may wait for", m.where, st.trace[-3:])
            if st.ps[3]:
                ctx.finding("never-released", m.short,
                            f"{m.short} {how} and leaves its fetch in the table of fetches in progress", m.where, st.trace[-3:])
    ctx.at_least("registrations", 1)
    ctx.at_least("exits_checked", 4)
