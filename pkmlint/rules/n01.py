"""N01: typestate of a cached resource (completeness marker, content).  (1) a resource counts as cached only if both its
content and its completeness marker exist; (2) the marker is removed before the content is touched and written only
after the whole body was copied without a remainder; (3) bodies are stored only under the fact that the status is 200;
(4) a fetch returns normally only with content that was cached, or stored by it, or cached and reported unmodified."""
from ..common import *

MOD = "pkm.utils.http.http_client"


def marker_and_data(ctx):
    """names of the two path attributes of the cached resource"""
    p = program()
    cls = p.cls(MOD + ".FetchedResource")
    ctx.need(cls, "FetchedResource")
    return cls, "fetch_info", "data"


class SaveRule(Rule):
    """ps: (marker: may/absent, content: old / partial / copied / complete / deleted, {path: state} of other files)"""
    interesting = {"unlink", "open", "copyfileobj", "write", "save", "write_bytes", "delete", "replace", "rename", "move",
                   "remove", "write_text"}
    keep_all_facts = True
    max_states = 40

    def __init__(self, ctx, slf, marker, data, resp, name):
        self.ctx, self.name = ctx, name
        self.marker, self.data = ("a", slf, marker), ("a", slf, data)
        self.slf, self.resp = slf, resp
        self.opens = self.marks = 0

    def start(self):
        return ("may", "old", frozenset(), None)

    def opaque(self, f):
        return in_modules(f, "pkm.config", "pkm.utils.properties")

    def complete(self, state, st):
        """the whole body was received: nothing is left to read"""
        if state != "copied":
            return state == "complete"
        for l, (pol, _) in st.facts.items():
            if l[0] in ("truthy", "isnone", "eq", "lt") and any(
                    x == ("a", self.resp, "length") or call_name(x) == "getattr" and len(x[3]) > 1 and x[3][1] == const("length") or
                    call_name(x) == "isclosed" and False for y in l[1:] if isinstance(y, tuple) for x in subterms(y)):
                if l[0] == "truthy" and not pol or l[0] == "isnone" and pol:
                    return True
                if l[0] == "eq" and pol and const(0) in l[1:]:
                    return True
                if l[0] == "lt" and not pol and l[1] == const(0):
                    return True
            # or: the number of received bytes was compared with the announced one
            if l[0] == "eq" and pol and any("content-length" in str(consts_in(y)).lower() for y in l[1:]):
                return True
        return False

    def get(self, ps, path):
        if path == self.data:
            return ps[1]
        return dict(ps[2]).get(path)

    def put(self, st, path, state):
        ps = st.ps
        if path == self.data:
            return st.with_ps((ps[0], state, ps[2], ps[3]))
        return st.with_ps((ps[0], ps[1], frozenset((k, v) for k, v in ps[2] if k != path) | {(path, state)}, ps[3]))

    def touch(self, c, st):
        if st.ps[0] != "absent":
            self.ctx.finding("content-replaced-while-marked", self.name,
                             "the cached content is overwritten while its completeness marker still exists: an interrupted "
                             "download leaves partial content that counts as cached", c.where)

    def on_call(self, c, st, eng):
        if st.ps[1] == "copied" and self.complete("copied", st):
            st.ps = (st.ps[0], "complete") + st.ps[2:]     # the fact may not survive the call
        if c.ext == "getattr" and len(c.args) > 1 and c.args[0] == self.resp and c.args[1][0] == "c":
            return Take(normal=[(("a", self.resp, c.args[1][2]), st)])     # http responses have their standard attributes
        ps = st.ps
        if c.func is not None and c.func.cls is not None and c.name == "save" and c.func.cls.name != "FetchedResource":
            # writes the marker
            self.marks += 1
            ok = self.complete(ps[1], st)
            if not ok:
                self.ctx.finding("marked-incomplete", self.name,
                                 "the resource is marked as completely cached " +
                                 ("although the body may have ended early (its remaining length is not checked)"
                                  if ps[1] == "copied" else "before its whole body was stored"), c.where)
            return Take(normal=[(NONE, st.with_ps(("may", "complete", ps[2], ps[3])))],
                        raises=[(("exc", None, None), st.with_ps(("may",) + ps[1:]))])
        n = c.name.split(".")[-1]
        if c.func is not None:
            return None
        if n == "unlink" or c.ext in ("os.remove", "os.unlink"):
            t = c.recv if n == "unlink" and c.recv is not None else (c.args[0] if c.args else None)
            if t == self.marker:
                return Take(normal=[(NONE, st.with_ps(("absent",) + ps[1:]))], raises=[(("exc", None, None), st)])
            if t is not None:
                return Take(normal=[(NONE, self.put(st, t, "deleted"))], raises=[(("exc", None, None), st)])
        if n == "exists" and c.recv == self.marker:
            return Take(normal=[(TRUE, st), (FALSE, st.with_ps(("absent",) + ps[1:]))]) if ps[0] == "may" else \
                Take(normal=[(FALSE, st)])
        w = written_path(c)
        if w is not None and n == "open":
            if w == self.data:
                self.opens += 1
                self.touch(c, st)
            if w == self.marker:
                return None
            s = self.put(st, w, "partial")
            s = s.with_ps(s.ps[:3] + (w,))
            return Take(normal=[(c.term(), s)], raises=[(("exc", None, None), self.put(st, w, "partial"))])
        if n == "copyfileobj" and ps[3] is not None and len(c.args) >= 2:
            return Take(normal=[(NONE, self.put(st, ps[3], "copied"))], raises=[(("exc", None, None), st)])
        if n == "write" and ps[3] is not None and c.args and mentions(c.args[0], self.resp):
            full = call_name(c.args[0]) == "read" and not c.args[0][3] and c.args[0][2] == self.resp
            # a full read raises when bytes are missing
            return Take(normal=[(NONE, self.put(st, ps[3], "complete" if full else "copied"))],
                        raises=[(("exc", None, None), st)])
        if n == "write_bytes" and c.args and mentions(c.args[0], self.resp):
            if c.recv == self.data:
                self.opens += 1
                self.touch(c, st)
            full = call_name(c.args[0]) == "read" and not c.args[0][3]
            return Take(normal=[(NONE, self.put(st, c.recv, "complete" if full else "copied"))],
                        raises=[(("exc", None, None), self.put(st, c.recv, "partial"))])
        if (n in ("replace", "rename") and c.recv is not None and len(c.args) == 1 or
                c.ext in ("os.replace", "os.rename", "shutil.move")) and len(c.args) >= 1:
            src, dst = (c.args[0], c.args[1]) if c.ext else (c.recv, c.args[0])
            state = self.get(ps, src)
            if state is None:
                return None
            if dst == self.data:
                self.opens += 1
                if not self.complete(state, st):
                    self.touch(c, st)
                elif state == "copied":
                    state = "complete"
                # complete content may replace other complete content at once
                return Take(normal=[(NONE, self.put(st, dst, state))], raises=[(("exc", None, None), st)])
            return Take(normal=[(NONE, self.put(st, dst, state))], raises=[(("exc", None, None), st)])
        return None


class ExistsRule(Rule):
    keep_all_facts = True


class FetchRule(Rule):
    """ps: what is known about the content of the resource when the operation returns: None / stored / loop"""
    interesting = {"save", "_request", "exists", "fail", "complete", "result"}
    keep_all_facts = True
    max_states = 60

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry
        self.saves = self.results = 0

    def opaque(self, f):
        return f.cls is not None and (f.cls.name in ("FetchedResource", "FetchInfoConfig", "Url", "CacheDirective", "Deferred")
                                      or "Promise" in f.cls.name) or in_modules(f, "pkm.config", "pkm.utils.monitors") or \
            f.name in ("_request", "_resource_files_of", "_add_standard_headers")

    def can_raise(self, c):
        return False

    def status_fact(self, st, value, pol=True):
        for l, (p, _) in st.facts.items():
            if l[0] == "eq" and p == pol and const(value) in l[1:] and any("status" in attrs_in(x) for x in l[1:]):
                return True
        return False

    def on_call(self, c, st, eng):
        f = c.func
        if f is not None and f.cls is not None and f.cls.name == "FetchedResource" and c.name == "save":
            self.saves += 1
            if not self.status_fact(st, 200):
                self.ctx.finding("stored-without-success", self.entry,
                                 "a response body is stored in the cache although its status is not known to be 200", c.where)
            return Take(normal=[(NONE, st.with_ps("stored"))])
        if f is not None and f.cls is not None and f.cls.name == "Deferred" and c.name == "complete":
            self.verdict(c.args[0] if c.args else NONE, st, c.where)
            return Take(normal=[(NONE, st.with_ps("done"))])
        if f is not None and f.cls is not None and f.cls.name == "Deferred" and c.name == "fail":
            return Take()
        return None

    def verdict(self, val, st, where):
        """the content handed out is complete"""
        if val == NONE:
            return
        self.results += 1
        if st.ps == "stored":
            return
        cached = any(l[0] == "truthy" and p and call_name(l[1]) == "exists" for l, (p, _) in st.facts.items())
        if cached and (self.status_fact(st, 304) or any(
                l[0] == "truthy" and p and call_name(l[1]) == "is_cache_valid" for l, (p, _) in st.facts.items())):
            return
        if self.status_fact(st, 304) and not cached:
            why = "a not-modified answer is accepted without checking that content is cached"
        elif cached:
            why = "cached content is handed out although neither the cache directive nor the server confirmed it"
        else:
            why = "a resource is handed out that was neither cached nor stored"
        self.ctx.finding("unconfirmed-content", self.entry, why, where, st.trace[-3:])


def check(ctx):
    p = program()
    cls, marker, data = marker_and_data(ctx)
    # (1)
    ctx.rule("a resource counts as cached only if content and completeness marker both exist")
    m = cls.methods.get("exists")
    ctx.need(m, "FetchedResource.exists")
    eng = Engine(ExistsRule())
    out = eng.run(m, None)
    slf = ("p", m.qual, m.params[0])
    for t, st in out.ret:
        s2 = eng.assume(st, t, True)
        if s2 is None:
            continue
        ctx.count("exists_true_paths")
        for attr in (marker, data):
            want = ("a", slf, attr)
            if not any(l[0] == "truthy" and pol and call_name(l[1]) in ("exists", "is_file") and
                       (l[1][2] == want or want in l[1][3]) for l, (pol, _) in s2.facts.items()):
                ctx.finding("exists-incomplete", f"FetchedResource.exists:{attr}",
                            f"a resource can count as cached without its {attr.replace('_', ' ')} file", m.where)
    ctx.analysed(eng)
    # (2)
    ctx.rule("the marker is removed before the content is overwritten and written only after the complete body was stored")
    m = cls.methods.get("save")
    ctx.need(m and len(m.params) >= 2, "FetchedResource.save")
    r = SaveRule(ctx, ("p", m.qual, m.params[0]), marker, data, ("p", m.qual, m.params[1]), m.short)
    eng = Engine(r)
    out = eng.run(m, r.start())
    ctx.analysed(eng)
    ctx.count("content_writes", r.opens)
    ctx.count("marker_writes", r.marks)
    ctx.count("save_exits", len(out.exc) + len(out.ret) + len(out.normal))
    for how, st in [("return", s) for _, s in out.ret] + [("return", s) for s in out.normal] + [("error", s) for _, s in out.exc]:
        if st.ps[0] != "absent" and st.ps[1] in ("partial", "copied"):
            ctx.finding("partial-content-marked", m.short, f"on a {how} partial content is left together with a marker", m.where)
    ctx.at_least("content_writes", 1)
    ctx.at_least("marker_writes", 1)
    # (3), (4)
    ctx.rule("bodies are stored only for status 200; what a fetch hands out was stored by it, or is cached and either "
             "accepted by the cache directive or reported unmodified by the server")
    client = p.cls(MOD + ".HttpClient")
    m = client and client.methods.get("fetch_resource")
    ctx.need(m, "HttpClient.fetch_resource")
    r = FetchRule(ctx, m.short)
    eng = Engine(r)
    out = eng.run(m, None)
    ctx.analysed(eng)
    for t, st in out.ret:
        if st.ps != "done" and call_name(t) != "result":
            r.verdict(t, st, m.where)
    ctx.count("stores_checked", r.saves)
    ctx.count("results_checked", r.results)
    ctx.at_least("stores_checked", 1)
    ctx.at_least("results_checked", 2)
    # every other store of a response body
    for f in p.funcs.values():
        if f.cls is client or f.cls is cls:
            continue
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and types().static_callee(n, f) is cls.methods["save"]:
                ctx.finding("stored-without-success", f.short, "a response is stored in the cache outside the fetch", f.where)
