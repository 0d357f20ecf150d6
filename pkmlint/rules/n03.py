"""N03: information flow of publishing credentials.  (1) taint: values that a user gives as credentials (password prompts,
authentication arguments of publishers, the store of saved credentials) flow, over parameters, results and attributes of
the whole library, only into the request, into the cipher, and never into output, messages of exceptions, programs or
files; (2) every request that carries them is made to the address the publisher was created with, with redirects turned
off; (3) the http client, when redirects are turned off, never sends a request to another address."""
from ..common import *

PROMPTS = {"ask_password", "password"}
PRINTERS = {"print", "pprint", "warn", "debug", "info", "warning", "error", "critical", "exception", "log"}
PROGRAMS = ("subprocess.", "os.system", "os.exec", "os.spawn", "os.putenv")
WRITERS = {"write", "writelines", "write_text", "write_bytes", "dump", "save", "setenv"}
CLEAN = {"encrypt", "len", "bool", "isinstance", "keys", "type", "id", "hash", "PBKDF2HMAC", "Fernet"}
OUTPUT = ("pkm_cli.display",)
CONVERT = "pkm.config.toml."      # text <-> data


def modules(p):
    return [f for f in p.funcs.values() if f.module.name.split(".")[0] in LIBRARY or in_modules(f, "pkm_cli")]


class Flow:
    """what is known to carry credentials, for the whole program"""

    def __init__(self):
        self.params = set()      # ("p", function, name)
        self.returns = set()     # functions
        self.attrs = set()       # (class, attribute)
        self.given = set()       # parameters that hold authentication arguments (also followed to where they come from)
        self.changed = False

    def add(self, where, x):
        if x not in where:
            where.add(x)
            self.changed = True


class TaintRule(Rule):
    max_states = 8
    term_depth = 18

    def __init__(self, ctx, flow, entry, p, report):
        self.ctx, self.flow, self.entry, self.p, self.report = ctx, flow, entry, p, report
        self.sinks = 0
        self.requests = []
        self.conts = set()       # containers that held credentials when they were handed to something

    def opaque(self, f):
        return f is not self.entry

    def force_inline(self, f):
        return False

    def can_raise(self, c):
        return False

    def secret(self, t, st, eng, seen=()):
        """t carries a credential"""
        if not isinstance(t, tuple) or not t or t in seen:
            return False
        k = t[0]
        if k == "p":
            return t in self.flow.params
        if k in ("c", "g", "unk", "clos"):
            return False
        if t in self.conts:
            return True
        if k == "cont" or k == "new":
            recs = st.heap.get(t)
            if isinstance(recs, frozenset) and any(self.secret(el, st, eng, seen + (t,)) for el, _ in recs):
                return True
            return any(key[0] == "fld" and key[1] == t and isinstance(v, tuple) and self.secret(v, st, eng, seen + (t,))
                       for key, v in st.heap.items() if isinstance(key, tuple) and len(key) == 3)
        if k == "kv":
            return self.secret(t[2], st, eng, seen)
        if k == "a":
            ty = eng.type_of(t[1], st)
            if ty and ty[0] == "cls" and any((c, t[2]) in self.flow.attrs for c in self.family(ty[1])):
                return True
            if ty and ty[0] == "cls" and ty[1] in self.p.classes:
                return self.holds(t[1], st) and self.secret(t[1], st, eng, seen)
            return self.secret(t[1], st, eng, seen)
        if k == "op" and t[1] in ("==", "!=", "in", "not in", "is", "is not", "<", ">", "not"):
            return False
        if k == "call":
            n = call_name(t)
            if n in CLEAN:
                return False
            if n in PROMPTS:
                return True
            if t[1][0] == "f" and not t[1][1].startswith(CONVERT):
                if t[1][1] in self.flow.returns:
                    return True
                f = self.p.funcs.get(t[1][1])
                if f is not None and f.name != "__init__":
                    return False
            if t[1][0] == "x" and t[1][1] in self.p.classes:
                return False
            ops = ([t[2]] if t[2] is not None else []) + list(t[3]) + [v for _, v in t[4]]
            return any(self.secret(x, st, eng, seen) for x in ops)
        return any(self.secret(x, st, eng, seen) for x in t if isinstance(x, tuple))

    def holds(self, t, st):
        return t[0] in ("cont",)

    def family(self, q):
        c = self.p.classes.get(q)
        return [k.qual for k in self.p.mro(c)] if c else [q]

    def leak(self, what, construct, c_where, term, st):
        if self.report:
            self.ctx.finding("credential-leaves", construct, f"{what}: {show(term, 4)}", c_where, st.trace[-3:])

    def on_call(self, c, st, eng):
        args = c.all_args()
        tainted = [a for a in args if self.secret(a[1] if a[0] == "star" else a, st, eng)]
        self.conts.update(a for a in tainted if a[0] == "cont")
        # where the arguments go
        if c.func is not None or c.cls is not None or c.clos is not None or c.impls:
            self.bind(c, st, eng)
        self.sinks += 1
        if not tainted:
            if c.name in WRITERS and c.recv is not None and c.func is not None and self.saved(c, st, eng):
                self.leak(f"{c.fr.func.short} saves an object that holds credentials", f"{c.fr.func.short}:{c.name}", c.where, c.recv, st)
            return self.result(c, st)
        own = c.func is not None or c.cls is not None
        if c.cls is not None and any(b.rsplit(".", 1)[-1].endswith(("Exception", "Error")) for k in self.p.mro(c.cls) for b in [k.name] + [str(x) for x in k.bases]):
            self.leak(f"{c.fr.func.short} puts credentials in an error message", f"{c.fr.func.short}:raise", c.where, tainted[0], st)
        if c.name in PRINTERS and not (own and not in_modules(c.func, *OUTPUT) if c.func is not None else own) or \
                c.func is not None and in_modules(c.func, *OUTPUT) and c.name not in PROMPTS:
            self.leak(f"{c.fr.func.short} prints credentials", f"{c.fr.func.short}:{c.name}", c.where, tainted[0], st)
        elif c.ext and c.ext.startswith(PROGRAMS) or c.name == "monitored_run":
            self.leak(f"{c.fr.func.short} gives credentials to a program", f"{c.fr.func.short}:{c.name}", c.where, tainted[0], st)
        elif c.func is None and (c.name in WRITERS or c.name == "post" and c.ext):
            self.leak(f"{c.fr.func.short} writes credentials that are not encrypted", f"{c.fr.func.short}:{c.name}", c.where, tainted[0], st)
        return self.result(c, st)

    def saved(self, c, st, eng):
        return c.name == "save" and self.secret(c.recv, st, eng)

    def result(self, c, st):
        if c.func is not None and not c.func.is_property and not c.func.is_contextmanager:
            return None
        return None

    def bind(self, c, st, eng):
        f, fields = c.func, None
        if f is None and c.cls is not None:
            f = self.p.find_method(c.cls, "__init__")
            if f is None and c.cls.is_dataclass and not c.cls.qual.startswith(CONVERT):
                fields = list(c.cls.fields)
        targets = [f] if f is not None else []
        if f is not None and f.cls is not None and c.recv is not None:
            targets += [i for i in self.p.implementations(f.cls, f.name) if i is not f]
        targets += [i for i in c.impls if i not in targets]
        if c.clos is not None:
            targets.append(eng.closures[c.clos][0])
        if fields is not None:
            for i, a in enumerate(c.args):
                if self.secret(a, st, eng) and i < len(fields):
                    self.flow.add(self.flow.attrs, (c.cls.qual, fields[i]))
            for k, a in c.kwargs.items():
                if self.secret(a, st, eng):
                    for n in (fields if k == "**" else [k]):
                        self.flow.add(self.flow.attrs, (c.cls.qual, n))
            return
        for g in targets:
            if g.qual.startswith(CONVERT):
                continue
            params = [x for x in g.params]
            if params and params[0] in ("self", "cls") and (g.cls is not None and not g.is_static):
                params = params[1:]
            for i, a in enumerate(c.args):
                if self.secret(a[1] if a[0] == "star" else a, st, eng) and i < len(params):
                    for n in (params[i:] if a[0] == "star" else [params[i]]):
                        self.flow.add(self.flow.params, ("p", g.qual, n))
                if i < len(params) and ("p", g.qual, params[i]) in self.flow.given:
                    self.given_by(a, st)
            for k, a in c.kwargs.items():
                if self.secret(a, st, eng):
                    for n in (params if k == "**" else [k]):
                        self.flow.add(self.flow.params, ("p", g.qual, n))
                if ("p", g.qual, k) in self.flow.given:
                    self.given_by(a, st)

    def given_by(self, t, st, depth=0):
        """the parameters whose content is handed on as authentication arguments"""
        if depth > 6:
            return
        if t[0] == "p" and t[1] == self.entry.qual and t[2] not in ("self", "cls"):
            self.flow.add(self.flow.given, t)
            self.flow.add(self.flow.params, t)
        elif t[0] == "cont":
            recs = st.heap.get(t)
            for el, _ in recs if isinstance(recs, frozenset) else ():
                self.given_by(el[2] if el[0] == "kv" else el, st, depth + 1)
        elif t[0] == "call" and call_name(t) in ("get", "copy", "dict", "items", "values"):
            self.given_by(t[2] if t[2] is not None else t[3][0] if t[3] else NONE, st, depth + 1)
        elif t[0] in ("s", "elem", "other"):
            self.given_by(t[1], st, depth + 1)
        elif t[0] == "phi":
            for x in t[1]:
                self.given_by(x, st, depth + 1)
        elif t[0] == "or" or t[0] == "op" and t[1] in ("or", "and", "ifexp", "|"):
            for x in t[1:]:
                if isinstance(x, tuple):
                    self.given_by(x, st, depth + 1)

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        if not self.secret(value, st, eng):
            return None
        if kind == "attr":
            ty = eng.type_of(base, st)
            if ty and ty[0] == "cls":
                self.flow.add(self.flow.attrs, (ty[1], key))
        elif kind == "sub":
            if base[0] == "a":
                ty = eng.type_of(base[1], st)
                if ty and ty[0] == "cls":
                    self.flow.add(self.flow.attrs, (ty[1], base[2]))
            elif base[0] == "p":
                self.flow.add(self.flow.params, base)
            elif base == ("g", "os.environ"):
                self.leak("credentials are put in the environment of every program", fr.func.short, f"{fr.func.module.rel}:{node.lineno}", value, st)
        elif kind == "global":
            self.leak("credentials are kept in a global", fr.func.short, f"{fr.func.module.rel}:{node.lineno}", value, st)
        return None

    def on_raise(self, exc, st, node, fr, eng):
        if exc and exc[0] == "exc" and len(exc) > 2 and isinstance(exc[2], tuple) and self.exc_secret(exc[2], st, eng):
            self.leak(f"{fr.func.short} puts credentials in an error message", f"{fr.func.short}:raise", f"{fr.func.module.rel}:{node.lineno}", exc[2], st)
        return None

    def exc_secret(self, t, st, eng):
        if t[0] == "call":
            return any(self.secret(x, st, eng) for x in list(t[3]) + [v for _, v in t[4]])
        return False


class RequestRule(TaintRule):
    """requests that carry credentials"""

    def on_call(self, c, st, eng):
        if c.func is not None and c.func.cls is not None and c.func.cls.name == "HttpClient" and self.entry.cls is not c.func.cls:
            carried = [a for a in c.all_args() if self.secret(a, st, eng)]
            if carried:
                self.requests.append((c, st))
        return None


class RedirectRule(Rule):
    """the addresses that a request with redirects turned off is sent to"""
    max_states = 16
    yield_raises = True
    fold_counters = True

    def __init__(self, ctx, entry, url, senders):
        self.ctx, self.entry, self.url, self.senders = ctx, entry, url, senders
        self.sent = self.to_url = 0

    def opaque(self, f):
        return f is not self.entry and not (f.cls is self.entry.cls and f.name.startswith("_") and f not in self.senders)

    # ps: (responses received, iterations of a counted loop, a new address was made); numbers up to 3
    def start(self):
        return (0, 0, False)

    def delegated(self, c, st):
        names = [x for x in c.func.params if x != "self"] + list(c.func.kwonly)
        for n in names:
            if "url" in n and "redirect" not in n:
                to = c.arg(names.index(n), n)
                if to is not None and call_name(to) == "parse" and to[3]:
                    to = to[3][0]
                if to == self.url:
                    self.to_url += 1
        at = names.index("max_redirects") if "max_redirects" in c.func.params else None
        if c.arg(at, "max_redirects") != const(0):
            self.ctx.finding("credential-redirected", f"{self.entry.short}:{c.name}", f"{self.entry.short} does not hand on that redirects are turned off",
                             c.where, st.trace[-3:])

    def on_call(self, c, st, eng):
        if c.func is not None and c.func is not self.entry and c.func in self.senders:
            self.delegated(c, st)
            return None
        if c.name == "connection_for":
            to = c.args[-1] if c.args else None
            if to is not None and call_name(to) == "parse" and to[3]:
                to = to[3][0]
            if to != self.url:
                return Take(normal=[(("call", ("x", "n03.elsewhere"), None, (to or NONE,), ()), st)])
            self.to_url += 1
            return Take(normal=[(("call", ("x", "n03.origin"), None, (to,), ()), st)])
        if c.name in ("request", "putrequest", "putheader", "endheaders") and c.func is None and c.recv is not None:
            self.sent += 1
            if any(call_name(x) == "elsewhere" for x in subterms(c.recv)):
                self.ctx.finding("credential-redirected", f"{self.entry.short}:{c.name}", f"{self.entry.short} sends the headers to a redirect target although "
                                 "redirects are turned off", c.where, st.trace[-3:])
        if c.name == "getresponse" and c.func is None:
            ps = (min(st.ps[0] + 1, 3),) + st.ps[1:]
            return Take(normal=[(c.term(), st.with_ps(ps, f"{c.loc}: response"))], raises=[(("exc", None, None), st)])
        if c.name in ("replace", "_replace", "urljoin") or c.cls is not None and c.cls.name == "Url" or \
                c.func is not None and c.func.cls is not None and c.func.cls.name == "Url" and c.func.is_classmethod:
            return Take(normal=[(c.term(), st.with_ps(st.ps[:2] + (True,)))])
        return None

    def on_iter(self, it, el, st, node, fr, eng):
        if call_name(it) == "range" and it[2] is None and 1 <= len(it[3]) <= 2:
            ends = [number(x) for x in it[3]]
            if None not in ends:
                if st.ps[1] >= min(3, ends[-1] - (ends[0] if len(ends) == 2 else 0)):
                    return DEAD
                return st.with_ps((st.ps[0], st.ps[1] + 1, st.ps[2]))
        return None

    def can_raise(self, c):
        return c.name in ("request", "getresponse")


def number(t):
    if t[0] == "c" and type(t[2]) is int:
        return t[2]
    if t[0] == "op" and t[1] in ("+", "-") and len(t) == 4:
        a, b = number(t[2]), number(t[3])
        return None if a is None or b is None else a + b if t[1] == "+" else a - b
    return None


def check(ctx):
    p = program()
    ctx.rule("credentials (prompts for passwords, authentication arguments, the store) flow only into requests and the cipher, over all "
             "parameters, results and attributes; not into output, messages, programs or unencrypted files")
    ctx.rule("a request with credentials goes to the publisher's own address with redirects turned off")
    ctx.rule("with redirects turned off the http client sends nothing to another address")
    flow = Flow()
    pub = p.cls("RepositoryPublisher")
    ctx.need(pub and pub.methods.get("publish"), "RepositoryPublisher.publish")
    auth = [x for x in pub.methods["publish"].params if x != "self"][0]
    for f in p.implementations(pub, "publish"):
        for where in (flow.params, flow.given):
            flow.add(where, ("p", f.qual, [x for x in f.params if x != "self"][0]))
    for c in p.classes.values():
        if c.module.name == "pkm.utils.http.auth":
            for x in c.fields:
                flow.add(flow.attrs, (c.qual, x))
        elif "Authentication" in c.name and in_modules(next(iter(c.methods.values()), None), "pkm_cli.auth") if c.methods else False:
            for m in c.methods.values():
                for x in m.params:
                    if x in ("password", "args", "auth_args"):
                        flow.add(flow.params, ("p", m.qual, x))
    fs = [f for f in modules(p)]
    interesting = relevant(p, fs, flow, auth)
    for rnd in range(8):
        flow.changed = False
        for f in interesting:
            r = TaintRule(ctx, flow, f, p, False)
            eng = Engine(r)
            out = eng.run(f, None)
            if any(r.secret(t, st, eng) for t, st in out.ret) and f.name != "__init__":
                flow.add(flow.returns, f.qual)
        new = [p.funcs[x[1]] for x in flow.params if p.funcs.get(x[1]) is not None and p.funcs[x[1]] not in interesting]
        for q in flow.returns | {x[1] for x in flow.params}:
            for g in callers(p, fs, q):
                if g not in interesting and g not in new:
                    new.append(g)
        owners = {a for a in flow.attrs}
        for f in fs:
            if f not in interesting and f not in new and any(isinstance(n, ast.Attribute) and any(n.attr == a and (
                    f.cls is not None and c in [k.qual for k in p.mro(f.cls)]) for c, a in owners) for n in walk_own(f.node)):
                new.append(f)
        interesting += new
        if not flow.changed and not new:
            break
    for f in interesting:
        r = TaintRule(ctx, flow, f, p, True)
        eng = Engine(r)
        eng.run(f, None)
        ctx.analysed(eng)
        ctx.count("calls_judged", r.sinks)
        q = RequestRule(ctx, flow, f, p, False)
        eng = Engine(q)
        eng.run(f, None)
        for c, st in q.requests:
            ctx.count("requests_with_credentials")
            r0 = c.kwargs.get("max_redirects")
            if r0 != const(0):
                ctx.finding("redirects-allowed", f"{f.short}:{c.name}", f"{f.short} sends credentials with redirects allowed", c.where)
            url = c.arg(0, "url")
            if url is None or not own_address(url, f):
                ctx.finding("other-address", f"{f.short}:{c.name}", f"{f.short} sends credentials to {show(url, 4) if url else '?'}, "
                            "which is not the address the publisher was made with", c.where)
    ctx.count("functions_with_credentials", len(interesting))
    ctx.count("credential_parameters", len(flow.params))
    ctx.count("credential_attributes", len(flow.attrs))
    for x in sorted(flow.params)[:12]:
        ctx.sample(f"credentials reach parameter {x[2]} of {x[1].split('pkm', 1)[-1]}")
    client = p.cls("HttpClient")
    ctx.need(client, "HttpClient")
    senders = [m for m in client.methods.values() if "max_redirects" in {x.arg for x in ast.walk(m.node.args) if isinstance(x, ast.arg)}
               and any("url" in x for x in m.params)]
    ctx.need(senders, "the function of the http client that sends requests")
    for m in senders:
        url = next((x for x in m.params if "url" in x), None)
        term = ("p", m.qual, url)
        r = RedirectRule(ctx, m, term, senders)
        eng = Engine(r)
        eng.run(m, r.start(), args={"max_redirects": const(0)})
        ctx.analysed(eng)
        ctx.count("sends_judged", r.sent)
        if not r.to_url:
            ctx.finding("credential-redirected", m.short, f"{m.short} does not connect to the address it is given", m.where)
    ctx.at_least("requests_with_credentials", 1)
    ctx.at_least("sends_judged", 1)


def own_address(url, f):
    """made of attributes of the publisher and constants only"""
    has = False
    for x in subterms(url):
        if x[0] == "a" and x[1] == ("p", f.qual, "self"):
            has = True
        elif x[0] == "p" and x != ("p", f.qual, "self") or x[0] in ("elem", "other", "unk"):
            return False
        elif x[0] == "call" and call_name(x) not in ("rstrip", "strip", "format", "str", "lower", "removesuffix", "endswith"):
            return False
    return has


def relevant(p, fs, flow, auth):
    out = []
    quals = {x[1] for x in flow.params}
    for f in fs:
        if f.qual in quals or in_modules(f, "pkm_cli.auth", "pkm.utils.http.auth"):
            out.append(f)
            continue
        for n in walk_own(f.node):
            if isinstance(n, ast.Attribute) and n.attr in PROMPTS and isinstance(getattr(n, "_parent", None), ast.Call) and \
                    not in_modules(f, "pkm_cli.api.templates", "pkm_cli.display") or \
                    isinstance(n, (ast.Name, ast.Attribute)) and getattr(n, "id", getattr(n, "attr", "")) in ("BasicAuthentication", "PublishAuthenticationStore"):
                out.append(f)
                break
    return out


def callers(p, fs, q):
    f = p.funcs.get(q)
    if f is None:
        return []
    ti = types()
    out = []
    for g in fs:
        for n in walk_own(g.node):
            if isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) and n.func.attr == f.name or
                                            isinstance(n.func, ast.Name) and n.func.id == f.name) and ti.static_callee(n, g) is f:
                out.append(g)
                break
    return out
