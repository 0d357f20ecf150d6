"""V04: spellings of a package name.  A value analysis over the whole program follows package names as they are spelled (from
metadata, requirements, descriptors), keys made by the normalizing function and names given by a caller, through variables,
containers, fields, parameters and results; a comparison or lookup must be between keys.  The normalizing function itself is
decided from the character mappings it is composed of."""
import re
from ..common import *

DESCRIPTOR = "PackageDescriptor"
KEY_FUNC = "package_name_key"
# fields that hold a name as somebody spelled it
SPELLED = [("Dependency", "package_name"), ("PackageMetadata", "package_name"), (DESCRIPTOR, "name"), ("ProjectConfig", "name"), ("DistInfo", "package_name_by_dirname")]
KEY, GIVEN = "KEY", "GIVEN"
SAME = {"lower", "casefold", "strip", "lstrip", "rstrip", "removeprefix", "removesuffix", "copy", "keys", "__str__", "encode", "decode"}
OTHER = {"replace", "translate", "upper", "title", "capitalize", "swapcase", "partition", "rpartition", "split"}
LOOKUPS = {"get", "pop", "setdefault", "__contains__", "index", "count", "remove", "discard", "__getitem__"}
EMPTY = {}
SILENT = ("pkm_cli.reports", "pkm_cli.main2", "pkm.config", "conda_pkm_repo", "download_torch_pkm_repo")     # display, a module nothing uses, generic readers, other name spaces


def up(kinds, d=1):
    """kinds of a container of these"""
    return {("e",) + k: v for k, v in kinds.items() if len(k) < 3}


class V:
    __slots__ = ("k", "t", "clos", "const")

    def __init__(self, k=None, t=None, clos=None, const=False):
        self.k, self.t, self.clos, self.const = k or {}, t, clos, const

    def at(self, step):
        return {p[1:]: v for p, v in self.k.items() if p[:1] == (step,)}


def merge(a, b):
    if not b:
        return a
    out = dict(a)
    for p, v in b.items():
        out[p] = out.get(p, frozenset()) | v
    return out


def join(*vs):
    k, t, clos = {}, None, None
    for v in vs:
        if v is not None:
            k = merge(k, v.k)
            t = t or v.t
            clos = clos or v.clos
    return V(k, t, clos, bool(vs) and all(v is not None and v.const for v in vs))


def container(t, e=None, v=None):
    k = up(e.k) if e is not None else {}
    if v is not None:
        k = merge(k, {("v",) + p: x for p, x in v.k.items() if len(p) < 3})
    return V(k, t)


class Store(dict):
    """the kinds of all nodes; remembers who looked at which"""
    reader = None

    def get(self, k, default=None):
        if self.reader is not None:
            self.reader.add(k)
        return dict.get(self, k, default)


class Names:
    def __init__(self, ctx, p):
        self.ctx, self.p, self.ti = ctx, p, types()
        self.nodes = Store()
        self.fresh = set()
        self.captured = []
        self.final = False
        self.given = {}
        self.stack = []
        self.spelled = {}
        self.site = None
        self.comparisons = 0
        for cn, field in SPELLED:
            for c in p.classes.values():
                if c.name == cn and c.module.name.split(".")[0] in LIBRARY:
                    self.spelled[(c.qual, field)] = f"{cn}.{field}"
        self.props = {}
        for c in p.classes.values():
            for m in c.methods.values():
                if m.is_property or any("cached_property" in decorator_name(d) for d in getattr(m.node, "decorator_list", [])):
                    self.props.setdefault(m.name, []).append(m)
        self.identity = {}

    # ---- store
    def read(self, node):
        return V(dict(self.nodes.get(node, EMPTY)))

    def write(self, node, v):
        if not v.k:
            return
        old = dict.get(self.nodes, node, EMPTY)
        new = merge(old, v.k)
        if new != old:
            self.nodes[node] = new
            self.fresh.add(node)

    # ---- types
    def type_of(self, e, env, f):
        if isinstance(e, ast.Name) and e.id in env and env[e.id].t is not None:
            return env[e.id].t
        if isinstance(e, ast.Attribute):
            t = self.type_of(e.value, env, f)
            if t and t[0] == "cls":
                return self.ti.attr_type(self.p.classes[t[1]], e.attr)
        try:
            return self.ti.expr_type(e, f, f.module)
        except RecursionError:
            return None

    def is_descriptor(self, t):
        return t is not None and t[0] == "cls" and self.p.classes[t[1]].name == DESCRIPTOR

    def plain(self, v):
        """kinds of v itself; a descriptor compares by its name"""
        k = v.k.get((), frozenset())
        if self.is_descriptor(v.t):
            # how descriptors compare is judged in the method that compares them
            return frozenset(["descriptor"]) if "__eq__" in self.p.classes[v.t[1]].methods else k or frozenset([("NAME", DESCRIPTOR)])
        return k

    # ---- judgement
    def compare(self, what, l, r, lconst, rconst, node, f):
        if not self.final:
            return
        if l or r:
            self.comparisons += 1
        if lconst or rconst or not (l or r):
            return
        both = l | r
        raw = sorted(x[1] for x in both if isinstance(x, tuple) and x[0] == "NAME")
        where, func = self.site or (f"{f.module.rel}:{node.lineno}", f)
        if func.module.name.startswith(SILENT):
            return
        if raw:
            self.ctx.finding("spelling", f"{outermost(func).short}|{what}|{','.join(raw)}", f"{outermost(func).short}: {what} by a package name as it is spelled "
                             f"({', '.join(raw)}), so another spelling of the same name is taken for another package", where)
        elif l and r and len(both) > 1:
            self.ctx.finding("spelling", f"{outermost(func).short}|{what}|{'/'.join(sorted(map(str, both)))}", f"{outermost(func).short}: {what} of a normalized package name "
                             f"with a name that is not ({', '.join(sorted('as given by the caller' if x == GIVEN else str(x) for x in both if x != KEY))})", where)
        else:
            self.ctx.count("comparisons_of_keys" if KEY in both else "other_comparisons")

    # ---- functions
    def analyse(self, f):
        env = {}
        for a in list(f.params) + list(f.kwonly):
            v = self.read(("var", f.qual, a))
            v = V(merge(v.k, self.given.get((f.qual, a), EMPTY)), self.ti.local_types(f).get(a))
            env[a] = v
        if f.cls is not None and f.params and not f.is_static:
            env[f.params[0]].t = ("type" if f.is_classmethod else "cls", f.cls.qual)
        self.body(f, env, lambda v: self.write(("ret", f.qual), v))

    def body(self, f, env, ret):
        if isinstance(f.node, ast.Lambda):
            ret(self.ev(f.node.body, env, f))
            return
        self.block(f.node.body, env, f, ret)

    def block(self, stmts, env, f, ret):
        """-> env at the end, or None when it is not reached"""
        for s in stmts:
            env = self.stmt(s, env, f, ret)
            if env is None:
                return None
        return env

    @staticmethod
    def meet(*envs):
        envs = [e for e in envs if e is not None]
        if not envs:
            return None
        out = {}
        for e in envs:
            for k, v in e.items():
                out[k] = join(out[k], v) if k in out and out[k] is not v else v
        return out

    def stmt(self, s, env, f, ret):
        ev = self.ev
        if isinstance(s, ast.Return):
            if s.value is not None:
                ret(ev(s.value, env, f))
            return None
        if isinstance(s, ast.Raise):
            for x in (s.exc, s.cause):
                if x is not None:
                    ev(x, env, f)
            return None
        if isinstance(s, (ast.Continue, ast.Break)):
            return env          # what is known stays (an over-approximation of the loop's end)
        if isinstance(s, ast.Expr):
            ev(s.value, env, f, ret)
            return env
        if isinstance(s, ast.Assign):
            v = ev(s.value, env, f, ret)
            for t in s.targets:
                self.bind(t, v, env, f)
            return env
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                v = ev(s.value, env, f, ret)
                t = self.ti.from_ann(s.annotation, f.module, f, f.cls)
                self.bind(s.target, V(v.k, t or v.t, v.clos, v.const), env, f)
            return env
        if isinstance(s, ast.AugAssign):
            v = ev(s.value, env, f)
            cur = ev(s.target, env, f) if isinstance(s.target, (ast.Name, ast.Attribute)) else V()
            self.bind(s.target, join(cur, v), env, f)
            return env
        if isinstance(s, ast.If):
            ev(s.test, env, f)
            return self.meet(self.block(s.body, dict(env), f, ret), self.block(s.orelse, dict(env), f, ret))
        if isinstance(s, (ast.For, ast.AsyncFor)):
            it = ev(s.iter, env, f)
            cur = env
            for _ in range(2):
                inner = dict(cur)
                self.bind(s.target, self.element(it), inner, f)
                cur = self.meet(cur, self.block(s.body, inner, f, ret))
            return self.block(s.orelse, cur, f, ret)
        if isinstance(s, ast.While):
            cur = env
            for _ in range(2):
                ev(s.test, cur, f)
                cur = self.meet(cur, self.block(s.body, dict(cur), f, ret))
            return self.block(s.orelse, cur, f, ret)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = ev(i.context_expr, env, f)
                if i.optional_vars is not None:
                    t = v.t[1] if v.t and v.t[0] == "ctx" else v.t
                    self.bind(i.optional_vars, V(v.at("e") if v.t and v.t[0] == "ctx" else v.k, t), env, f)
            return self.block(s.body, env, f, ret)
        if isinstance(s, ast.Try):
            start = dict(env)
            done = self.block(s.body, dict(env), f, ret)
            outs = []
            mid = self.meet(start, done)
            for h in s.handlers:
                outs.append(self.block(h.body, dict(mid), f, ret))
            if done is not None:
                done = self.block(s.orelse, done, f, ret)
            end = self.meet(done, *outs)
            if s.finalbody:
                r = self.block(s.finalbody, dict(end if end is not None else mid), f, ret)
                return r if end is not None else None
            return end
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            env[s.name] = V(clos=(f.nested.get(s.name), dict(env)))
            g = f.nested.get(s.name)
            if g is not None and self.final is not None:
                inner = dict(env)
                for a in list(g.params) + list(g.kwonly):
                    inner[a] = V(dict(self.nodes.get(("var", g.qual, a), EMPTY)), self.ti.local_types(g).get(a))
                self.body(g, inner, lambda v: self.write(("ret", g.qual), v))
            return env
        if isinstance(s, ast.Delete):
            for t in s.targets:
                ev(t, env, f)
            return env
        if isinstance(s, ast.Assert):
            ev(s.test, env, f)
            return env
        if isinstance(s, ast.Match):
            ev(s.subject, env, f)
            return self.meet(env, *(self.block(c.body, dict(env), f, ret) for c in s.cases))
        return env

    def bind(self, t, v, env, f):
        if isinstance(t, ast.Name):
            env[t.id] = v if v.t is not None else V(v.k, self.ti.local_types(f).get(t.id) if f.parent is None or t.id in f.locals else None, v.clos, v.const)
        elif isinstance(t, (ast.Tuple, ast.List)):
            ts = v.t[1] if v.t and v.t[0] == "tuple" else ()
            for i, x in enumerate(t.elts):
                ty = ts[i] if i < len(ts) else None
                if isinstance(x, ast.Starred):
                    self.bind(x.value, V({p: k for p, k in v.k.items() if p[:1] == ("e",)}), env, f)
                else:
                    k = v.at(i)
                    self.bind(x, V(k or v.at("e"), ty), env, f)
        elif isinstance(t, ast.Attribute):
            bt = self.type_of(t.value, env, f)
            self.ev(t.value, env, f)
            if bt and bt[0] in ("cls", "type"):
                self.write(("attr", bt[1], t.attr), v)
        elif isinstance(t, ast.Subscript):
            key = self.ev(t.slice, env, f) if not isinstance(t.slice, ast.Slice) else V()
            self.add(t.value, V(merge(up({(): self.plain(key)} if self.plain(key) else {}), {("v",) + p: k for p, k in v.k.items() if len(p) < 3})), env, f)

    def add(self, e, extra, env, f):
        """extra kinds flow into the container e stands for"""
        if isinstance(e, ast.Name):
            if e.id in f.params:        # the caller's container
                if self.stack and self.stack[-1] is f:
                    self.captured.append((e.id, extra))
                else:
                    self.write(("out", f.qual, e.id), extra)
            if e.id in env:
                env[e.id] = V(merge(env[e.id].k, extra.k), env[e.id].t, env[e.id].clos)
        elif isinstance(e, ast.Attribute):
            bt = self.type_of(e.value, env, f)
            if bt and bt[0] in ("cls", "type"):
                self.write(("attr", bt[1], e.attr), extra)
        elif isinstance(e, ast.Subscript):
            self.add(e.value, V({("v",) + p: k for p, k in extra.k.items() if len(p) < 3}), env, f)

    def element(self, v):
        t = elem_type(v.t) if v.t else None
        return V(v.at("e"), t)

    # ---- expressions
    def ev(self, e, env, f, ret=None):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is not None:
            if isinstance(e, (ast.Yield, ast.YieldFrom)):
                return m(e, env, f, ret)
            r = m(e, env, f)
            if r.t is None and r.clos is None:
                r.t = self.type_of(e, env, f) if isinstance(e, (ast.Name, ast.Attribute, ast.Call, ast.Subscript)) else None
            return r
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x, env, f)
        return V()

    def ev_Constant(self, e, env, f):
        return V(const=True)

    def ev_Name(self, e, env, f):
        if e.id in env:
            v = env[e.id]
            return V(v.k, v.t, v.clos, v.const)
        g = f
        while g is not None:
            if e.id in g.nested:
                return V(clos=(g.nested[e.id], env))
            g = g.parent
        r = self.p.resolve_dotted(e.id, f.module, f)
        if r in self.p.funcs:
            return V(clos=(self.p.funcs[r], {}))
        v = self.read(("glob", r)) if r else V()
        v.const = bool(r) and not v.k and e.id.strip("_").isupper()
        return v

    def ev_Attribute(self, e, env, f):
        base = self.ev(e.value, env, f)
        d = dotted(e)
        if d:
            r = self.p.resolve_dotted(d, f.module, f)
            if r in self.p.funcs and self.ti.var_type(d.split(".")[0], f) is None and d.split(".")[0] not in env:
                return V(clos=(self.p.funcs[r], {}))
        t = base.t
        if t and t[0] in ("cls", "type"):
            c = self.p.classes[t[1]]
            for b in self.p.mro(c):
                if (b.qual, e.attr) in self.spelled and (e.attr in b.fields or e.attr in b.methods):
                    return V({(): frozenset([("NAME", self.spelled[(b.qual, e.attr)])])})
            impls = [m for m in self.p.implementations(c, e.attr)] or []
            out = V(t=self.ti.attr_type(c, e.attr))
            for m in impls:
                if m.is_property or any("cached_property" in decorator_name(x) for x in getattr(m.node, "decorator_list", [])):
                    out.k = merge(out.k, self.nodes.get(("ret", m.qual), EMPTY))
                else:
                    out.clos = (m, {})
            for b in [*self.p.mro(c), *self.p.all_subclasses(c)]:
                out.k = merge(out.k, self.nodes.get(("attr", b.qual, e.attr), EMPTY))
            return out
        out = V()
        if t is None:
            # the type is not known: the attribute names of names are telling enough
            for (q, field), what in self.spelled.items():
                if field == e.attr and field != "name":
                    return V({(): frozenset([("NAME", what)])})
            for m in self.props.get(e.attr, ()):
                if "key" in e.attr:
                    out.k = merge(out.k, self.nodes.get(("ret", m.qual), EMPTY))
        return out

    def ev_NamedExpr(self, e, env, f):
        v = self.ev(e.value, env, f)
        self.bind(e.target, v, env, f)
        return v

    def ev_BoolOp(self, e, env, f):
        return join(*[self.ev(x, env, f) for x in e.values])

    def ev_IfExp(self, e, env, f):
        self.ev(e.test, env, f)
        return join(self.ev(e.body, env, f), self.ev(e.orelse, env, f))

    def ev_Await(self, e, env, f):
        return self.ev(e.value, env, f)

    def ev_Starred(self, e, env, f):
        return self.ev(e.value, env, f)

    def ev_UnaryOp(self, e, env, f):
        self.ev(e.operand, env, f)
        return V()

    def ev_BinOp(self, e, env, f):
        l, r = self.ev(e.left, env, f), self.ev(e.right, env, f)
        if isinstance(e.op, (ast.Add, ast.BitOr)):
            return V(merge(l.k, r.k), l.t, const=l.const and r.const)
        if isinstance(e.op, (ast.Sub, ast.BitAnd)):
            if l.at("e") or r.at("e"):
                self.compare("set operation", l.at("e").get((), frozenset()), r.at("e").get((), frozenset()), False, False, e, f)
            return V(l.k, l.t)
        return V()

    def ev_JoinedStr(self, e, env, f):
        out = {}
        if len(e.values) != 1:
            for x in e.values:
                self.ev(x, env, f)
            return V()      # an address, a file name, a message: no longer a package name
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                out = merge(out, {p: k for p, k in self.ev(x.value, env, f).k.items() if p == ()})
        return V(out)

    def ev_Lambda(self, e, env, f):
        inner = dict(env)
        for a in e.args.args:
            inner[a.arg] = V()
        # seen without arguments too
        keep, self.final = self.final, False
        self.ev(e.body, inner, f)
        self.final = keep
        return V(clos=(e, env, f))

    def ev_Yield(self, e, env, f, ret):
        if e.value is not None:
            v = self.ev(e.value, env, f)
            if ret is not None:
                ret(V(up(v.k)))
        return V()

    def ev_YieldFrom(self, e, env, f, ret):
        v = self.ev(e.value, env, f)
        if ret is not None:
            ret(V({p: k for p, k in v.k.items() if p[:1] == ("e",)}))
        return V()

    def seq(self, kind, elts, env, f):
        out, t, allc = {}, None, True
        for x in elts:
            v = self.ev(x, env, f)
            if isinstance(x, ast.Starred):
                out = merge(out, {p: k for p, k in v.k.items() if p[:1] == ("e",)})
                t = t or elem_type(v.t)
            else:
                own = dict(v.k)
                if self.plain(v):
                    own[()] = self.plain(v)
                out = merge(out, up(own))
                t = t or v.t
            allc = allc and v.const
        return V(out, (kind, t) if t else None, const=allc and bool(elts))

    def ev_List(self, e, env, f):
        return self.seq("list", e.elts, env, f)

    def ev_Set(self, e, env, f):
        return self.seq("set", e.elts, env, f)

    def ev_Tuple(self, e, env, f):
        vs = [self.ev(x, env, f) for x in e.elts]
        out = {}
        for i, v in enumerate(vs):
            out = merge(out, {(i,) + p: k for p, k in v.k.items() if len(p) < 3})
            out = merge(out, up(v.k))
        return V(out, ("tuple", tuple(v.t for v in vs)), const=all(v.const for v in vs))

    def ev_Dict(self, e, env, f):
        out = {}
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, env, f)
            if k is None:
                out = merge(out, vv.k)
                continue
            kv = self.ev(k, env, f)
            if self.plain(kv):
                out = merge(out, {("e",): self.plain(kv)})
            out = merge(out, {("v",) + p: x for p, x in vv.k.items() if len(p) < 3})
        return V(out)

    def gens(self, e, env, f):
        inner = dict(env)
        for g in e.generators:
            it = self.ev(g.iter, inner, f)
            self.bind(g.target, self.element(it), inner, f)
            for c in g.ifs:
                self.ev(c, inner, f)
        return inner

    def comp(self, e, env, f, kind):
        inner = self.gens(e, env, f)
        v = self.ev(e.elt, inner, f)
        own = dict(v.k)
        if self.plain(v):
            own[()] = self.plain(v)
        for g in ast.walk(e):       # names bound by := belong to the function
            if isinstance(g, ast.NamedExpr) and isinstance(g.target, ast.Name) and g.target.id in inner:
                env[g.target.id] = inner[g.target.id]
        return V(up(own), (kind, v.t) if v.t else None)

    def ev_ListComp(self, e, env, f):
        return self.comp(e, env, f, "list")

    def ev_SetComp(self, e, env, f):
        return self.comp(e, env, f, "set")

    def ev_GeneratorExp(self, e, env, f):
        return self.comp(e, env, f, "iter")

    def ev_DictComp(self, e, env, f):
        inner = self.gens(e, env, f)
        k, v = self.ev(e.key, inner, f), self.ev(e.value, inner, f)
        out = {("e",): self.plain(k)} if self.plain(k) else {}
        return V(merge(out, {("v",) + p: x for p, x in v.k.items() if len(p) < 3}), ("dict", k.t, v.t))

    def ev_Compare(self, e, env, f):
        vs = [self.ev(x, env, f) for x in [e.left, *e.comparators]]
        for op, l, r in zip(e.ops, vs, vs[1:]):
            if isinstance(op, (ast.Eq, ast.NotEq)):
                self.compare("comparison", self.plain(l), self.plain(r), l.const, r.const, e, f)
            elif isinstance(op, (ast.In, ast.NotIn)):
                if r.at("e") or not r.k.get((), None):
                    self.compare("membership test", self.plain(l), r.at("e").get((), frozenset()), l.const, r.const, e, f)
        return V()

    def ev_Subscript(self, e, env, f):
        base = self.ev(e.value, env, f)
        if isinstance(e.slice, ast.Slice):
            for x in (e.slice.lower, e.slice.upper, e.slice.step):
                if x is not None:
                    self.ev(x, env, f)
            return V(base.k, base.t)
        i = self.ev(e.slice, env, f)
        if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int):
            k = base.at(e.slice.value) or base.at("e")
            return V(k)
        if self.plain(i):
            self.compare("lookup", self.plain(i), base.at("e").get((), frozenset()), i.const, False, e, f)
        elif base.at("e").get((), None) and base.t and base.t[0] == "dict":
            self.compare("lookup", self.plain(i), base.at("e").get((), frozenset()), i.const, False, e, f)
        if isinstance(e.value, ast.Name) and self.plain(i) and isinstance(e.ctx, ast.Load):    # a defaultdict is filled by its lookups
            self.add(e.value, V({("e",): self.plain(i)}), env, f)
        return V(base.at("v") or (base.at("e") if not (base.t and base.t[0] == "dict") else {}))

    # ---- calls
    def ev_Call(self, e, env, f):
        fn = e.func
        args = [self.ev(a, env, f) for a in e.args]
        kwargs = {k.arg: self.ev(k.value, env, f) for k in e.keywords}
        star = any(isinstance(a, ast.Starred) for a in e.args)
        name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else None
        recv = self.ev(fn.value, env, f) if isinstance(fn, ast.Attribute) else None
        callee = None
        if recv is not None and recv.t and recv.t[0] in ("cls", "type"):
            callee = self.p.find_method(self.p.classes[recv.t[1]], name)
        if callee is None:
            callee = self.ti.static_callee(e, f) if not (isinstance(fn, ast.Name) and fn.id in env and env[fn.id].clos is None and env[fn.id].t is None) else None
        fv = env.get(fn.id) if isinstance(fn, ast.Name) else None
        if fv is not None and fv.clos is not None and len(fv.clos) == 3:
            return self.apply(fv, args, kwargs)
        if isinstance(callee, FuncInfo) and callee.name == KEY_FUNC:
            return V({(): frozenset([KEY])}, const=bool(args) and args[0].const)
        if isinstance(callee, ClassInfo):
            return self.construct(callee, args, kwargs, e, f)
        if isinstance(callee, FuncInfo):
            return self.call(callee, args, kwargs, recv, e, f, star, env)
        if isinstance(fn, (ast.Name, ast.Call)) or recv is None:
            v = self.ev(fn, env, f)
            if v.clos is not None:
                r = self.apply(v, args, kwargs)
                if r is not None:
                    return r
        ext = resolve_name(f, fn) if isinstance(fn, (ast.Name, ast.Attribute)) else None
        if name == "map" and recv is None and len(args) == 2:
            r = self.apply(args[0], [self.element(args[1])], {})
            return V(up(r.k)) if r is not None else V()
        if name == "filter" and recv is None and len(args) == 2:
            self.apply(args[0], [self.element(args[1])], {})
            return V(args[1].k, args[1].t)
        if name in ("list", "set", "tuple", "sorted", "iter", "reversed", "frozenset", "dict", "deque", "cast", "OrderedDict", "chain", "unone") and recv is None \
                or name in ("chain", "copy", "deepcopy") and recv is not None and not recv.k and args:
            out = {}
            for a in args + [v for k, v in kwargs.items() if k is None]:
                out = merge(out, a.k)
            t = args[-1].t if name == "cast" and args else (args[0].t if args else None)
            if name == "dict" and args and any(p[:2] == ("e", 0) for p in out):      # pairs
                out = merge({("e",) + p[2:]: k for p, k in out.items() if p[:2] == ("e", 0)}, {("v",) + p[2:]: k for p, k in out.items() if p[:2] == ("e", 1)})
            if name == "cast":
                t = self.type_of(e, env, f) or t
            if name in ("set", "list", "tuple", "sorted") and t and t[0] == "dict":
                t = ("list", t[1])
            return V(out, t)
        if name == "zip" and recv is None:
            out = {}
            for i, a in enumerate(args):
                out = merge(out, {("e", i) + p: k for p, k in a.at("e").items() if len(p) < 2})
            return V(out, ("iter", ("tuple", tuple(elem_type(a.t) for a in args))))
        if name == "enumerate" and recv is None and args:
            return V({("e", 1) + p: k for p, k in args[0].at("e").items() if len(p) < 2}, ("iter", ("tuple", (None, elem_type(args[0].t)))))
        if name in ("str", "repr") and recv is None and args:
            return V({p: k for p, k in args[0].k.items() if p == ()})
        if name in ("next", "min", "max") and recv is None and args:
            return join(self.element(args[0]), *args[1:])
        if name == "replace" and recv is None and args:         # dataclasses
            if args[0].t and args[0].t[0] == "cls":
                for k, v in kwargs.items():
                    if k:
                        self.write(("attr", args[0].t[1], k), v)
                if self.is_descriptor(args[0].t):
                    nm = kwargs.get("name")
                    return V(nm.k if nm is not None and nm.k else args[0].k, args[0].t)
            return V(args[0].k, args[0].t)
        if recv is not None:
            return self.method(name, recv, args, kwargs, e, env, f)
        return V()

    def method(self, name, recv, args, kwargs, e, env, f):
        fn = e.func
        if name in LOOKUPS and args:
            self.compare("lookup", self.plain(args[0]), recv.at("e").get((), frozenset()), args[0].const, False, e, f) \
                if self.plain(args[0]) or recv.at("e").get((), None) and (name not in ("index", "count", "remove") and not (recv.t and recv.t[0] == "list" and name == "pop")) else None
            if name in ("get", "pop", "setdefault"):
                if name == "setdefault" and len(args) > 1:
                    self.add(fn.value, V(merge({("e",): self.plain(args[0])} if self.plain(args[0]) else {}, {("v",) + p: k for p, k in args[1].k.items() if len(p) < 3})), env, f)
                v = V(recv.at("v"), recv.t[2] if recv.t and recv.t[0] == "dict" else None)
                return join(v, *args[1:])
            return V()
        if name in ("add", "append", "appendleft", "insert"):
            v = args[-1] if args else V()
            own = dict(v.k)
            if self.plain(v):
                own[()] = self.plain(v)
            self.add(fn.value, V(up(own)), env, f)
            return V()
        if name in ("update", "extend", "union", "intersection", "difference", "symmetric_difference", "issubset", "issuperset", "isdisjoint",
                    "difference_update", "intersection_update", "__ior__"):
            out = {}
            for a in args:
                out = merge(out, a.k)
            if name in ("update", "extend", "__ior__"):
                self.add(fn.value, V(out), env, f)
                return V()
            if name != "union":
                for a in args:
                    self.compare("set operation", recv.at("e").get((), frozenset()), a.at("e").get((), frozenset()), False, False, e, f)
                return V(recv.k, recv.t)
            return V(merge(recv.k, out), recv.t)
        if name == "items":
            out = {("e", 0): recv.at("e").get((), frozenset())} if recv.at("e").get(()) else {}
            out = merge(out, {("e", 1) + p: k for p, k in recv.at("v").items() if len(p) < 2})
            t = recv.t
            return V(out, ("iter", ("tuple", (t[1], t[2]))) if t and t[0] == "dict" else None)
        if name == "values":
            return V({("e",) + p: k for p, k in recv.at("v").items()}, ("iter", recv.t[2]) if recv.t and recv.t[0] == "dict" else None)
        if name in SAME:
            return V(recv.k, recv.t)
        if name == "sub" and args:      # re.sub(pattern, replacement, text)
            k = args[-1].k if args[-1].k else next((a.k for a in args if a.k), {})
            return V(self.rewritten({p: x for p, x in k.items() if p == ()}, e))
        if name in OTHER:
            return V(self.rewritten({p: x for p, x in recv.k.items() if p == ()}, e))
        if name in ("format", "join") and args:
            out = {}
            for a in args:
                out = merge(out, {(): a.k.get((), frozenset()) | a.at("e").get((), frozenset())} if a.k.get(()) or a.at("e").get(()) else {})
            return V(out)
        if name in ("startswith", "endswith"):
            return V()
        return V()

    @staticmethod
    def rewritten(k, e):
        how = "KEY." + (e.func.attr if isinstance(e.func, ast.Attribute) else "") + "(" + ", ".join(ast.unparse(a) for a in e.args if isinstance(a, ast.Constant) or isinstance(a, ast.Dict)) + ")"
        return {p: frozenset(how if x == KEY else x for x in v) for p, v in k.items()}

    def construct(self, c, args, kwargs, e, f):
        init = self.p.find_method(c, "__init__")
        fields = [n for b in reversed(self.p.mro(c)) for n in b.fields] if init is None else []
        if init is not None:
            self.pass_args(init, args, kwargs, True)
        else:
            seen = []
            for n in fields:
                if n not in seen:
                    seen.append(n)
            for n, v in [*zip(seen, args), *[(k, v) for k, v in kwargs.items() if k]]:
                self.write(("attr", c.qual, n), v)
        if c.name == "Term" and args and args[0].t and args[0].t[0] == "cls" and self.final:
            self.identity.setdefault(args[0].t[1], (f"{f.module.rel}:{e.lineno}", f))
        if c.name == DESCRIPTOR:
            nm = kwargs.get("name") or (args[0] if args else None)
            return V({(): nm.k.get((), frozenset())} if nm is not None and nm.k.get(()) else {}, ("cls", c.qual))
        return V({}, ("cls", c.qual))

    def pass_args(self, g, args, kwargs, skip_self):
        ps = list(g.params)
        if skip_self and ps:
            ps = ps[1:]
        for n, v in [*zip(ps, args), *[(k, v) for k, v in kwargs.items() if k]]:
            if n in g.params or n in g.kwonly:
                self.write(("var", g.qual, n), v)

    def apply(self, fv, args, kwargs):
        c = fv.clos
        if c is None or len(self.stack) > 5:
            return None
        if len(c) == 3:
            lam, env, f = c
            inner = dict(env)
            for a, v in zip(lam.args.args, args):
                inner[a.arg] = v
            self.stack.append(lam)
            try:
                return self.ev(lam.body, inner, f)
            finally:
                self.stack.pop()
        g, env = c
        if g is None:
            return None
        if g.name == KEY_FUNC:
            return V({(): frozenset([KEY])})
        return self.call(g, args, kwargs, None, None, None, False)

    def call(self, g, args, kwargs, recv, e, f, star, env=None):
        bound = g.cls is not None and not g.is_static and (recv is not None or g.is_classmethod) and g.parent is None
        if recv is not None and recv.t and recv.t[0] == "type" and not g.is_classmethod and g.cls is not None and not g.is_static:
            bound = False       # Class.method(obj, ...)
        if g.module.name.startswith("pkm.utils") and len(self.stack) < 4 and g not in self.stack and e is not None:
            return self.inline(g, args, kwargs, recv, bound, e, f, env)
        impls = [g]
        if bound and recv is not None and recv.t and recv.t[0] == "cls":
            impls = self.p.implementations(self.p.classes[recv.t[1]], g.name) or [g]
        out = {}
        for m in {m.qual: m for m in [g, *impls]}.values():
            self.pass_args(m, args if not star else [], kwargs, bound)
            if e is not None and env is not None:
                for n, x in self.actuals(m, e, bound):
                    got = self.nodes.get(("out", m.qual, n), EMPTY)
                    if got:
                        self.add(x, V(dict(got)), env, f)
            out = merge(out, self.nodes.get(("ret", m.qual), EMPTY))
        return V(dict(out), self.ti.ret_type(g))

    @staticmethod
    def actuals(g, e, bound):
        ps = list(g.params)[1 if bound else 0:]
        return [(n, x) for n, x in [*zip(ps, e.args), *[(k.arg, k.value) for k in e.keywords]] if n and isinstance(x, (ast.Name, ast.Attribute))]

    def inline(self, g, args, kwargs, recv, bound, e, f, outer):
        env = {}
        keep_captured, self.captured = self.captured, []
        ps = list(g.params)
        if bound and ps:
            env[ps[0]] = recv or V()
            ps = ps[1:]
        for n, v in zip(ps, args):
            env[n] = v
        va = getattr(g.node.args, "vararg", None) if not isinstance(g.node, ast.Lambda) else None
        if va is not None:
            rest = args[len([x for x in ps if x != va.arg]):]
            out = {}
            for v in rest:
                out = merge(out, up(v.k))
            env[va.arg] = V(out)
        for k, v in kwargs.items():
            if k:
                env[k] = v
        a = g.node.args
        pos = [x.arg for x in [*a.posonlyargs, *a.args]]
        consts = {n for n, d in [*zip(reversed(pos), reversed(a.defaults)), *zip([x.arg for x in a.kwonlyargs], a.kw_defaults)] if isinstance(d, ast.Constant)}
        for n in list(g.params) + list(g.kwonly):
            env.setdefault(n, V(const=n in consts))
        outs = []
        keep = self.site
        if self.site is None:
            self.site = (f"{f.module.rel}:{e.lineno}", f)
        self.stack.append(g)
        try:
            self.body(g, env, outs.append)
        finally:
            self.stack.pop()
            self.site = keep
        got, self.captured = self.captured, keep_captured
        if outer is not None:
            for n, x in self.actuals(g, e, bound):
                for m, extra in got:
                    if m == n:
                        self.add(x, extra, outer, f)
        r = join(*outs) if outs else V()
        return V(r.k, self.ti.ret_type(g) or r.t, r.clos)


def given_kinds(f, a):
    ann = f.annotations.get(a)
    if ann is None:
        return {}
    text = ast.unparse(ann) if isinstance(ann, ast.AST) else str(ann)
    text = text.replace("'", "").replace('"', "")
    while text.startswith("Optional[") and text.endswith("]"):
        text = text[9:-1]
    if text == "str" or re.match(r"Union\[.*\bstr\b", text):
        return {(): frozenset([GIVEN])}
    if re.match(r"(List|Set|Iterable|Sequence|Collection|FrozenSet|Tuple|list|set)\[str\b", text) or re.match(r"(Dict|Mapping|dict)\[str,", text):
        return {("e",): frozenset([GIVEN])}
    return {}


def check_mapping(ctx, p, cls):
    """the normalizing function: letter case is folded and the separators become one character"""
    f = p.find_method(cls, KEY_FUNC)
    r = Mapping()
    eng = Engine(r)
    param = f.params[-1]
    me = ("p", f.qual, param)
    out = eng.run(f, ())
    ctx.analysed(eng)
    for t, st in out.ret:
        chain = []
        m = charmap(t, me, chain, st)
        ctx.count("normalizations_followed")
        ctx.sample(f"{f.short} = {' then '.join(chain) or show(t)}")
        if m is None:
            ctx.count("normalizations_not_understood")
            continue
        folded = m("A") == m("a") and m("Z") == m("z")
        ctx.count("character_classes_mapped", 4)
        if not folded:
            ctx.finding("normalization", f"{f.short}|case", f"{f.short} does not fold letter case", f.where)
        images = {c: m(c) for c in "-_."}
        if len(set(images.values())) > 1:
            ctx.finding("normalization", f"{f.short}|separators", f"{f.short} keeps separators apart: " + ", ".join(f"'{c}' becomes '{i}'" for c, i in images.items()), f.where)
        if len({m(c) for c in "ab01"}) < 4:
            ctx.finding("normalization", f"{f.short}|letters", f"{f.short} takes different letters or digits for the same", f.where)


class Mapping(Rule):
    max_depth = 8

    def opaque(self, f):
        return False


def global_value(t):
    """the expression a module constant is defined by"""
    if t[0] != "g":
        return None, None
    mn, _, v = t[1].rpartition(".")
    m = program().modules.get(mn)
    return (m.globals.get(v), m) if m is not None else (None, None)


def pattern_of(t, flags):
    g, m = global_value(t)
    if isinstance(g, ast.Call) and (dotted(g.func) or "").endswith("compile") and g.args and isinstance(g.args[0], ast.Constant):
        text = " ".join(ast.unparse(x) for x in [*g.args[1:], *[k.value for k in g.keywords]])
        return g.args[0].value, "IGNORECASE" in text or text.endswith("re.I")
    if isinstance(g, ast.Constant):
        return g.value, flags
    if t[0] == "c":
        return t[2], flags
    if t[0] == "call" and call_name(t) == "compile" and t[3] and t[3][0][0] == "c":
        return t[3][0][2], "IGNORECASE" in repr(t[3][1:]) + repr(t[4]) or "re.I'" in repr(t[3][1:]) + repr(t[4])
    return None, flags


def char(t):
    if t[0] == "c":
        return chr(t[2]) if isinstance(t[2], int) and not isinstance(t[2], bool) else t[2]
    if t[0] == "call" and call_name(t) == "ord" and t[3] and t[3][0][0] == "c":
        return t[3][0][2]
    return None


def table_of(t, st):
    """character mapping given to translate"""
    g, m = global_value(t)
    if g is not None:
        if isinstance(g, ast.Dict):
            out = {}
            for k, v in zip(g.keys, g.values):
                k = k.args[0] if isinstance(k, ast.Call) and k.args else k
                if not isinstance(k, ast.Constant) or not isinstance(v, ast.Constant):
                    return None
                out[chr(k.value) if isinstance(k.value, int) else k.value] = "" if v.value is None else chr(v.value) if isinstance(v.value, int) else v.value
            return out
        if isinstance(g, ast.Call) and (dotted(g.func) or "").endswith("maketrans") and all(isinstance(a, ast.Constant) for a in g.args) and len(g.args) in (2, 3):
            return {**dict(zip(g.args[0].value, g.args[1].value)), **{c: "" for c in (g.args[2].value if len(g.args) == 3 else "")}}
        if isinstance(g, ast.Call) and (dotted(g.func) or "").endswith("maketrans") and len(g.args) == 1 and isinstance(g.args[0], ast.Dict):
            try:
                return {chr(k) if isinstance(k, int) else k: v for k, v in ast.literal_eval(g.args[0]).items()}
            except ValueError:
                return None
        return None
    if t[0] == "call" and call_name(t) == "maketrans":
        if len(t[3]) == 1:
            return table_of(t[3][0], st)
        if all(a[0] == "c" for a in t[3]) and len(t[3]) in (2, 3):
            return {**dict(zip(t[3][0][2], t[3][1][2])), **{c: "" for c in (t[3][2][2] if len(t[3]) == 3 else "")}}
        return None
    r = st.heap.get(t)
    if t[0] == "cont" and isinstance(r, frozenset):
        out = {}
        for el, _ in r:
            if el[0] != "kv" or char(el[1]) is None or el[2][0] != "c":
                return None
            out[char(el[1])] = "" if el[2] == NONE else char(el[2])
        return out
    return None


def charmap(t, me, chain, st):
    """function from a character to its image, or None when an operation is not understood"""
    if t == me:
        return lambda c: c
    if t[0] != "call":
        return None
    name, recv, args = call_name(t), t[2], t[3]
    if name == "sub" and args:
        a = list(args) if recv is None or recv[:1] == ("x",) or t[1][0] == "x" else [recv, *args]
        if len(a) < 3:
            return None
        pat, fold = pattern_of(a[0], "IGNORECASE" in repr(a[3:]) + repr(t[4]) or "re.I'" in repr(a[3:]) + repr(t[4]))
        inner = charmap(a[2], me, chain, st)
        if pat is None or inner is None or a[1][0] != "c":
            return None
        rx, rep = re.compile(pat, re.I if fold else 0), a[1][2]
        chain.append(f"sub({pat!r}, {rep!r})")
        return lambda c: rx.sub(rep, inner(c))
    if name == "join" and recv is not None and recv[0] == "c" and args and args[0][0] == "call" and call_name(args[0]) == "split":
        return None
    if recv is None:
        return None
    inner = charmap(recv, me, chain, st)
    if inner is None:
        return None
    if name in ("lower", "casefold"):
        chain.append(name)
        return lambda c: inner(c).lower()
    if name in ("strip", "lstrip", "rstrip", "encode", "decode", "__str__"):
        chain.append(name)
        return inner
    if name == "replace" and len(args) == 2 and args[0][0] == "c" and args[1][0] == "c":
        chain.append(f"replace({args[0][2]!r}, {args[1][2]!r})")
        return lambda c: inner(c).replace(args[0][2], args[1][2])
    if name == "translate" and args:
        table = table_of(args[0], st)
        if table is None:
            return None
        chain.append(f"translate({table})")
        return lambda c: "".join(table.get(x, x) for x in inner(c))
    return None


def check(ctx):
    p = program()
    ctx.rule("comparisons and lookups of package names that decide something are between normalized names; the normalizing function folds letter "
             "case and maps the separators to one character")
    cls = p.cls(DESCRIPTOR)
    ctx.need(cls is not None and p.find_method(cls, KEY_FUNC), f"{DESCRIPTOR}.{KEY_FUNC}")
    n = Names(ctx, p)
    ctx.need(len(n.spelled) >= 3, "fields that hold package names")
    funcs = [f for f in library_functions(p) if f.parent is None and not f.module.name.startswith("pkm.utils")]
    reads = {}

    def run(f):
        n.nodes.reader = reads[f] = set()
        n.analyse(f)
        n.nodes.reader = None

    def fix(todo):
        for _ in range(40):
            n.fresh = set()
            for f in todo:
                run(f)
            if not n.fresh:
                return
            todo = [f for f in funcs if reads[f] & n.fresh]

    fix(funcs)
    again = []
    for f in funcs:
        if f.name.startswith("_") and f.name != "__init__" or f.cls is not None and f.cls.name.startswith("_"):
            continue
        for a in list(f.params) + list(f.kwonly):
            if not n.nodes.get(("var", f.qual, a)):
                g = given_kinds(f, a)
                if g:
                    n.given[(f.qual, a)] = g
                    again.append(f)
    fix(again)
    n.final = True
    for f in funcs:
        n.analyse(f)
        ctx.count("functions_followed")
    ctx.count("comparisons_and_lookups", n.comparisons)
    ctx.count("parameters_given_from_outside", len(n.given))
    for q, (where, f) in sorted(n.identity.items()):
        c = p.classes[q]
        ctx.count("solver_package_types")
        for field in c.fields:
            k = n.nodes.get(("attr", q, field), EMPTY).get((), frozenset())
            raw = sorted(x[1] for x in k if isinstance(x, tuple))
            if raw:
                ctx.finding("spelling", f"{c.name}|identity|{field}", f"the solver tells packages apart by {c.name}.{field}, a name as it is spelled ({', '.join(raw)})", f"{c.module.rel}:{c.node.lineno}")
    check_mapping(ctx, p, cls)
    ctx.at_least("comparisons_of_keys", 12)
    ctx.at_least("functions_followed", 300)
