"""V01: equal values hash equal.

For every class that defines equality (written out or generated by @dataclass) the analysis follows each path on which
`self == other` is true and, in the state that path leaves, evaluates the hash of both objects.  What the path compared
is an equality relation between the parts of the two objects; the two hashes must be equal under that relation."""
from ..common import *

BUILDER = "HashBuilder"
DEBUG = False
TEXT = {"str", "repr", "format", "ascii", "__str__", "__repr__"}
ORDERED = {"tuple", "list", "iter", "enumerate", "next", "reversed", "zip", "map", "join"}
UNORDERED = {"frozenset", "set", "sorted", "sum", "len", "min", "max", "any", "all", "bool"}


# ---------------------------------------------------------------- what python does
class Methods:
    def __init__(self, p):
        self.p = p

    def effective(self, cls, name):
        """('def', FuncInfo) / ('gen', dataclass) / ('none',) / ('identity',) for __eq__ or __hash__ of cls"""
        for k in self.p.mro(cls):
            if name == "__eq__":
                if name in k.methods:
                    return ("def", k.methods[name])
                if name in k.class_attrs:
                    return self.alias(k, name)
                if k.is_dataclass and k.dataclass_flags().get("eq", True):
                    return ("gen", k)
            else:
                if name in k.methods:
                    return ("def", k.methods[name])
                if name in k.class_attrs:
                    a = k.class_attrs[name]
                    if not (isinstance(a, ast.Constant) and a.value is None):
                        return self.alias(k, name)
                    return ("none",)
                own_eq = "__eq__" in k.methods or "__eq__" in k.class_attrs
                if k.is_dataclass:
                    fl = k.dataclass_flags()
                    if fl.get("unsafe_hash"):
                        return ("gen", k)
                    if fl.get("eq", True):
                        return ("gen", k) if fl.get("frozen") else ("none",)
                if own_eq:
                    return ("none",)
        return ("identity",)

    def alias(self, k, name):
        a = k.class_attrs[name]
        if isinstance(a, ast.Attribute) and a.attr == name or isinstance(a, ast.Name):
            if isinstance(a, ast.Name) and a.id in k.methods:
                return ("def", k.methods[a.id])
            if isinstance(a, ast.Attribute):
                q = self.p.resolve_dotted(dotted(a.value) or "", k.module, None)
                if q in self.p.classes:
                    return self.effective(self.p.classes[q], name)
                if (dotted(a.value) or "") == "object":
                    return ("identity",)
        return ("unknown",)

    def fields(self, k, what):
        """names that take part in the generated method"""
        out = []
        for c in reversed(self.p.mro(k)):
            if not c.is_dataclass:
                continue
            for f, ann in c.fields.items():
                txt = ast.unparse(ann) if isinstance(ann, ast.AST) else str(ann)
                if "ClassVar" in txt or "InitVar" in txt or "KW_ONLY" in txt:
                    continue
                d = c.field_defaults.get(f)
                use = True
                if isinstance(d, ast.Call) and (dotted(d.func) or "").split(".")[-1] == "field":
                    opt = {x.arg: getattr(x.value, "value", None) for x in d.keywords}
                    use = opt.get("compare", True)
                    if what == "__hash__" and opt.get("hash") is not None:
                        use = opt["hash"]
                if f in out:
                    out.remove(f)
                if use:
                    out.append(f)
        return out


# ---------------------------------------------------------------- following the methods
class EqRule(Rule):
    keep_all_facts = True
    max_states = 3000
    tuples_are_values = True
    max_depth = 6
    term_depth = 20

    def __init__(self, family):
        self.family = family      # qualified names of the classes whose methods are followed

    def keep(self, lit, st, eng):
        # what a loop learns about its later rounds is not worth remembering
        return sum(1 for x in subterms(lit) if x[0] == "call" and x[1] == ("x", "@slice")) < 2

    def can_raise(self, c):
        return False

    def opaque(self, f):
        return not self.follow(f)

    def follow(self, f):
        return f.parent is not None or f.cls is None or f.cls.qual in self.family

    def force_inline(self, f):
        return self.follow(f) and f.name not in ("__eq__", "__lt__")

    def builder(self, t):
        return t[0] == "hb"

    def on_call(self, c, st, eng):
        if c.ext == "hash" and len(c.args) == 1:
            return Take(normal=[(("h", c.args[0]), st)])
        if c.cls is not None and c.cls.name == BUILDER:
            t = ("hb", c.fr.fid, c.loc)
            return Take(normal=[(t, st.with_ps(tuple(x for x in st.ps if x[0] != t) + ((t, ()),)))])
        if c.recv is not None and c.recv[0] == "hb":
            seq = dict(st.ps).get(c.recv, ())
            if c.name == "build":
                return Take(normal=[(("built", seq), st)])
            kw = tuple(sorted((k, v) for k, v in c.kwargs.items()))
            new = [(c.name, tuple(c.args), kw)]
            if c.name == "regulars":
                new = [("regular", (a,), ()) for a in c.args]
            return Take(normal=[(c.recv, st.with_ps(tuple(x for x in st.ps if x[0] != c.recv) + ((c.recv, seq + tuple(new)),)))])
        if c.ext in ("dataclasses.replace", "copy.replace") and c.args:
            base = c.args[0]
            ty = eng.type_of(base, st)
            if ty and ty[0] == "cls" and ty[1] in eng.p.classes:
                t = ("rep", base, tuple(sorted(c.kwargs.items())))
                s = st.copy()
                eng.tmap[t] = ty
                for f in Methods(eng.p).fields(eng.p.classes[ty[1]], "all"):
                    s.heap[("fld", t, f)] = c.kwargs.get(f) or st.heap.get(("fld", base, f)) or ("a", base, f)
                return Take(normal=[(t, s)])
        if c.ext == "isinstance" or c.ext in BUILTIN_FOLD:
            return None
        if c.func is not None and self.follow(c.func) and c.func.name not in ("__eq__", "__lt__"):
            return None
        if c.cls is not None or c.clos is not None or c.ext in ("typing.cast", "super"):
            return None
        if c.func is None and c.ext is None and c.recv is not None and c.name in ("append", "add", "extend", "update", "insert", "pop", "remove", "sort"):
            return None
        if c.ext in ("list", "tuple", "set", "frozenset", "dict", "sorted", "any", "all", "len", "zip", "enumerate", "range", "type", "getattr"):
            if c.ext in ("any", "all", "type", "getattr", "range", "enumerate", "zip"):
                return None
            return Take(normal=[(("call", ("x", c.ext), None, tuple(c.args), tuple(sorted(c.kwargs.items()))), st)])
        return Take(normal=[(self.literal(c.term(), st), st)])

    def literal(self, t, st):
        """containers of constants are values: the same display makes equal ones each time"""
        if t[0] == "cont":
            r = st.heap.get(t, frozenset())
            parts = [el for el, _ in r] if isinstance(r, frozenset) else None
            if parts is not None:
                parts += [x for k, v in st.heap.items() if k[:2] == ("item", t) for x in (k[2], v) if isinstance(x, tuple)]
                if parts and not any(y[0] in ("p", "cont", "elem", "new") for x in parts for y in subterms(x)):
                    return ("literal", t[1], t[2][1:], frozenset(parts))
            return t
        if t[0] == "call" and any(y[0] == "cont" for y in subterms(t)):
            return (*t[:2], t[2] and self.literal(t[2], st), tuple(self.literal(x, st) for x in t[3]), *t[4:])
        return t

    def on_with(self, node, fr, term, st, eng):
        return None


BUILTIN_FOLD = {"bool"}


# ---------------------------------------------------------------- the equality relation of a path
class Relation:
    def __init__(self, st, eng, meth, selfs):
        self.st, self.eng, self.m, self.selfs = st, eng, meth, selfs
        self.up = {}
        self.zup = {}
        self.feasible = True
        for l in st.facts:
            if l[0] == "zeq":
                self.join(self.zup, l[1], l[2])
        todo = [(l[1], l[2]) for l, (pol, _) in st.facts.items() if l[0] == "eq" and pol]
        while todo:
            a, b = todo.pop()
            if a[0] == "tup" and b[0] == "tup":
                if len(a[1]) != len(b[1]):
                    self.feasible = False
                todo += list(zip(a[1], b[1]))
            if a[0] == "cont" and b[0] == "cont":
                ra, rb = self.recs(a), self.recs(b)
                if ra is not None and rb is not None and len(ra) == len(rb) == 1:
                    todo.append((ra[0], rb[0]))
            self.join(self.up, a, b)
            x, y = self.unpad(a), self.unpad(b)
            if x is not None and y is not None:
                self.join(self.zup, x, y)
        self.close()
        self.check()

    def canon(self, t):
        if not isinstance(t, tuple):
            return t
        if t in self.up:
            return self.find(self.up, t)
        return tuple(self.canon(x) for x in t)

    def close(self):
        """equal arguments give equal values"""
        terms = {x for l in self.st.facts for x in subterms(l) if x[0] in ("s", "a", "call", "op", "elem")} | set(self.up)
        for _ in range(6):
            seen, changed = {}, False
            for t in terms:
                k = tuple(self.canon(x) for x in t)
                o = seen.setdefault(k, t)
                if o != t and not self.same(o, t) and not self.has_unknown(t):
                    self.join(self.up, o, t)
                    changed = True
            if not changed:
                return

    def find(self, up, t):
        while up.get(t, t) != t:
            t = up[t]
        return t

    def join(self, up, a, b):
        up.setdefault(a, a)
        up.setdefault(b, b)
        ra, rb = self.find(up, a), self.find(up, b)
        if ra != rb:
            if ra[0] == "c":
                up[rb] = ra
                if rb[0] == "c" and ra[2] != rb[2]:
                    self.feasible = False
            else:
                up[ra] = rb

    def check(self):
        val = {}
        for l, (pol, _) in self.st.facts.items():
            if not self.has_unknown(l) and val.setdefault((l[0], tuple(self.canon(x) for x in l[1:])), pol) != pol:
                self.feasible = False
            if l[0] == "eq" and not pol and self.same(l[1], l[2]):
                self.feasible = False
            if l[0] == "eq" and not pol:
                for m, n in (l[1:], l[:0:-1]):
                    if m[0] == "call" and m[1] in (("x", "max"), ("x", "min")) and n in m[3] and \
                            all(self.st.facts.get(("eq",) + tuple(sorted((m, x), key=repr)), (True,))[0] is False for x in m[3]):
                        self.feasible = False
            if l[0] in ("truthy", "isnone"):
                r = self.find(self.up, l[1])
                if val.setdefault((l[0], r), pol) != pol:
                    self.feasible = False
                if r[0] == "c" and (bool(r[2]) if l[0] == "truthy" else r[2] is None) != pol:
                    self.feasible = False
        for (k, r), pol in list(val.items()):
            if k == "isnone" and pol and val.get(("truthy", r)) is True:
                self.feasible = False

    def same(self, a, b):
        return a == b or self.find(self.up, a) == self.find(self.up, b)

    def recs(self, c):
        r = self.st.heap.get(c)
        return sorted((x[0] for x in r), key=repr) if isinstance(r, frozenset) else None

    # --- tuples of numbers that are compared up to trailing zeros
    def unpad(self, t, d=0):
        """X when t is X, X followed by zeros, or X without (some of) its trailing zeros"""
        if d > 12:
            return None
        if t[0] == "op" and t[1] == "+" and len(t) == 4:
            z = t[3]
            if z[0] == "op" and z[1] == "*" and any(q == ("tup", (const(0),)) for q in z[2:]) or z[0] == "tup" and all(q == const(0) for q in z[1]):
                return self.unpad(t[2], d + 1)
            if z[0] == "op" and z[1] == "*" and any(q[0] == "cont" and self.recs(q) == [const(0)] for q in z[2:]):
                return self.unpad(t[2], d + 1)
        if self.is_cut(t):
            return self.unpad(t[3][0], d + 1)
        if t[0] == "unk":
            os = {self.unpad(x, d + 1) for x in self.eng.origins.get(t, ())} - {None}
            if len(os) == 1:
                return os.pop()
            return None
        if t[0] in ("a", "p", "s"):
            return t
        return None

    def is_cut(self, t):
        return t[0] == "call" and t[1] == ("x", "@slice") and t[3][1][0] == "op" and t[3][1][2] in (NONE, const(0)) and t[3][1][4] == NONE

    def stripped(self, t):
        if t[0] == "unk" or self.is_cut(t) and (self.is_cut(t[3][0]) or t[3][1][3][0] != "c"):
            return True      # left a loop that removes zeros (the condition was merged away)
        n = ("call", ("x", "len"), None, (t,), ())
        for l, (pol, _) in self.st.facts.items():
            if l[0] == "eq" and not pol and set(l[1:]) == {("s", t, const(-1)), const(0)}:
                return True
            if l == ("truthy", ("s", t, const(-1))) and pol:
                return True
            if l == ("lt", const(1), n) and not pol or l == ("lt", n, const(2)) and pol or l[0] == "eq" and pol and set(l[1:]) == {n, const(1)}:
                return True
            if l == ("truthy", t) and not pol:
                return True
        return False

    def zero_free(self, t):
        """t with every part that is X without its trailing zeros written as such"""
        if not isinstance(t, tuple):
            return t
        if t and isinstance(t[0], str):
            x = self.unpad(t)
            if x is not None and x[0] == "a" and self.stripped(t):
                return ("zs", x)
        return tuple(self.zero_free(x) for x in t)

    # --- types
    def texty(self, t):
        """may the text of two equal values of this kind differ"""
        ty = self.eng.type_of(t, self.st)
        return self._texty(ty)

    def _texty(self, ty):
        if not ty:
            return False
        if ty[0] == "cls" and ty[1] in self.eng.p.classes:
            fam = [self.eng.p.classes[ty[1]]] + list(self.eng.p.all_subclasses(self.eng.p.classes[ty[1]])) \
                if hasattr(self.eng.p, "all_subclasses") else self.family(self.eng.p.classes[ty[1]])
            return any(self.m.effective(c, "__eq__")[0] == "def" for c in fam)
        if ty[0] in ("set",):
            return True
        if ty[0] in ("list", "iter"):
            return self._texty(ty[1])
        if ty[0] == "dict":
            return True
        return False

    def family(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop()
            if c not in out:
                out.append(c)
                todo += c.subclasses
        return out

    def unordered(self, t):
        ty = self.eng.type_of(t, self.st)
        if t[0] == "cont" and t[1] in ("set", "dict"):
            return True
        if t[0] == "call" and t[1][0] == "x" and t[1][1] in ("set", "frozenset", "dict"):
            return True
        if t[0] == "call" and call_name(t) in ("keys", "items", "values") and t[2] is not None:
            return True
        return bool(ty) and ty[0] in ("set", "dict") or bool(ty) and ty[0] == "ext" and ty[1] in ("set", "frozenset", "dict")

    # --- are two terms equal under the relation
    def cong(self, a, b, d=0):
        if self.same(a, b) and not self.has_unknown(a):
            return True
        if d > 14:
            return True
        if a[0] == b[0] == "zs":
            return a[1] == b[1] or self.find(self.zup, a[1]) == self.find(self.zup, b[1])
        if a[0] == "phi" or b[0] == "phi":
            xs = a[1] if a[0] == "phi" else (a,)
            ys = b[1] if b[0] == "phi" else (b,)
            return all(any(self.cong(x, y, d + 1) for y in ys) for x in xs) and all(any(self.cong(x, y, d + 1) for x in xs) for y in ys)
        if a[0] != b[0]:
            return False
        rec = lambda x, y: self.cong(x, y, d + 1)
        k = a[0]
        if k == "h":
            return rec(a[1], b[1])
        if k == "c":
            return a[2] == b[2]
        if k == "tup":
            return len(a[1]) == len(b[1]) and all(rec(x, y) for x, y in zip(a[1], b[1]))
        if k == "kv":
            return rec(a[1], b[1]) and rec(a[2], b[2])
        if k == "built":
            return len(a[1]) == len(b[1]) and all(self.cong_step(x, y, rec) for x, y in zip(a[1], b[1]))
        if k == "elem":
            return rec(a[1], b[1])
        if k == "a":
            return a[2] == b[2] and a[1] not in self.selfs and rec(a[1], b[1]) and self.determined(a[1], a[2])
        if k == "s":
            return rec(a[1], b[1]) and rec(a[2], b[2]) and a[1] not in self.selfs
        if k == "op":
            return a[1] == b[1] and len(a) == len(b) and all(rec(x, y) for x, y in zip(a[2:], b[2:]))
        if k == "cont":
            if a[1] != b[1]:
                return False
            ra, rb = self.recs(a), self.recs(b)
            if ra is None or rb is None:
                return a == b
            return all(any(rec(x, y) for y in rb) for x in ra) and all(any(rec(x, y) for x in ra) for y in rb)
        if k == "fstr" or k == "fmt":
            xs = [x for x in a[1:] if isinstance(x, tuple)]
            ys = [x for x in b[1:] if isinstance(x, tuple)]
            return len(xs) == len(ys) and all(self.cong_text(x, y, rec) for x, y in zip(xs, ys))
        if k == "call":
            if a[1] != b[1] or len(a[3]) != len(b[3]):
                return False
            n = call_name(a) or ""
            if (a[2] is None) != (b[2] is None):
                return False
            pairs = list(zip(a[3], b[3])) + [(x[1], y[1]) for x, y in zip(a[4], b[4])]
            if a[2] is not None:
                pairs.append((a[2], b[2]))
            if n in ("id",):
                return False
            if n in TEXT and any(self.texty(x) for x, _ in pairs):
                return False
            if n in ORDERED and any(self.unordered(x) and len(self.recs(x) or (1, 2)) != 1 for x, _ in pairs):
                return False
            return all(rec(x, y) for x, y in pairs)
        return a == b and not self.has_unknown(a)

    def cong_text(self, x, y, rec):
        if x and not isinstance(x[0], str):
            return len(x) == len(y) and all(self.cong_text(p, q, rec) for p, q in zip(x, y) if isinstance(p, tuple))
        return not self.texty(x) and rec(x, y)

    def cong_step(self, x, y, rec):
        if x[0] != y[0] or len(x[1]) != len(y[1]):
            return False
        if x[0].startswith("ordered") and x[1] and self.unordered(x[1][0]):
            return False
        return all(rec(p, q) for p, q in zip(x[1], y[1])) and all(rec(p[1], q[1]) for p, q in zip(x[2], y[2]))

    def has_unknown(self, t):
        return any(x[0] == "unk" and not x[1:] in () for x in subterms(t))

    def determined(self, base, attr):
        ty = self.eng.type_of(base, self.st)
        if not ty or ty[0] != "cls" or ty[1] not in self.eng.p.classes:
            return True
        kind = self.m.effective(self.eng.p.classes[ty[1]], "__eq__")
        if kind[0] == "gen":
            return attr in self.m.fields(kind[1], "__eq__")
        return kind[0] == "identity"


def tag(t, n):
    """unknown values of the two evaluations are different values"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "unk":
        return ("unk", t[1], n)
    return tuple(tag(x, n) for x in t)


class Judge:
    def __init__(self, ctx):
        self.ctx, self.p, self.m = ctx, program(), Methods(program())

    def classes(self):
        for q in sorted(self.p.classes):
            c = self.p.classes[q]
            if c.module.name.split(".")[0] not in LIBRARY:
                continue
            e, h = self.m.effective(c, "__eq__"), self.m.effective(c, "__hash__")
            if e[0] in ("identity", "none", "unknown") or h[0] in ("none", "unknown"):
                continue
            yield c, e, h

    def family_of(self, c):
        out, todo = set(), [c]
        while todo:
            x = todo.pop()
            if x.qual in out:
                continue
            out.add(x.qual)
            todo += self.p.mro(x) + x.subclasses
        return out

    def judge(self, c, e, h):
        slf, oth = ("p", c.qual, "self"), ("p", c.qual, "other")
        rule = EqRule(self.family_of(c))
        eng = Engine(rule)
        eng.origins = {}
        eng.tmap[slf] = ("cls", c.qual)
        # 1. the ways in which self == other is true
        ends = []
        if e[0] == "gen":
            st = State((), {}, {}, {})
            for f in self.m.fields(e[1], "__eq__"):
                st.facts[("eq",) + tuple(sorted((("a", slf, f), ("a", oth, f)), key=repr))] = (True, True)
            others = [c]
            ends = [st]
            eng.tmap[oth] = ("cls", c.qual)
        else:
            f = e[1]
            if len(f.params) < 2:
                return
            o = eng.run(f, (), args={f.params[0]: slf, f.params[1]: oth}, self_cls=c.qual)
            for v, s in o.ret:
                if v == ("g", "NotImplemented"):
                    continue
                if v[0] == "phi":
                    self.ctx.count("classes_too_complex")
                    self.ctx.sample(f"{c.name}: equality has too many paths, not decided")
                    return
                x = eng.assume(s, v, True)
                if x is not None:
                    ends.append(x)
            ends = [s for s in ends if Relation(s, eng, self.m, (slf, oth)).feasible]
            ends = [self.digest(s, eng, slf, oth) for s in ends]
            ends = list({frozenset((k, v[0]) for k, v in s.facts.items()): s for s in ends}.values())
            others = [c] + [x for x in (self.p.classes[q] for q in self.below(c)) if self.m.effective(x, "__hash__") != h]
        self.ctx.analysed(eng)
        self.ctx.count("paths_that_find_equality", len(ends))
        # 2. the hashes of both in each of these states
        for st in ends:
            r0 = Relation(st, eng, self.m, (slf, oth))
            if not r0.feasible:
                continue
            if ("is",) and self.identical(st, slf, oth):
                continue
            for oc in others:
                if oc is not c and not self.may_be(st, oth, oc):
                    continue
                oh = h if oc is c else self.m.effective(oc, "__hash__")
                for t1, s1 in self.hash_of(eng, h, slf, c, st):
                    s1 = s1.copy()
                    s1.facts = {tag(k, 1): v for k, v in s1.facts.items()}
                    eng.origins.update({tag(k, 1): eng.origins.pop(k) for k in list(eng.origins) if len(k) == 2})
                    for t2, s2 in self.hash_of(eng, oh, oth, oc, s1):
                        rel = Relation(s2, eng, self.m, (slf, oth))
                        if not rel.feasible:
                            continue
                        self.ctx.count("hash_pairs_compared")
                        a, b = tag(t1, 1), tag(t2, 2)
                        eng.origins.update({tag(k, 2): eng.origins.pop(k) for k in list(eng.origins) if len(k) == 2})
                        if not rel.cong(a, b):
                            if DEBUG:
                                print(a, b, s2.facts, sep='\n', end='\n\n')
                            why = self.differing(rel, a, b)
                            self.ctx.finding("equal-hash", c.name,
                                             f"{c.name}: two values that __eq__ calls equal can have different hashes: the hash uses "
                                             f"{show(why[0])}, which equality does not determine on the path where "
                                             f"{self.describe(st)}", f"{c.module.rel}:{c.node.lineno}", s2.trace[-3:])
                            return

    def digest(self, st, eng, slf, oth):
        """the facts about the parts of the two objects, without the ones about lengths and padded copies"""
        s = st.copy()
        rel = Relation(st, eng, self.m, (slf, oth))
        s.facts = {}
        for l, v in st.facts.items():
            if any(x[0] == "call" and x[1] in (("x", "len"), ("x", "max"), ("x", "min")) or x[0] in ("op", "rep") or rel.is_cut(x) for x in subterms(l)):
                if l[0] == "eq" and v[0]:
                    x, y = rel.unpad(l[1]), rel.unpad(l[2])
                    if x is not None and y is not None and x != y:
                        s.facts[("zeq",) + tuple(sorted((x, y), key=repr))] = (True, True)
                    elif not (x is not None and x == y):
                        s.facts[l] = v
                continue
            s.facts[l] = v
        return s

    def below(self, c):
        out, todo = [], list(c.subclasses)
        while todo:
            x = todo.pop()
            if x.qual not in out:
                out.append(x.qual)
                todo += x.subclasses
        return out

    def may_be(self, st, oth, oc):
        for l, (pol, _) in st.facts.items():
            if l[0] == "isinst" and l[1] == oth and l[2][0] == "g" and l[2][1] in self.p.classes:
                if pol != self.p.is_subclass(oc.qual, l[2][1]):
                    return False
            if l[0] == "eq" and pol and any("__class__" in attrs_in(x) or has_call(x, "type") for x in l[1:]):
                return False
        return True

    def identical(self, st, a, b):
        return any(l[0] in ("eq", "is") and pol and set(l[1:3]) == {a, b} for l, (pol, _) in st.facts.items())

    def hash_of(self, eng, h, t, cls, st):
        if h[0] == "identity":
            return [(("h", ("id", t)), st)]
        if h[0] == "gen":
            return [(("h", ("tup", tuple(("a", t, f) for f in self.m.fields(h[1], "__hash__")))), st)]
        f = h[1]
        if "__hash__" == f.name and not any(isinstance(n, ast.Return) for n in walk_own(f.node)):
            return []      # abstract
        old = eng.tmap.get(t)
        eng.tmap[t] = ("cls", cls.qual)
        eng.steps = 0
        o = eng.run(f, (), args={f.params[0]: t}, self_cls=cls.qual, facts=st.facts, heap=st.heap)
        if old is not None:
            eng.tmap[t] = old
        self.ctx.analysed(eng)
        out = {}
        for v, s in o.ret:
            rel = Relation(s, eng, self.m, (t,))
            if rel.feasible:
                v, s = rel.zero_free(v), self.digest(s, eng, t, t)
                out[(v, frozenset((k, x[0]) for k, x in s.facts.items()))] = (v, s)
        return list(out.values())

    def differing(self, rel, a, b):
        """the smallest part of the hash that is not determined"""
        while True:
            if a[0] == "h" and b[0] == "h":
                a, b = a[1], b[1]
            elif a[0] == b[0] == "tup" and len(a[1]) == len(b[1]):
                x = [(p, q) for p, q in zip(a[1], b[1]) if not rel.cong(p, q)]
                if not x:
                    return a, b
                a, b = x[0]
            elif a[0] == b[0] == "built" and len(a[1]) == len(b[1]):
                x = [(p[1][0], q[1][0]) for p, q in zip(a[1], b[1]) if p[1] and q[1] and not rel.cong_step(p, q, lambda m, n: rel.cong(m, n))]
                if not x:
                    return a, b
                a, b = x[0]
                if rel.cong(a, b):
                    return a, b
            else:
                return a, b

    def describe(self, st):
        xs = [f"{show(l[1])} = {show(l[2])}" for l, (pol, _) in st.facts.items() if l[0] == "eq" and pol]
        return " and ".join(xs[:6]) or "nothing is compared"


def unordered_steps(ctx, p):
    """the order insensitive steps of the hash builder really are"""
    for c in p.classes.values():
        if c.name != BUILDER or c.module.name.split(".")[0] not in LIBRARY:
            continue
        for n, m in c.methods.items():
            if not n.startswith("unordered"):
                continue
            for loop in walk_own(m.node):
                if not isinstance(loop, ast.For):
                    continue
                names = {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}
                local = set()
                for x in ast.walk(loop):
                    if isinstance(x, ast.Assign):
                        for t in x.targets:
                            if isinstance(t, ast.Name) and not any(isinstance(y, ast.Name) and y.id == t.id for y in ast.walk(x.value)):
                                local.add(t.id)
                for x in ast.walk(loop):
                    if isinstance(x, ast.AugAssign):
                        ctx.count("order_insensitive_steps")
                        tgt = ast.unparse(x.target)
                        bad = not isinstance(x.op, (ast.BitXor, ast.Add, ast.BitAnd, ast.BitOr)) or \
                            any(ast.unparse(y) == tgt for y in ast.walk(x.value) if isinstance(y, (ast.Name, ast.Attribute)))
                        if bad and tgt not in names | local:
                            ctx.finding("order-sensitive", m.short, f"{m.short} combines its elements in an order dependent way", f"{m.module.rel}:{x.lineno}")
                    elif isinstance(x, ast.Assign):
                        for t in x.targets:
                            tt = ast.unparse(t)
                            if any(ast.unparse(y) == tt for y in ast.walk(x.value) if isinstance(y, (ast.Name, ast.Attribute))):
                                v = x.value
                                ok = isinstance(v, ast.BinOp) and isinstance(v.op, (ast.BitXor, ast.Add, ast.BitAnd, ast.BitOr)) and \
                                    sum(ast.unparse(y) == tt for y in ast.walk(v) if isinstance(y, (ast.Name, ast.Attribute))) == 1 and \
                                    tt in (ast.unparse(v.left), ast.unparse(v.right))
                                ctx.count("order_insensitive_steps")
                                if not ok:
                                    ctx.finding("order-sensitive", m.short, f"{m.short} combines its elements in an order dependent way",
                                                f"{m.module.rel}:{x.lineno}")


def check(ctx):
    p = program()
    j = Judge(ctx)
    ctx.rule("on every path on which __eq__ (written or generated) returns true for two objects, the hashes of the two objects are equal "
             "under exactly the equalities that the path established between their parts")
    ctx.assume("parts that are compared are values of types that satisfy this property themselves; parts do not change between the comparison and the hash")
    for c, e, h in j.classes():
        ctx.count("classes_judged")
        ctx.sample(f"{c.name}: eq {e[0]}, hash {h[0]}")
        j.judge(c, e, h)
    unordered_steps(ctx, p)
    ctx.at_least("classes_judged", 5)
    ctx.at_least("hash_pairs_compared", 5)
