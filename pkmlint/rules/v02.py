"""V02: version set operations leave their operands unchanged.

Every operation of the version and version specifier classes is followed with its receiver and arguments as symbolic
operands.  Each change of an object (attribute or item store, deletion, mutating container method, in place operator,
mutating library function) is reported when the changed object is an operand, a part of one, a module constant or the
result of another specifier operation (which may be an operand); objects the operation made itself are free.  Outside
of these classes, the whole program is searched for changes made through an expression of one of these types."""
from ..common import *

MUTATORS = {"append", "pop", "remove", "add", "sort", "extend", "update", "clear", "insert", "discard", "reverse",
            "appendleft", "extendleft", "popleft", "rotate", "setdefault", "popitem", "intersection_update",
            "difference_update", "symmetric_difference_update", "__setitem__", "__delitem__", "__iadd__", "__ior__",
            "__iand__", "__isub__", "__ixor__", "__setattr__", "__delattr__"}
MUTATING_EXT = {"heapq.heappush": 0, "heapq.heappop": 0, "heapq.heapify": 0, "heapq.heappushpop": 0, "heapq.heapreplace": 0,
                "bisect.insort": 0, "bisect.insort_left": 0, "bisect.insort_right": 0, "random.shuffle": 0,
                "object.__setattr__": 0, "object.__delattr__": 0, "delattr": 0, "operator.setitem": 0, "operator.delitem": 0,
                "operator.iadd": 0, "operator.ior": 0, "operator.iand": 0, "operator.isub": 0, "operator.ixor": 0}
PASS = {"iter", "reversed", "cast", "getattr", "next", "min", "max", "get", "__getitem__", "setdefault", "pop", "vars"}
COPY = {"copy.copy", "dataclasses.replace"}
MAKERS = {"__init__", "__post_init__", "__new__", "__setstate__", "__init_subclass__", "__class_getitem__"}
ROOTS = ("VersionSpecifier", "Version")


class Model:
    def __init__(self, ctx, p):
        self.p, self.ctx = p, ctx
        self.classes = []
        roots = [c for c in p.classes.values() if c.name in ROOTS and c.module.name.startswith("pkm.api.versions")]
        ctx.need(len(roots) == 2, "the version and version specifier classes")
        for c in p.classes.values():
            if any(p.is_subclass(c.qual, r.qual) for r in roots):
                self.classes.append(c)
        self.quals = {c.qual for c in self.classes}
        self.fields = {f for c in self.classes for f in c.fields}
        for c in self.classes:
            for m in c.methods.values():
                if m.name in MAKERS and m.params:
                    for n in walk_own(m.node):
                        for t in (n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) else []):
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == m.params[0]:
                                self.fields.add(t.attr)
        self.immutable = set()
        for f in self.fields:
            anns = [c.fields[f] for c in self.classes if f in c.fields]
            if anns and all(self.value_type(a) for a in anns):
                self.immutable.add(f)

    def value_type(self, a):
        """is this the annotation of an immutable value"""
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode="eval").body
            except SyntaxError:
                return False
        if isinstance(a, ast.Constant) and a.value is None:
            return True
        if isinstance(a, ast.Subscript):
            n = (dotted(a.value) or "").split(".")[-1]
            if n in ("Optional", "Union"):
                parts = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
                return all(self.value_type(x) for x in parts)
            return n in ("Tuple", "tuple", "FrozenSet", "frozenset")
        if isinstance(a, ast.BinOp):
            return self.value_type(a.left) and self.value_type(a.right)
        return (dotted(a) or "").split(".")[-1] in ("str", "int", "bool", "float", "bytes", "tuple", "frozenset", "None", "Path")

    def public(self, f):
        return f.cls is not None and f.cls.qual in self.quals and not f.is_static and not f.is_classmethod and \
            f.name not in MAKERS and (not f.name.startswith("_") or f.name.startswith("__") and f.name.endswith("__"))

    def sorted_field(self, fld):
        """list fields which their class keeps in natural order"""
        for c in self.classes:
            m = c.methods.get("__post_init__") or c.methods.get("__init__")
            if fld in c.fields and m is not None:
                for n in walk_own(m.node):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "sort" and not n.args and not n.keywords \
                            and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == fld:
                        return True
        return False


class R(Rule):
    tuples_are_values = True
    keep_all_facts = True
    max_states = 16
    max_depth = 6

    def __init__(self, m: Model, entry):
        self.m, self.entry = m, entry
        self.changes = 0

    def opaque(self, f):
        return f is not self.entry and self.m.public(f)

    def force_inline(self, f):
        return f.cls is not None and f.cls.qual in self.m.quals or f.module.name.startswith("pkm.api.versions")

    def can_raise(self, c):
        return False

    # -- is t an operand, a part of one, a constant, or what another operation returned
    def operand(self, t, eng, st, d=0, seen=()):
        """None, or a text that names the operand"""
        if d > 12 or t in seen:
            return None
        k = t[0]
        if k == "p":
            return t[2]
        if k == "g":
            return t[1].split(".")[-1] if t[1] in self.m.p.classes and t[1] in self.m.quals or self.singleton(t) else None
        if k == "a":
            if t[1][0] == "call" and t[1][1][1] in COPY and t[1][3]:
                r = self.operand(t[1][3][0], eng, st, d + 1, seen)
            else:
                r = self.operand(t[1], eng, st, d + 1, seen)
            return f"{r}.{t[2]}" if r else None
        if k == "s":
            r = self.operand(t[1], eng, st, d + 1, seen)
            return f"{r}[…]" if r else None
        if k == "elem":
            x = t[1]
            r = self.operand(x, eng, st, d + 1, seen)
            return f"an element of {r}" if r else None
        if k == "phi" or k == "unk" and t in eng.origins:
            for x in (eng.origins[t] if k == "unk" else t[1:]):
                for y in (x if isinstance(x, (tuple, frozenset)) and x and not isinstance(x[0] if isinstance(x, tuple) else "", str) else (x,)):
                    if isinstance(y, tuple) and y and isinstance(y[0], str):
                        r = self.operand(y, eng, st, d + 1, seen + (t,))
                        if r:
                            return r
            return None
        if k == "call":
            n = t[1][1] if isinstance(t[1][1], str) else ""
            if n in COPY:
                return None
            last = n.split(".")[-1]
            if n in self.m.p.funcs and (self.m.p.funcs[n].cls is not None and self.m.p.funcs[n].cls.qual in self.m.quals):
                return f"the result of {last}()"
            if t[1][0] == "x" and last in PASS:
                for x in ([t[2]] if t[2] is not None else []) + list(t[3]):
                    r = self.operand(x, eng, st, d + 1, seen)
                    if r:
                        return r
        return None

    def singleton(self, t):
        mod, _, name = t[1].rpartition(".")
        m = self.m.p.modules.get(mod)
        return m is not None and mod.startswith("pkm.api.versions") and name in getattr(m, "globals", {name: 1}) and t[1] not in self.m.p.funcs and t[1] not in self.m.p.classes

    def report(self, what, t, loc, st, key):
        self.m.ctx.finding(key[0], key[1], what, loc, trace=st.trace)

    def changed(self, t, how, st, loc, func, eng, fld=None):
        self.changes += 1
        r = self.operand(t, eng, st)
        if r:
            self.m.ctx.finding("operand-changed", f"{func.short}|{how}", f"{self.entry.short}: {how} changes {r}, which belongs to an operand of the operation", loc, trace=st.trace)

    def made_by(self, fr):
        """are we inside a constructor of one of the classes"""
        f = fr.func
        return f.cls is not None and f.cls.qual in self.m.quals and f.name in MAKERS

    def memo(self, t, name):
        return name not in self.m.fields

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        if kind == "global":
            return None
        loc = f"{fr.func.module.rel}:{node.lineno}"
        if kind in ("attr", "delattr"):
            if self.memo(base, key) or base[0] == "new":
                return None
            self.changed(base, f"assigning .{key}" if kind == "attr" else f"deleting .{key}", st, loc, fr.func, eng)
        else:
            if base[0] == "a" and base[2] == "__dict__" and key[0] == "c" and self.memo(base, key[2]):
                return None
            if base[0] == "a" and self.memo(base, base[2]) and base[2] != "__dict__":
                return None
            self.changed(base, "assigning an item" if kind == "sub" else "deleting an item", st, loc, fr.func, eng)
        return None

    def on_aug(self, cur, op, v, st, node, fr, eng):
        if cur[0] == "a" and cur[2] in self.m.immutable or cur[0] in ("c", "op", "fstr"):
            return None
        ty = eng.type_of(cur, st)
        if ty and ty[0] in ("list", "set", "dict") and not (cur[0] == "a" and cur[2] in self.m.immutable):
            self.changed(cur, f"{op}=", st, f"{fr.func.module.rel}:{node.lineno}", fr.func, eng)
        return None

    def on_call(self, c, st, eng):
        if c.func is None and c.recv is not None and c.name in MUTATORS:
            t = c.recv
            if t[0] == "a" and self.memo(t, t[2]) and t[2] != "__dict__":
                return None
            if c.name == "sort" and not c.args and not c.kwargs and t[0] == "a" and self.m.sorted_field(t[2]):
                return None      # already in this order
            if c.name in ("__setattr__", "__delattr__") and c.args and c.args[0][0] == "c" and self.memo(t, c.args[0][2]):
                return None
            if c.name == "setdefault" and len(c.args) and t[0] == "a" and t[2] == "__dict__" and c.args[0][0] == "c" and self.memo(t, c.args[0][2]):
                return None
            self.changed(t, f"{c.name}()", st, c.loc, c.fr.func, eng)
        elif c.ext in MUTATING_EXT and c.args:
            if c.ext.endswith("attr__") or c.ext == "delattr":
                if len(c.args) > 1 and c.args[1][0] == "c" and self.memo(c.args[0], c.args[1][2]):
                    return None
                if c.args[0][0] == "new":
                    return None
            self.changed(c.args[0], f"{c.ext.split('.')[-1]}()", st, c.loc, c.fr.func, eng)
        return None


def outside(ctx, m: Model, p):
    """changes through expressions whose type is one of the classes, made elsewhere"""
    ti = types()

    def owned(e, f):
        t = ti.expr_type(e, f)
        return bool(t) and t[0] == "cls" and t[1] in m.quals

    def part(e, f):
        """e is a field (or an item of a field) of such an object"""
        while isinstance(e, ast.Subscript):
            e = e.value
        return isinstance(e, ast.Attribute) and e.attr in m.fields and e.attr not in m.immutable and owned(e.value, f)

    for f in library_functions(p):
        if f.cls is not None and f.cls.qual in m.quals or outermost(f).cls is not None and outermost(f).cls.qual in m.quals:
            continue
        for n in walk_own(f.node):
            hit = None
            tg = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
            for t in tg:
                for x in ast.walk(t):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.attr in m.fields and owned(x.value, f):
                        hit = f"assigns .{x.attr}"
                    if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and part(x.value, f):
                        hit = "assigns an item"
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    ctx.count("mutator_calls_elsewhere")
                    if part(n.func.value, f):
                        hit = f"calls {n.func.attr}()"
                elif n.args and (part(n.args[0], f) or owned(n.args[0], f)):
                    q = resolve_name(f, n.func)
                    if q in MUTATING_EXT or q == "setattr":
                        hit = f"calls {q}()"
            if hit:
                ctx.finding("changed-elsewhere", f"{f.short}|{hit}", f"{f.short} {hit} of a version or version specifier", f"{f.module.rel}:{n.lineno}")


def check(ctx):
    p = program()
    m = Model(ctx, p)
    ctx.rule("no operation of a version or version specifier changes an object reachable from its operands, from a shared constant or "
             "from the result of another operation; no other code changes such an object either")
    ctx.assume("attributes that are not declared fields (memoized results) do not carry meaning")
    for c in m.classes:
        for f in c.methods.values():
            if not m.public(f):
                continue
            r = R(m, f)
            eng = Engine(r)
            eng.run(f, ())
            ctx.analysed(eng)
            ctx.count("operations_followed")
            ctx.count("changes_examined", r.changes)
            ctx.sample(f"{f.short}: {r.changes} changes")
    outside(ctx, m, p)
    ctx.at_least("operations_followed", 20)
