"""C03: what a class writes for serialization is what it restores.

For every class that customises how it is serialized, `__init__`, `__getstate__` and `__setstate__` are interpreted one after
the other on symbolic constructor arguments: an original object is built, its state is taken, and the state is handed to a
second, empty object.  Every field of the original must then hold the same value in the restored object."""
from ..common import *

HOOKS = ("__getstate__", "__setstate__")
COPIES = ("list", "tuple", "dict", "set", "frozenset", "copy")


class Interp(Rule):
    max_states = 40
    max_depth = 8
    term_depth = 14
    tuples_are_values = True
    lists_are_tuples = True

    def __init__(self):
        self.used = []

    def can_raise(self, c):
        return False

    def on_call(self, c, st, eng):
        self.used += [x for x in c.all_args() if isinstance(x, tuple)]

    def force_inline(self, f):
        return f.name in ("__init__",) + HOOKS and in_library(f) or f.is_property and f.cls is not None and len(f.body) <= 3 and \
            "cached" not in str(getattr(f, "decorators", "")) or f.cls is not None and f.name.startswith("_") and len(f.body) <= 4

    def opaque(self, f):
        return not in_library(f) or f.is_classmethod and f.name in ("load", "parse")

    def invoke_callbacks(self, c):
        return "no"


def in_library(f):
    return f.module.name.split(".")[0] in LIBRARY


def norm(t, objs):
    """a value, up to the identity of the object it belongs to, the place a container was created at, and conversions that
    restore the same value"""
    if not isinstance(t, tuple):
        return t
    if t in objs:
        return "SELF"
    if not t:
        return t
    if t[0] == "call":
        n = call_name(t)
        args = [norm(a, objs) for a in t[3]]
        if n == "Path" and len(args) == 1 and isinstance(args[0], tuple) and args[0][:2] == ("call", "str"):
            return args[0][3][0]
        if n in COPIES and len(args) == 1 and not t[4]:
            return args[0]
        if n in ("load", "parse") and len(args) == 1 and isinstance(args[0], tuple) and args[0][0] == "a" and args[0][2] == "path":
            return args[0][1]        # read again from the file it was read from
        return ("call", n, norm(t[2], objs) if t[2] is not None else None, tuple(args), tuple((k, norm(v, objs)) for k, v in t[4]))
    if t[0] == "a":
        return ("a", norm(t[1], objs), t[2].lstrip("_"))
    if t[0] == "cont":
        return ("cont", t[1])
    if t[0] == "new":
        return ("new", t[1])
    if t[0] == "op" and t[1] == "copy":
        return norm(t[2], objs)
    return tuple(norm(x, objs) for x in t)


def fields(st, obj):
    return {k[2]: v for k, v in st.heap.items() if isinstance(k, tuple) and len(k) == 3 and k[0] == "fld" and k[1] == obj}


class Pair:
    def __init__(self, ctx, c, init, get, put):
        self.ctx, self.c, self.init, self.get, self.put = ctx, c, init, get, put
        self.orig, self.rest = ("p", c.qual, "original"), ("p", c.qual, "restored")

    def run(self, f, args, heap=None, facts=None):
        self.rule = Interp()
        eng = Engine(self.rule)
        o = eng.run(f, frozenset(), args=dict(zip(f.params, args)), self_cls=self.c.qual, heap=heap, facts=facts)
        self.ctx.analysed(eng)
        return o.ret

    def judge(self):
        c, ctx = self.c, self.ctx
        where = f"{c.module.rel}:{self.put.node.lineno}"
        starts = [(None, State0)] if self.init is None else self.run(self.init, [self.orig])
        n = 0
        for _, s0 in starts:
            f0 = fields(s0, self.orig)
            got = [(S, s1) for S, s1 in self.run(self.get, [self.orig], dict(s0.heap), dict(s0.facts))]
            ends = []
            for S, s1 in got:
                for _, s2 in self.run(self.put, [self.rest, S], dict(s1.heap), dict(s1.facts)):
                    ends.append((S, s2, fields(s2, self.rest), self.rule.used))
            if not ends:
                continue
            if not f0:      # no constructor of its own: what it wrote must come back
                for S, s2, f2, used in ends:
                    for x in (S[1] if S[0] == "tup" else (S,)):
                        n += 1
                        if x[0] == "a" and x[1] == self.orig:
                            if f2.get(x[2]) != x:
                                ctx.finding("field-not-restored", f"{c.name}.{x[2]}", f"{c.name} writes {x[2]} when it is serialized but does not "
                                            f"restore it (it becomes {show(f2[x[2]])[:80] if x[2] in f2 else 'unset'})", where)
                        elif not any(mentions(y, x) for y in [*used, *f2.values()]):
                            ctx.finding("state-not-used", f"{c.name}.{show(x)[:40]}", f"{c.name} writes {show(x)[:80]} when it is serialized but does not "
                                        "use it when it is restored", where)
                continue
            objs = (self.orig, self.rest)
            for f, v in sorted(f0.items()):
                n += 1
                want = norm(v, objs)
                if not any(f in f2 and norm(f2[f], objs) == want for _, _, f2, _ in ends):
                    g = [f2[f] for _, _, f2, _ in ends if f in f2]
                    ctx.finding("field-not-restored", f"{c.name}.{f}", f"{c.name}.{f} is {show(v)[:60]} in the original but "
                                f"{show(g[0])[:80] if g else 'unset'} after it was serialized and restored", where)
        ctx.count("fields_compared", n)
        ctx.sample(f"{c.name}: {n} field values compared")


class _S0:
    heap, facts = {}, {}


State0 = _S0()


def instance_hooks(ctx, p):
    """a hook that is stored on the instance belongs to no class"""
    for f in p.funcs.values():
        if not in_library(f):
            continue
        for n in walk_own(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in HOOKS + ("__reduce__", "__reduce_ex__"):
                ctx.finding("hook-on-instance", f"{f.short}.{n.attr}", f"{f.short} sets {n.attr} on a single object: whether the object can be restored depends "
                            "on which of them it is", f"{f.module.rel}:{n.lineno}")


def check(ctx):
    p = program()
    ctx.rule("building an object, taking its state and restoring a second object from that state gives every field the value it had")
    instance_hooks(ctx, p)
    for c in sorted(p.classes.values(), key=lambda c: c.qual):
        if c.module.name.split(".")[0] not in LIBRARY:
            continue
        get, put = (p.find_method(c, h) for h in HOOKS)
        if not any(h in k.methods for h in HOOKS for k in p.mro(c)):
            continue
        if get is not None and get.is_abstract:
            get = None
        if put is not None and put.is_abstract:
            put = None
        if get is None and put is None:
            continue
        if not any(h in c.methods for h in HOOKS + ("__init__",)):
            continue
        if get is None or put is None:
            ctx.finding("one-sided", c.name, f"{c.name} defines {'__setstate__' if put else '__getstate__'} without its counterpart: what it restores is "
                        "not what was written", f"{c.module.rel}:{c.node.lineno}")
            continue
        if get.is_abstract or put.is_abstract:
            continue
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert", "update", "pop")
               for n in walk_own(get.node)):
            ctx.count("classes_not_decided")
            ctx.sample(f"{c.name}: not decided, the state is assembled step by step")
            continue
        init = p.find_method(c, "__init__")
        Pair(ctx, c, init, get, put).judge()
        ctx.count("classes_judged")
    ctx.at_least("classes_judged", 8)
    ctx.at_least("fields_compared", 15)
