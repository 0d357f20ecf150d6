"""P01: parsing ends for every text.  All parsers move one position through one text.  Every loop of every parser method is followed
from the start of its body back to the start of its body: on the way at least one character must have been taken, counting only what
the primitive operations guarantee (`match` that succeeded, `next` before the end, ...).  A method must also not reach itself again
before it has taken a character.  Methods are summarised by what they can have taken when they return."""
from ..common import *

PRIM = {"peek", "peek_prev", "next", "match", "match_any", "match_or_err", "match_ws", "until", "until_match", "is_empty",
        "is_not_empty", "read_digits", "raise_err", "subparser", "match_line", "read_url"}
END, SOME = False, True


def plain_end(t):
    """a text that was put together is known not to end with an escape"""
    if t[0] == "phi":
        return all(plain_end(x) for x in t[1])
    if t[0] == "op" and t[1] == "+":
        return plain_end(t[2] if t[3] == const("") else t[3])
    if t[0] == "c":
        return isinstance(t[2], str) and t[2] != "" and not t[2].endswith("\\")
    return t[0] == "call" and t[1] in (("x", "@next"), ("x", "@matched"))


TESTS = ("isalpha", "isalnum", "isdigit", "isnumeric", "isspace", "isidentifier", "isdecimal", "isupper", "islower")
CHARS = [chr(i) for i in range(128)] + ["\u00e9", "\u0416", "\u0663", "\u00b2", "\u2003", "\u4e2d"]
PEEK = ("call", ("x", "@peek"), None, (), ())


class Unknown(Exception):
    pass


def stops(e, x):
    """the value of a condition about one character"""
    if isinstance(e, ast.Subscript):
        return x
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return not stops(e.operand, x)
    if isinstance(e, ast.BoolOp):
        vs = [stops(v, x) for v in e.values]
        return all(vs) if isinstance(e.op, ast.And) else any(vs)
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        a, b = stops(e.left, x), stops(e.comparators[0], x)
        op = e.ops[0]
        if isinstance(op, (ast.Eq, ast.NotEq)):
            return (a == b) == isinstance(op, ast.Eq)
        if isinstance(op, (ast.In, ast.NotIn)):
            return (a in b) == isinstance(op, ast.In)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in TESTS and not e.args:
        return getattr(stops(e.func.value, x), e.func.attr)()
    raise Unknown()


class Progress(Rule):
    """ps: (text left: None unknown / SOME / END, not at white space, taken since the entry, loops in which nothing was taken)"""
    keep_all_facts = True
    max_states = 60

    def __init__(self, an, f, first, nw):
        self.an, self.f, self.first, self.nw = an, f, first, nw
        self.whiles = {}
        for w in ast.walk(f.node):
            if isinstance(w, ast.While):
                for x in ast.walk(w):
                    self.whiles.setdefault(id(x), set()).add((w.lineno, w.col_offset))

    def start(self):
        return (self.first, self.nw, False, frozenset())

    def can_raise(self, c):
        return False

    def opaque(self, f):
        return not self.an.parser(f)

    def force_inline(self, f):
        return f.parent is not None

    def left(self, st, eng, c):
        """the two cases: nothing is left, something is left"""
        ne, nw, used, pend = st.ps
        out = []
        for v in ((ne,) if ne is not None else (END, SOME)):
            out.append((v, st.with_ps((v, nw and v, used, pend))))
        return out

    def taken(self, st, nw=False, ne=None):
        return self.forget(st.with_ps((ne, nw, True, frozenset())))

    def forget(self, st):
        """the current character is another one"""
        gone = [l for l in st.facts if any(x == PEEK or x[0] == "a" and x[2] == "position" for y in l[1:] if isinstance(y, tuple) for x in subterms(y))]
        if gone:
            st = st.copy()
            for l in gone:
                del st.facts[l]
        return st

    def on_call(self, c, st, eng):
        n, f = c.name, c.func
        if n == "rstrip" and c.recv is not None and plain_end(c.recv):
            return Take(normal=[(c.recv, st)])
        if f is None and n is not None and c.recv is not None and (n.startswith("read_") or n.startswith("_read_")):
            fs = [m for k in self.an.classes for m in [k.methods.get(n)] if m is not None]
            f = fs[0] if len(fs) == 1 else None
        if f is None or not self.an.parser(f):
            return None
        if f.cls is self.an.base and f.name in PRIM:
            return self.primitive(c, st, eng)
        if f.parent is not None or f.is_static:
            return None
        ne, nw, used, pend = st.ps
        if not used:
            self.an.edges.setdefault(self.f.qual, {}).setdefault(f.qual, c.where)
        out = []
        here = frozenset((l, pol) for l, (pol, _) in st.facts.items()
                         if l[0] in ("eq", "in") and PEEK in l[1:] and any(x[0] == "c" for x in l[1:])
                         or l[0] == "truthy" and l[1][0] == "call" and l[1][2] == PEEK and call_name(l[1]) in TESTS)
        for (v, w, took) in self.an.summary(f, ne, nw, here):
            s = self.taken(st, w, v) if took else st.with_ps((v if v is not None else ne, w or nw and v is not END, used, pend))
            out.append((c.term(), s))
        return Take(normal=out)

    def primitive(self, c, st, eng):
        n = c.name
        self.an.touch.add(self.f.qual)
        ne, nw, used, pend = st.ps
        if n == "raise_err":
            return Take(normal=[], raises=[(("exc", None, None), st)])
        if n in ("peek_prev", "subparser"):
            return Take(normal=[(c.term(), st)])
        if n in ("is_empty", "is_not_empty"):
            return Take(normal=[(const((v is SOME) == (n == "is_not_empty")), s) for v, s in self.left(st, eng, c)])
        if n == "peek":
            out = []
            for v, s in self.left(st, eng, c):
                if v is END:
                    out.append((const(""), s))
                else:
                    out.append((PEEK if not c.args or c.args[0] == const(1) else ("call", ("x", "@peeks"), None, (), ()), s))
            return Take(normal=out)
        if n == "next":
            return Take(normal=[(const(""), s) if v is END else (("call", ("x", "@next"), None, (), ()), self.taken(s))
                                for v, s in self.left(st, eng, c)])
        if n in ("match", "match_any", "match_or_err"):
            first = c.arg(0)
            empty = first is not None and first == const("")
            out = []
            if ne is not END or empty:
                got = first if n == "match" and first is not None and first[0] == "c" and len(c.args) == 1 else \
                    ("call", ("x", "@matched"), None, (), ())
                s = self.taken(st) if not empty else st
                if got[0] == "call":
                    s = eng.assume_lit(s, ("truthy", got), True) or s
                out.append((NONE if n == "match_or_err" else got, s))
            if n == "match_or_err":
                return Take(normal=out, raises=[(("exc", None, None), st)])
            out.append((NONE, st))
            return Take(normal=out)
        if n == "match_ws":
            arg = c.arg(0, "allow_new_lines")
            every = arg is None or arg == const(True)
            out = [] if nw else [(("call", ("x", "@ws"), None, (), ()), self.taken(st, nw=every))]
            if ne is END:
                out = []
            out.append((const(""), st.with_ps((ne, nw or every, used, pend))))
            return Take(normal=out)
        if n == "until_match":
            out = [] if ne is END else [(("call", ("x", "@until"), None, (), ()), self.taken(st, ne=SOME))]
            sub = c.arg(0)
            if ne is END or not any(l[0] == "in" and pol and l[1] == sub for l, (pol, _) in st.facts.items()):
                out.append((const(""), st))
            return Take(normal=out)
        if n == "until":
            out = []
            if ne is not END:
                out.append((("call", ("x", "@until"), None, (), ()), self.taken(st)))
            if not (ne is SOME and self.never_at_once(c, st)):
                out.append((const(""), st))
            return Take(normal=out)
        # digits, a line, an address: at least one character, or an error
        out = [] if ne is END else [(c.term(), self.taken(st))]
        return Take(normal=out, raises=[(("exc", None, None), st)])

    def never_at_once(self, c, st):
        """the condition to stop is false at the current character, whatever that is after what was tested"""
        arg = c.node.args[0] if c.node.args else None
        if not isinstance(arg, ast.Lambda):
            return False
        left = [x for x in CHARS if not (st.ps[1] and x.isspace())]
        for l, (pol, _) in st.facts.items():
            if l[0] == "eq" and PEEK in l[1:]:
                o = l[2] if l[1] == PEEK else l[1]
                if o[0] == "c":
                    left = [x for x in left if (x == o[2]) == pol]
            elif l[0] == "in" and l[1] == PEEK and l[2][0] == "c" and isinstance(l[2][2], str):
                left = [x for x in left if (x in l[2][2]) == pol]
            elif l[0] == "truthy" and l[1][0] == "call" and l[1][2] == PEEK and call_name(l[1]) in TESTS:
                left = [x for x in left if bool(getattr(x, call_name(l[1]))()) == pol]
        try:
            return not any(stops(arg.body, x) for x in left)
        except Unknown:
            return False

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        if kind == "attr" and key == "position":
            if not (value is None or value[0] == "a" and value[2] == "position" or value[0] == "op" and value[1] == "-"):
                return self.taken(st)    # moved on by something that was measured
            # the position is put back: what was taken may be gone
            return self.forget(st).with_ps((None, False, False, frozenset(self.whiles.get(id(node), ()))))

    def on_term(self, t):
        """of a text that is put together only the end matters"""
        if t[0] == "op" and t[1] == "+":
            a, b = t[2], t[3]
            if b == const("") and a[0] in ("op", "c"):
                return a
            if b[0] == "op" and b[1] == "+":
                b = b[3]
            return ("op", "+", const("..."), b)
        return t

    def on_while(self, node, st, fr, eng, entering):
        key = (node.lineno, node.col_offset)
        ne, nw, used, pend = st.ps
        if entering:
            return st.with_ps((ne, nw, used, pend - {key}))
        where = f"{fr.func.module.rel}:{node.lineno}"
        self.an.loops.add(where)
        more = any(l[0] == "lt" and pol and l[1][0] == "a" and l[1][2] == "position" for l, (pol, _) in st.facts.items())
        if more and ne is not END:
            st = st.with_ps((SOME, nw, used, pend | {key}))
        if key in pend and not (more and ne is END):
            self.an.stuck.setdefault(where, (self.f, st.trace if hasattr(st, "trace") else None))
            return st
        return st.with_ps(st.ps[:3] + (pend | {key},))


class Analysis:
    def __init__(self, ctx):
        self.ctx, self.prog = ctx, program()
        self.base = next((c for c in self.prog.classes.values() if c.name == "SimpleParser"), None)
        self.classes, todo = [], [self.base]
        while todo:
            k = todo.pop()
            if k is not None and k not in self.classes:
                self.classes.append(k)
                todo += k.subclasses
        self.memo, self.active = {}, set()
        self.edges, self.loops, self.stuck, self.touch = {}, set(), {}, set()

    def parser(self, f):
        g = f
        while g.parent is not None:
            g = g.parent
        return g.cls is not None and g.cls in self.classes

    def summary(self, f, first, nw=False, here=frozenset()):
        k = (f.qual, first, nw, here)
        if k in self.memo:
            return self.memo[k]
        if k in self.active:
            return {(None, False, True)}    # by induction: a cycle that takes nothing is reported on its own
        self.active.add(k)
        rule = Progress(self, f, first, nw)
        eng = Engine(rule, self.prog)
        out = eng.run(f, rule.start(), self_cls=f.cls.qual, facts={l: (pol, True) for l, pol in here})
        self.ctx.analysed(eng)
        self.ctx.count("ways_out_of_parser_methods", len(out.ret) + len(out.exc))
        self.active.discard(k)
        res = {(s.ps[0], s.ps[1], s.ps[2]) for _, s in out.ret} | {(s.ps[0], s.ps[1], s.ps[2]) for s in out.normal}
        self.memo[k] = res
        return res


def check(ctx):
    p = program()
    an = Analysis(ctx)
    ctx.need(an.base, "the base class of the parsers")
    for k in an.classes:
        for f in k.methods.values():
            if k is an.base and f.name in PRIM - {"match_ws"} or f.is_static or f.name.startswith("__") or \
                    "property" in f.decorators or any("setter" in d or "classmethod" in d for d in f.decorators):
                continue
            an.summary(f, None)
    for where, (f, trace) in sorted(an.stuck.items()):
        ctx.finding("no-progress", f.short, f"a round of the loop can end where it started without taking a character of the text: "
                    "parsing does not end", where)
    ctx.count("parser_loops", len(an.loops))
    # a method that is reached again before a character was taken
    def reach(a):
        seen, todo = set(), list(an.edges.get(a, ()))
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += an.edges.get(x, ())
        return seen
    for a in sorted(an.edges):
        if a in an.touch and a in reach(a):
            where = next((w for b, w in an.edges[a].items() if b == a or a in reach(b)), "")
            ctx.finding("endless-recursion", a.rsplit(".", 2)[-2] + "." + a.rsplit(".", 1)[-1],
                        "the method can reach itself again without having taken a character of the text", where)
