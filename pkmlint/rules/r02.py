"""R02: the solver's partial solution is undone exactly.  (1) `backtrack` leaves in each index exactly the entries whose level
is not above the one it is given: one arbitrary entry of each index is followed through it; (2) an assignment is entered into
every index, and a requirement keeps the level at which it was first required; (3) what is assigned after a backtrack was
computed after it; (4) an assignment that is made only to try something is taken back before anything else happens; (5) a
conflict's incompatibility is registered before it is used as a cause, and nothing is ever removed from the registered ones."""
from ..common import *

PUB = "pkm.resolution.pubgrub"
SHRINK = {"pop", "remove", "clear", "popitem", "discard", "popleft", "__delitem__"}
STATE = {"backtrack", "assign", "require", "make_assignment"}
COPYING = {"list", "tuple", "sorted", "reversed", "iter", "set", "frozenset"}


def container_fields(p, cls):
    """the indexes: fields that hold assignments, or levels, by something; -> name -> number of containers around the entry"""
    r = {}
    for m in cls.methods.values():
        for n in walk_own(m.node):
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute):
                t, d, cur = ast.unparse(n.annotation).replace("'", "").replace('"', ""), 0, n.annotation
                if isinstance(cur, ast.Constant) and isinstance(cur.value, str):
                    cur = ast.parse(cur.value, mode="eval").body
                while isinstance(cur, ast.Subscript):
                    d += 1
                    cur = cur.slice.elts[-1] if isinstance(cur.slice, ast.Tuple) else cur.slice
                leaf = cur.value if isinstance(cur, ast.Constant) else getattr(cur, "id", getattr(cur, "attr", None))
                if d and leaf in ("Assignment", "int"):
                    r[n.target.attr] = d
    return r


class Undo(Rule):
    """backtrack; ps: entries kept (entry, container), entries removed"""
    keep_all_facts = True
    tuples_are_values = True
    max_states = 80

    def __init__(self, ctx, entry, fields):
        self.ctx, self.entry, self.fields = ctx, entry, fields
        self.slf, self.level = ("p", entry.qual, entry.params[0]), ("p", entry.qual, entry.params[1])
        self.stored, self.built, self.unjudged, self.bad = {}, set(), {}, {}
        self.popped, self.ends, self.links, self.feeds = {}, [], set(), set()

    def can_raise(self, c):
        return False

    def opaque(self, f):
        return f.cls is not None and f.cls is not self.entry.cls

    # ---- entries
    def field_of(self, t):
        """the index that t is part of the content of"""
        return next((x[2] for x in subterms(t) if x[0] == "a" and x[1] == self.slf and x[2] in self.fields), None)

    def leaf(self, el):
        """the entry an iterated element stands for: (entry, field)"""
        for x in subterms(el):
            if x[0] != "elem":
                continue
            f = self.field_of(x)
            if f is None:
                continue
            base = ("a", self.slf, f)
            depth_ = sum(1 for y in subterms(x) if y[0] == "elem" and mentions(y, base))
            if depth_ == self.fields[f]:
                return x, f
        return None

    def literal(self, el, st):
        """True: made after the level, False: not, None: not looked at"""
        for lit, (pol, _) in st.facts.items():
            if lit[0] == "lt":
                if lit[1] == self.level and self.level_of(lit[2], el):
                    return pol
                if lit[1][0] == "op" and lit[1][1] == "+" and self.level in lit[1][2:] and const(1) in lit[1][2:] and self.level_of(lit[2], el):
                    if not pol:
                        return False
                if lit[2][0] == "op" and lit[2][1] == "+" and self.level in lit[2][2:] and const(1) in lit[2][2:] and self.level_of(lit[1], el):
                    return not pol
                if lit[2] == self.level and self.level_of(lit[1], el) and pol:
                    return False
        return None

    def level_of(self, t, el):
        if t[0] == "a":
            return "level" in t[2] and mentions(t[1], el)
        return t[0] in ("s", "elem") and mentions(t, el) and self.field_of(t) in self.fields

    @staticmethod
    def root(cont):
        while cont[0] == "s":
            cont = cont[1]
        return cont

    def where(self, node, fr):
        return f"{fr.func.module.rel}:{getattr(node, 'lineno', 0)}"

    # ---- events
    def on_iter(self, it, el, st, node, fr, eng):
        lf = self.leaf(el)
        if lf is None:
            return None
        return st.with_ps(tuple(frozenset(k for k in part if not mentions(k[0], lf[0])) for part in st.ps))

    def add(self, cont, value, st, node, fr):
        kept, gone, settled = st.ps
        out = set()
        for x in [value] + [y for y in subterms(value)]:
            lf = self.leaf(x) if x[0] in ("elem", "kv", "tup", "s") else None
            if lf:
                out.add((lf[0], self.root(cont)))
                for e, c in settled:        # from another container into this one
                    if e == lf[0] and c != self.root(cont):
                        self.feeds.add((c, self.root(cont)))
                self.built.add((lf[1], self.root(cont)))
                if self.literal(lf[0], st) is None:
                    self.unjudged.setdefault((lf[1], self.root(cont)), (self.where(node, fr), st.trace[-3:]))
        f = self.field_of(value)
        if not out and f is not None and self.fields[f] > 1 and value[0] == "s":        # a whole inner list
            self.built.add((f, self.root(cont)))
            self.unjudged.setdefault((f, self.root(cont)), (self.where(node, fr), st.trace[-3:]))
        return st.with_ps((kept | out, gone, settled)) if out else None

    def on_add(self, cont, value, st, node, fr, eng):
        if value is None:
            return None
        return self.add(cont, value, st, node, fr)

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        if kind == "attr" and base == self.slf and key in self.fields:
            self.stored.setdefault(key, []).append((value, self.where(node, fr), st))
            return None
        if kind == "sub":
            f = self.field_of(base)
            inplace = base[0] in ("a", "s", "elem") and f is not None and self.root_field(base)
            if inplace and key[0] == "op" and key[1] == "slice":
                self.stored.setdefault(f, []).append((value, self.where(node, fr), st))
                return None
            if inplace and value is not None:
                self.stored.setdefault(f, []).append((value, self.where(node, fr), st))
                return None
            if value is not None:
                f2 = self.field_of(value)
                if f2 is not None and self.root(value) != value and value[0] == "s" and self.fields[f2] > 1 and not mentions(value[2], ("c",)):
                    pass
                if value[0] == "cont":        # a list of entries under a key of the new table: the two belong together
                    self.links.add((value, self.root(base)))
                return self.add(base, ("tup", (key, value)), st, node, fr)
        if kind == "delsub":
            f = self.field_of(base)
            if f is not None and self.root_field(base):
                return self.remove(key, f, st, node, fr)
        return None


    def root_field(self, t):
        """t is the index itself or a list in it"""
        while t[0] in ("s", "elem"):
            t = t[1]
        return t[0] == "a" and t[1] == self.slf

    def remove(self, key, f, st, node, fr):
        self.popped.setdefault(f, self.where(node, fr))
        lf = self.leaf(key) if key is not None else None
        if lf is not None:
            return st.with_ps((st.ps[0], st.ps[1] | {(lf[0], self.literal(lf[0], st))}, st.ps[2]))
        # an end of the list, found to be made after the level
        for lit, (pol, _) in st.facts.items():
            if lit[0] == "lt" and lit[1] == self.level and pol and self.field_of(lit[2]) == f and self.repeated(node, fr):
                return None
        self.bad.setdefault(("undone too much", f), (self.where(node, fr), st.trace[-3:]))
        return None

    @staticmethod
    def repeated(node, fr):
        """in a loop that goes on as long as there is one"""
        return any(isinstance(w, ast.While) and any(x is node for x in ast.walk(w)) for w in walk_own(fr.func.node))

    def on_call(self, c, st, eng):
        if c.name == "update" and c.recv is not None and c.args and c.args[0][0] == "cont" and not self.root_field(c.recv):
            self.links.add((c.args[0], self.root(c.recv)))
            return Take(normal=[(NONE, st)])
        if c.name in ("pop", "remove", "popitem", "clear") and c.recv is not None and self.field_of(c.recv) and self.root_field(c.recv):
            f = self.field_of(c.recv)
            node, fr = c.node, c.fr
            if c.name == "clear":
                self.stored.setdefault(f, [])
                return Take(normal=[(NONE, st)])
            nst = self.remove(c.args[0] if c.args and c.args[0][0] != "c" else None, f, st, node, fr)
            return Take(normal=[(c.term(), nst or st)])
        if c.name in ("update", "extend") and c.recv is not None and self.field_of(c.recv) and self.root_field(c.recv) and c.args:
            self.stored.setdefault(self.field_of(c.recv), []).append((c.args[0], c.where, st))
            return Take(normal=[(NONE, st)])
        return None

    def on_iter_end(self, it, el, st, node, fr, eng, filtered):
        lf = self.leaf(el)
        if lf is None:
            return None
        self.ctx.count("entries_followed")
        e, f = lf
        lit = self.literal(e, st)
        conts = {c for x, c in st.ps[0] if x == e}
        gone = [x for x in st.ps[1] if x[0] == e]
        self.ends.append((e, f, gone[0][1] if gone else lit, conts, bool(gone), (it, getattr(node, 'lineno', 0)), self.where(node, fr), st.trace[-3:]))
        return st.with_ps((st.ps[0], st.ps[1], st.ps[2] | {(e, c) for c in conts}))

    def on_iter_break(self, it, el, st, node, fr, eng):
        lf = self.leaf(el)
        gone = any(x[0] == lf[0] for x in st.ps[1]) if lf is not None else False
        if lf is not None and (gone or not self.literal(lf[0], st)):
            if gone:
                self.bad.setdefault(("breaks", lf[1]), (self.where(node, fr), st.trace[-3:]))
            self.ends.append((lf[0], lf[1], False, set(), False, (it, getattr(node, 'lineno', 0)), self.where(node, fr), st.trace[-3:]))
        return None

    def judge(self):
        ctx, s = self.ctx, self.entry.short
        for f in sorted(self.fields):
            ctx.count("indexes")
            finals = set()
            for v, where, st in self.stored.get(f, ()):
                vs = v[1] if v[0] == "phi" else (v,)
                for x in vs:
                    finals |= {self.root(x)} | {y for y in subterms(x) if y[0] == "cont"}
            while True:
                more = {c for c, r in self.links if r in finals} - finals
                if not more:
                    break
                finals |= more
            if not finals and f not in self.popped:
                ctx.finding("not-undone", f"{s}:{f}", f"{s} does not undo `{f}`", self.entry.where)
                continue
            if finals:
                sources = {c for fld, c in self.built if fld == f}
                if not finals & sources:
                    ctx.finding("not-undone", f"{s}:{f}", f"{s} replaces `{f}` by something that is not made of its entries", self.entry.where)
                    continue
                for c in sorted(finals, key=repr):
                    if (f, c) in self.unjudged:
                        where, trace = self.unjudged[f, c]
                        ctx.finding("survives", f"{s}:{f}", f"{s} keeps an entry of `{f}` without regard to the level it was made at", where, trace)
            mine = [e for e in self.ends if e[1] == f]
            while True:         # containers whose content is passed on to those
                more = {e[5][0] for e in mine if e[5][0][0] == "cont" and e[5][0] not in finals and e[3] & finals}
                more |= {c for c, r in self.links | self.feeds if r in finals} - finals
                if not more:
                    break
                finals |= more
            building = {e[5] for e in mine if e[3] & finals}
            deleting = {e[5] for e in mine if e[4]}
            for e, _, lit, conts, removed, loop, where, trace in mine:
                if lit is True and (loop in building and conts & finals or loop in deleting and not removed):
                    ctx.finding("survives", f"{s}:{f}", f"{s} keeps an entry of `{f}` that was made after the level", where, trace)
                if lit is not True and (loop in building and not conts & finals or loop in deleting and removed):
                    ctx.finding("undone-too-much", f"{s}:{f}", f"{s} drops an entry of `{f}` that was not made after the level", where, trace)
        for (kind, f), (where, trace) in self.bad.items():
            if kind == "breaks":
                ctx.finding("survives", f"{s}:{f}", f"{s} stops removing entries of `{f}` after one", where, trace)
                continue
            ctx.finding("undone-too-much", f"{s}:{f}", f"{s} removes an entry of `{f}` without having found that it was made after the level", where, trace)



class Timeline(Rule):
    """a method of the solver; ps: (backtracks so far, decided since, required since, tried assignments, registered incompatibilities)"""
    fold_counters = False
    max_states = 120

    def __init__(self, ctx, entry, sol, fields, registry, add):
        self.ctx, self.entry, self.sol, self.fields, self.registry, self.add = ctx, entry, sol, fields, registry, add

    def can_raise(self, c):
        return False

    def keep(self, lit, st, eng):
        return lit[0] in ("eq", "is")

    def opaque(self, f):
        return not self.force_inline(f)

    def force_inline(self, f):
        return f.cls is self.entry.cls and f is not self.add and f.name != "__init__" and f.name != self.entry.name and any(
            isinstance(n, ast.Attribute) and n.attr in STATE | {self.add.name} for n in walk_own(f.node)) and not any(
            isinstance(n, ast.While) for n in walk_own(f.node))        # those with loops of their own are summarised

    def backtracks(self, f, seen=()):
        """f, a method of the solver, may backtrack"""
        return f not in seen and any(isinstance(n, ast.Attribute) and (n.attr == "backtrack" or n.attr in f.cls.methods and self.backtracks(
            f.cls.methods[n.attr], (*seen, f))) for n in ast.walk(f.node))

    # ---- what is stale
    def stale(self, t, epoch):
        """t rests on something computed before the last backtrack (what package it is about does not change)"""
        if epoch == 0:
            return False
        if t[0] == "a" and t[2] in ("package", "dependencies"):
            return False
        if t[0] == "call" and t[1][0] == "tagged" and (t[4][0] != epoch or t[1][1] != "make_assignment"):
            return t[4][0] != epoch
        if t[0] == "p" and t[2] in self.state_params(t[1]):
            return True
        return any(self.stale(x, epoch) for x in self.parts(t))

    def state_params(self, qual):
        f = program().funcs.get(qual)
        return {a for a, ann in f.annotations.items() if ann is not None and any(
            n in ast.unparse(ann) for n in ("IncompatibilitySatisfaction", "Assignment"))} if f is not None else ()

    def parts(self, t):
        for x in t:
            if isinstance(x, tuple):
                if x and isinstance(x[0], str):
                    yield x
                else:
                    yield from self.parts(x)

    def tagged(self, c, epoch):
        return ("call", ("tagged", c.name), c.recv, tuple(c.args) + tuple(v for _, v in sorted(c.kwargs.items(), key=str)), (epoch,))

    # ---- events
    def report(self, kind, msg, where, st):
        self.ctx.finding(kind, self.entry.short, f"{self.entry.short} {msg}", where, st.trace[-3:])

    def on_call(self, c, st, eng):
        epoch, decided, required, tried, reg = st.ps
        if c.func is not None and c.func.cls is self.sol and c.name in STATE:
            if tried:
                self.report("tried-assignment", f"calls {c.name} while an assignment that is only tried is in the solution", c.where, st)
            if c.name == "backtrack":
                self.ctx.count("backtracks")
                return Take(normal=[(NONE, st.with_ps((min(epoch + 1, 4), False, False, tried, reg)))])
            if c.name == "make_assignment":
                return Take(normal=[(self.tagged(c, epoch), st)])
            if c.name == "require":
                return Take(normal=[(NONE, st.with_ps((epoch, decided, required or not decided, tried, reg)))])
            return self.assigned(c, st)
        if c.name in ("check_satisfaction", "find_satisfier"):
            return Take(normal=[(self.tagged(c, epoch), st)])
        if c.func is not None and c.func.cls is self.entry.cls and c.func is not self.add and not self.force_inline(c.func) and self.backtracks(c.func):
            if tried:
                self.report("tried-assignment", f"calls {c.name} while an assignment that is only tried is in the solution", c.where, st)
            return Take(normal=[(c.term(), st.with_ps((min(epoch + 1, 4), False, False, tried, reg)))])
        if c.func is self.add and c.args:
            return Take(normal=[(NONE, st.with_ps((epoch, decided, required, tried, reg | {c.args[0]})))])
        if c.cls is not None and c.cls.module.name == PUB and c.func is None or c.func is not None and c.func.is_classmethod and c.name == "create":
            name = c.cls.name if c.func is None else c.func.cls.name
            args = () if name == "Incompatibility" else tuple(c.args) + tuple(v for _, v in sorted(c.kwargs.items(), key=str))
            return Take(normal=[(("call", ("mk", name), None, args, (c.where,)), st)])
        if c.name in SHRINK and c.recv is not None:
            if self.of_registry(c.recv):
                self.report("forgotten", "removes registered incompatibilities", c.where, st)
                return Take(normal=[(c.term(), st)])
            hit = {t for t in tried if t == c.recv or self.index_of(t) is not None and self.index_of(t) == self.index_of(c.recv) and self.key(t) == self.key(c.recv)}
            if hit:
                return Take(normal=[(c.term(), st.with_ps((epoch, decided, required, tried - hit, reg)))])
            if self.index_of(c.recv) is not None:
                self.report("index-changed", f"removes from `{self.index_of(c.recv)}` of the solution, which only its own methods know how to keep in step", c.where, st)
        return None

    def assigned(self, c, st):
        epoch, decided, required, tried, reg = st.ps
        value, cause = c.arg(0, "assignment_value"), c.arg(1, "cause")
        self.ctx.count("assignments_followed")
        if value is not None and self.stale(value, epoch):
            self.report("stale-assignment", "assigns something that was computed before the solution was backtracked", c.where, st)
        made = next((x for x in subterms(value) if x[0] == "call" and x[1] == ("tagged", "make_assignment")), None) if value is not None else None
        if made is not None and (cause is None or cause == NONE):
            cause = made[3][1] if len(made[3]) > 1 else NONE
        if cause is None or cause == NONE:
            if required:
                self.report("required-early", "requires packages before the decision they belong to, the requirement outlives the decision", c.where, st)
            return Take(normal=[(NONE, st.with_ps((epoch, True, required, tried, reg)))])
        nothing = any(x[0] == "g" and "RestrictAllVersions" in str(x[1]) for x in subterms(value))      # no version is left, the search is over
        for x in (cause[1] if cause[0] == "phi" else (cause,)):
            if x[:2] == ("call", ("mk", "Incompatibility")) and cause not in reg and x not in reg and not self.not_new(cause, st) and not nothing:
                self.report("not-learned", "uses an incompatibility as a cause that was not registered", c.where, st)
        return Take(normal=[(NONE, st)])

    def not_new(self, cause, st):
        """found to be the one the method was called with"""
        return any(lit[0] in ("eq", "is") and pol and cause in lit[1:] and any(x[0] == "p" for x in lit[1:] if isinstance(x, tuple))
                   for lit, (pol, _) in st.facts.items())

    def index_of(self, t):
        """the index of a solution (not of the interpreted method's own object) t is, or is a list in"""
        while t[0] in ("s", "elem") or t[0] == "call" and call_name(t) in ("get", "setdefault") and t[2] is not None:
            t = t[2] if t[0] == "call" else t[1]
        return t[2] if t[0] == "a" and t[2] in self.fields else None

    @staticmethod
    def key(t):
        return t[2] if t[0] == "s" else t[3][0] if t[0] == "call" and t[3] else None

    def of_registry(self, t):
        while t[0] in ("s", "elem") or t[0] == "call" and call_name(t) in ("get", "setdefault", "values", "items") and t[2] is not None:
            t = t[2] if t[0] == "call" else t[1]
        return t[0] == "a" and t[2] in self.registry

    def on_add(self, cont, value, st, node, fr, eng):
        f = self.index_of(cont)
        if f is None:
            return None
        self.ctx.count("assignments_tried")
        epoch, decided, required, tried, reg = st.ps
        return st.with_ps((epoch, decided, required, tried | {cont}, reg))

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        where = f"{fr.func.module.rel}:{getattr(node, 'lineno', 0)}"
        if kind == "attr" and key in self.registry and fr.func.name != "__init__" or kind in ("sub", "delsub") and self.of_registry(base):
            self.report("forgotten", "replaces or removes registered incompatibilities", where, st)
        if kind == "delattr" and key in self.registry:
            self.report("forgotten", "removes registered incompatibilities", where, st)
        f = self.index_of(base) if kind in ("sub", "delsub") else key if kind in ("attr", "delattr") and key in self.fields and fr.func.cls is not self.sol else None
        if f is not None:
            epoch, decided, required, tried, reg = st.ps
            if kind == "delsub":
                hit = {t for t in tried if t == base or self.index_of(t) == f and self.key(t) == self.key(base)}
                if hit:
                    return st.with_ps((epoch, decided, required, tried - hit, reg))
            self.report("index-changed", f"changes `{f}` of the solution, which only its own methods know how to keep in step", where, st)
        return None

    def judge(self, out):
        for st in [s for _, s in out.ret] + list(out.normal):
            self.ctx.count("ways_through_the_solver")
            if st.ps[3]:
                self.report("tried-assignment", "leaves an assignment that is only tried in the solution", self.entry.where, st)


class Enter(Rule):
    """a method of the partial solution that enters something; ps: (index, value) pairs"""
    keep_all_facts = True
    fold_counters = False

    def __init__(self, ctx, entry, fields):
        self.ctx, self.entry, self.fields = ctx, entry, fields
        self.slf = ("p", entry.qual, entry.params[0])

    def can_raise(self, c):
        return False

    def opaque(self, f):
        return f.cls is not None and f.cls is not self.entry.cls and f.name != "is_decision" or f.name == "make_assignment"

    def field(self, t):
        while t[0] in ("s", "elem") or t[0] == "call" and call_name(t) in ("get", "setdefault") and t[2] is not None:
            t = t[2] if t[0] == "call" else t[1]
        return t[2] if t[0] == "a" and t[1] == self.slf and t[2] in self.fields else None

    def on_call(self, c, st, eng):
        if c.name == "setdefault" and c.recv is not None and self.field(c.recv) and len(c.args) > 1 and self.fields[self.field(c.recv)] == 1:
            return Take(normal=[(c.term(), self.entered(self.field(c.recv), c.args[0], c.args[1], st, c.where, True))])
        return None

    def entered(self, f, key, value, st, where, absent=False):
        self.ctx.count("entries_made")
        if self.leaf(f) == "int":       # a level
            there = absent or any(lit[0] == "in" and not pol and key in lit[1:] and any(self.field(x) == f for x in lit[1:])
                                  or lit[0] == "isnone" and pol and mentions(lit[1], key) and any(self.field(y) == f for y in subterms(lit[1]))
                                  for lit, (pol, _) in st.facts.items())
            if not there:
                self.ctx.finding("level-raised", self.entry.short, f"{self.entry.short} overwrites the level in `{f}` at which a package was required first", where, st.trace[-3:])
        return st.with_ps(st.ps | {(f, value)})

    def leaf(self, f):
        return "int" if f in self.levels else "Assignment"

    levels = ()

    def on_add(self, cont, value, st, node, fr, eng):
        f = self.field(cont)
        return self.entered(f, None, value, st, f"{fr.func.module.rel}:{getattr(node, 'lineno', 0)}") if f else None

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        f = self.field(base) if kind == "sub" and value is not None else None
        return self.entered(f, key, value, st, f"{fr.func.module.rel}:{getattr(node, 'lineno', 0)}") if f else None

    def judge(self, out):
        lists = {f for f in self.fields if f not in self.levels and (self.fields[f] > 1 or "order" in f or f in self.plain)}
        tables = set(self.fields) - set(self.levels) - lists
        for st in [s for _, s in out.ret] + list(out.normal):
            into = {f for f, _ in st.ps if f not in self.levels}
            if not into:
                continue
            self.ctx.count("ways_of_entering")
            for f in lists - into:
                self.ctx.finding("indexes-differ", self.entry.short, f"{self.entry.short} enters an assignment into {sorted(into)} but not into `{f}`", self.entry.where, st.trace[-3:])
            for f in tables - into:
                if not any(self.derived(lit, pol) for lit, (pol, _) in st.facts.items()):
                    self.ctx.finding("indexes-differ", self.entry.short, f"{self.entry.short} enters a decision into {sorted(into)} but not into `{f}`", self.entry.where, st.trace[-3:])
            for f in tables & into:
                if any(self.derived(lit, pol) for lit, (pol, _) in st.facts.items()):
                    self.ctx.finding("indexes-differ", self.entry.short, f"{self.entry.short} enters an assignment that is no decision into `{f}`", self.entry.where, st.trace[-3:])

    plain = ()

    @staticmethod
    def derived(lit, pol):
        """the assignment was found to be no decision"""
        if lit[0] in ("isnone", "truthy") and lit[1][0] == "a" and lit[1][2] == "cause":
            return pol == (lit[0] == "truthy")
        return lit[0] == "truthy" and not pol and call_name(lit[1]) == "is_decision"


def check(ctx):
    p = program()
    sol = p.cls(PUB + ".PartialSolution")
    ctx.need(sol, PUB + ".PartialSolution")
    fields = container_fields(p, sol)
    ctx.need(len(fields) >= 3, "the indexes of the partial solution")
    ctx.rule("backtrack leaves in each index of the partial solution exactly the entries whose level is not above the given one")
    back = sol.methods.get("backtrack")
    ctx.need(back is not None and len(back.params) == 2, "PartialSolution.backtrack")
    r = Undo(ctx, back, fields)
    eng = Engine(r)
    eng.run(back, (frozenset(),) * 3)
    ctx.analysed(eng)
    r.judge()
    ctx.sample(f"indexes {fields}; replaced {sorted(r.stored)}, removed from {sorted(r.popped)}")
    ctx.at_least("entries_followed", 2)
    check_entering(ctx, p, sol, fields)
    check_solver(ctx, p, sol, fields)


def leaf_names(cls):
    """index -> what its entries are"""
    r = {}
    for m in cls.methods.values():
        for n in walk_own(m.node):
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute):
                names = [x.id for x in ast.walk(n.annotation) if isinstance(x, ast.Name)] + [
                    y for x in ast.walk(n.annotation) if isinstance(x, ast.Constant) and isinstance(x.value, str) for y in [x.value]]
                r[n.target.attr] = names
    return r


def check_entering(ctx, p, sol, fields):
    ctx.rule("an assignment is entered into every index of assignments, a decision also into the table of decisions; the level at which a "
             "package was required first is not overwritten")
    names = leaf_names(sol)
    levels = {f for f in fields if "int" in names[f]}
    plain = {f for f in fields if fields[f] == 1 and f not in levels and names[f] and not any("Dict" in x for x in names[f])}
    n = 0
    for m in sol.methods.values():
        if m.name in ("__init__", "backtrack") or not any(isinstance(x, ast.Attribute) and x.attr in fields for x in walk_own(m.node)):
            continue
        r = Enter(ctx, m, fields)
        r.levels, r.plain = levels, plain
        eng = Engine(r)
        out = eng.run(m, frozenset())
        ctx.analysed(eng)
        r.judge(out)
        n += 1
    ctx.at_least("ways_of_entering", 1)
    ctx.at_least("entries_made", 3)


def check_solver(ctx, p, sol, fields):
    ctx.rule("after a backtrack only what was computed after it is assigned; packages are required after the decision they belong to; an assignment "
             "that is only tried is taken back first; a new incompatibility is registered before it is a cause; none is removed")
    solver = p.cls(PUB + ".Solver")
    ctx.need(solver, PUB + ".Solver")
    adds = [m for m in solver.methods.values() if len(m.params) == 2 and any(
        isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "add", "insert") and x.args and
        any(isinstance(a, ast.Name) and a.id == m.params[1] for a in x.args) for x in ast.walk(m.node))]
    ctx.need(len(adds) == 1, "the method that registers an incompatibility")
    registry = {x.attr for x in walk_own(adds[0].node) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == adds[0].params[0]
                and x.attr not in solver.methods}
    for m in solver.methods.values():
        if m.name == "__init__":
            continue
        r = Timeline(ctx, m, sol, fields, registry, adds[0])
        eng = Engine(r)
        out = eng.run(m, (0, False, False, frozenset(), frozenset()))
        ctx.analysed(eng)
        r.judge(out)
    for k, n in (("backtracks", 2), ("assignments_followed", 2)):
        ctx.at_least(k, n)
