"""Property simulation over the syntax of resolved functions.

The engine is a path sensitive data flow analysis in the style of ESP: a state is a property state (owned by the
rule), the abstract values of the variables (structural terms), an abstract heap (attribute stores and container
contents) and the branch facts that hold.  Every call has a normal and an exception edge, try/finally, with,
context managers, generators, closures and comprehensions are followed, resolved callees are inlined, loops are
iterated to a fixpoint, and states are merged per property state when there are too many of them.
"""
from __future__ import annotations

import ast
import copy
from typing import Any, Dict, List, Optional, Tuple, Callable, Iterable, Set

from .model import (Program, TypeInfo, FuncInfo, ClassInfo, AnalysisError, program, types, elem_type, walk_own, dotted,
                    BUILTINS, BUILTIN_EXC)

Term = tuple
NONE = ("c", "NoneType", None)
TRUE = ("c", "bool", True)
FALSE = ("c", "bool", False)


def const(v) -> Term:
    return ("c", type(v).__name__, v)


def is_const(t):
    return t[0] == "c"


def subterms(t):
    """all terms nested in t (including t)"""
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            st.extend(y for y in x if isinstance(y, tuple))


_mention_cache: Dict[Tuple[Term, Term], bool] = {}


def mentions(t, what) -> bool:
    if t is what or t == what:
        return True
    if not isinstance(t, tuple):
        return False
    k = (t, what)
    r = _mention_cache.get(k)
    if r is None:
        r = any(mentions(x, what) for x in t if isinstance(x, tuple))
        if len(_mention_cache) > 400000:
            _mention_cache.clear()
        _mention_cache[k] = r
    return r


_depth_cache: Dict[Term, int] = {}


def depth(t) -> int:
    if not isinstance(t, tuple):
        return 0
    r = _depth_cache.get(t)
    if r is None:
        r = 1 + max([depth(x) for x in t if isinstance(x, tuple)] or [0])
        _depth_cache[t] = r
    return r


def show(t, n=4) -> str:
    if not isinstance(t, tuple) or not t:
        return str(t)
    if n == 0:
        return "…"
    k = t[0]
    if k == "c":
        return repr(t[2])
    if k == "g":
        return t[1].split(".")[-1] if "." in t[1] else t[1]
    if k == "p":
        return t[2]
    if k == "a":
        return f"{show(t[1], n - 1)}.{t[2]}"
    if k == "s":
        return f"{show(t[1], n - 1)}[{show(t[2], n - 1)}]"
    if k == "call":
        nm = t[1][1] if isinstance(t[1][1], str) else show(t[1][1], n - 1)
        nm = nm.split(".")[-1]
        r = f"{show(t[2], n - 1)}." if t[2] is not None else ""
        return f"{r}{nm}({', '.join(show(a, n - 1) for a in t[3])})"
    if k == "elem":
        return f"each({show(t[1], n - 1)})"
    if k == "new":
        return t[1].split(".")[-1] + "(…)"
    if k == "op":
        return f"{t[1]}({', '.join(show(x, n - 1) for x in t[2:])})"
    if k == "tup":
        return "(" + ", ".join(show(x, n - 1) for x in t[1]) + ")"
    if k == "cont":
        return f"<{t[1]}>"
    if k == "clos":
        return "<function>"
    return f"<{k}>"


class State:
    __slots__ = ("ps", "env", "heap", "facts", "pend", "trace")

    def __init__(self, ps, env, heap, facts, pend=(), trace=()):
        self.ps, self.env, self.heap, self.facts, self.pend, self.trace = ps, env, heap, facts, pend, trace

    def copy(self) -> "State":
        return State(self.ps, dict(self.env), dict(self.heap), dict(self.facts), self.pend, self.trace)

    def with_ps(self, ps, note=None) -> "State":
        s = self.copy()
        s.ps = ps
        if note:
            s.trace = s.trace + (note,)
        return s

    def note(self, note) -> "State":
        s = self.copy()
        s.trace = s.trace + (note,)
        return s

    def bind(self, fid, name, term) -> "State":
        s = self.copy()
        s.env[(fid, name)] = term
        return s

    def key(self):
        return (self.ps, frozenset(self.env.items()), frozenset(self.heap.items()), frozenset(self.facts.items()),
                self.pend)


DEAD = State(None, {}, {}, {})   # returned by on_iter / on_loop_done: the path is impossible


class _Subst(ast.NodeTransformer):
    def __init__(self, name, by):
        self.name, self.by = name, by

    def visit_Name(self, n):
        return ast.copy_location(ast.Constant(self.by.value), n) if n.id == self.name else n


class Out:
    __slots__ = ("normal", "ret", "exc", "brk", "cont")

    def __init__(self):
        self.normal: List[State] = []
        self.ret: List[Tuple[Term, State]] = []
        self.exc: List[Tuple[Term, State]] = []
        self.brk: List[State] = []
        self.cont: List[State] = []

    def absorb_abrupt(self, o: "Out"):
        self.ret += o.ret
        self.exc += o.exc
        self.brk += o.brk
        self.cont += o.cont


class Frame:
    def __init__(self, fid, func: FuncInfo, lex: Optional["Frame"], chain: Tuple[str, ...], depth_: int):
        self.fid = fid
        self.func = func
        self.lex = lex
        self.chain = chain
        self.depth = depth_
        self.on_yield: Optional[Callable] = None
        self.exc_stack: List[Term] = []
        self.selfterm: Optional[Term] = None


class Call:
    """a call event"""

    def __init__(self, node, fr: Frame, name: str, fterm, recv, args, kwargs, func=None, cls=None, ext=None,
                 clos=None, star=False):
        self.node, self.fr, self.name, self.fterm, self.recv = node, fr, name, fterm, recv
        self.args, self.kwargs, self.func, self.cls, self.ext, self.clos = args, kwargs, func, cls, ext, clos
        self.star = star
        self.impls: List[FuncInfo] = []

    @property
    def loc(self):
        return f"{self.fr.func.module.rel}:{getattr(self.node, 'lineno', 0)}"

    @property
    def where(self):
        return f"{self.loc} in {self.fr.func.short}"

    def arg(self, i, name=None):
        if i is not None and i < len(self.args):
            return self.args[i]
        if name is not None and name in self.kwargs:
            return self.kwargs[name]
        return None

    def all_args(self):
        return list(self.args) + list(self.kwargs.values())

    def key(self):
        if self.func is not None:
            return ("f", self.func.qual)
        if self.ext is not None:
            return ("x", self.ext)
        if self.recv is not None:
            return ("m", self.name)
        return ("t", self.fterm)

    def term(self):
        kw = tuple(sorted(self.kwargs.items()))
        return ("call", self.key(), self.recv, tuple(self.args), kw)

    def __repr__(self):
        return f"<call {self.name} @ {self.loc}>"


class Rule:
    """hooks; the default is a rule that tracks nothing"""
    max_depth = 8
    term_depth = 14
    max_states = 10
    step_budget = 600000
    fact_names: Set[str] = frozenset()   # branch facts that mention one of these names are always kept
    keep_all_facts = False
    yield_raises = False      # the code that suspends the entry at a yield may resume it with an exception
    other_elements = False    # iterations over the tracked and over any other element are told apart
    unroll_literals = False   # for loops over short literal tuples / lists are executed element by element
    fold_counters = False     # x += 1 is computed when x is a known number
    base_exceptions = False   # calls may also raise a BaseException which is not an Exception
    ancestor_depth = None     # path.parent.parent… chains longer than this are folded into one term
    interesting: Set[str] = frozenset()   # names (attributes / functions) that make a callee worth inlining
    inline_all_small = True

    def on_call(self, c: Call, st: State, eng: "Engine"):
        return None

    def after_inline(self, c: Call, kind: str, term, st: State, eng: "Engine") -> State:
        return st

    def on_store(self, kind: str, base, key, value, st: State, node, fr: Frame, eng: "Engine"):
        """kind in attr / sub / delattr / delsub / global; returns a State (or None: unchanged)"""
        return None

    def on_add(self, cont, value, st: State, node, fr: Frame, eng: "Engine"):
        return None

    def on_aug(self, cur, op, value, st: State, node, fr: Frame, eng: "Engine"):
        """an augmented assignment to something whose value is cur"""
        return None

    def on_suspend(self, value, st: State, eng: "Engine"):
        """the entry function is suspended at a yield; returns the state in which it may be resumed, or a Take"""
        return None

    def on_load(self, base, key, st: State, node, fr: Frame, eng: "Engine"):
        """base[key] is read; returns a Take or None"""
        return None

    def on_property(self, c: Call, st: State, eng: "Engine") -> Optional["Take"]:
        return None

    def on_with(self, node, fr: Frame, term, st: State, eng: "Engine"):
        """returns (state after enter, exit callback(kind, state)->state) or None"""
        return None

    def on_raise(self, exc, st: State, node, fr: Frame, eng: "Engine"):
        return None

    def on_iter(self, iterable, el, st: State, node, fr: Frame, eng: "Engine"):
        """start of one loop iteration with element `el`; returns a state, a list of states, DEAD or None"""
        return None

    def on_iter_end(self, iterable, el, st: State, node, fr: Frame, eng: "Engine", filtered: bool):
        """an iteration ended normally (filtered: the element was dropped by a comprehension condition)"""
        return None

    def on_iter_break(self, iterable, el, st: State, node, fr: Frame, eng: "Engine"):
        return None

    def on_term(self, t: Term) -> Term:
        """the value of an operator, in a shape that stays small"""
        return t

    def on_while(self, node, st: State, fr: Frame, eng: "Engine", entering: bool):
        """a while loop is entered, or the body of it starts once more"""
        return None

    def on_loop_done(self, iterable, st: State, node, fr: Frame, eng: "Engine"):
        """all elements were visited"""
        return None

    def can_raise(self, c: Call) -> bool:
        return True

    def opaque(self, f: FuncInfo) -> bool:
        return False

    def force_inline(self, f: FuncInfo) -> bool:
        return False

    def invoke_callbacks(self, c: Call) -> str:
        """how closures passed to an unknown callee are treated: 'once' (may be invoked 0..1 times), 'no'"""
        return "once"

    def join_ps(self, a, b):
        return None  # cannot be joined

    def keep(self, lit, st, eng):
        """is a branch fact worth remembering (None: the engine decides)"""
        return None


# functions / methods that do not raise in practice and do not change the state of the program
PURE_EXT = {
    "isinstance", "issubclass", "len", "str", "repr", "bool", "id", "hash", "callable", "hasattr", "type", "range",
    "enumerate", "zip", "reversed", "list", "set", "dict", "tuple", "frozenset", "sorted", "print", "any", "all",
    "super", "object", "map", "filter", "format", "abs", "round", "iter", "sum", "vars", "dir",
    "pathlib.Path", "typing.cast", "collections.defaultdict", "collections.deque", "threading.Lock",
    "threading.RLock", "threading.Condition", "time.time", "functools.partial", "dataclasses.field", "re.compile",
    "warnings.warn", "min", "max", "itertools.chain", "itertools.chain.from_iterable", "itertools.islice",
    "dataclasses.replace", "copy.copy",
}
PURE_METHODS = {
    "append", "add", "get", "items", "keys", "values", "strip", "lower", "upper", "startswith", "endswith", "split",
    "rsplit", "join", "replace", "extend", "update", "setdefault", "copy", "clear", "discard", "format", "partition",
    "rpartition", "rstrip", "lstrip", "splitlines", "isspace", "isdigit", "isalnum", "isalpha", "isidentifier",
    "with_suffix", "with_name", "absolute", "appendleft", "casefold", "title", "union", "intersection", "difference",
    "issubset", "sort", "reverse", "insert", "count", "notify", "notify_all", "zfill", "ljust", "rjust",
    "debug", "info", "group", "groups", "is_set", "find", "rfind", "as_posix",
}
# read-only inspection methods: may raise (I/O) but change nothing
QUERY_METHODS = {"exists", "is_dir", "is_file", "stat", "iterdir", "glob", "rglob", "resolve", "is_absolute",
                 "relative_to", "read_text", "read_bytes", "samefile", "is_symlink", "is_relative_to"}

ADDERS = {"append": 0, "add": 0, "appendleft": 0, "insert": 1, "push": 0}


class Take:
    """a rule's own model of a call"""

    def __init__(self, normal=(), raises=()):
        self.normal = list(normal)
        self.raises = list(raises)


class Engine:
    def __init__(self, rule: Rule, prog: Program = None, ti: TypeInfo = None):
        self.rule = rule
        self.p = prog or program()
        self.ti = ti or types()
        self.generic: Dict[Term, Term] = {}
        self.tmap: Dict[Term, Any] = {}
        self.exact: Set[Term] = set()
        self.gens: Dict[Term, tuple] = {}
        self.frames: Dict[Any, Frame] = {}
        self.closures: Dict[Term, Tuple[FuncInfo, Optional[Frame]]] = {}
        self.steps = 0
        self.inlined: Set[str] = set()
        self.calls_seen: Set[Tuple[str, int, int]] = set()
        self._rel: Dict[str, bool] = {}
        self._size: Dict[str, int] = {}
        self.recursion: Dict[str, Dict] = {}
        self.origins: Dict[Term, set] = {}     # values a widened variable was made from

    # ------------------------------------------------------------------ entry
    def run(self, func: FuncInfo, ps, args: Dict[str, Term] = None, self_cls: Optional[str] = None,
            facts: Dict = None, heap: Dict = None) -> Out:
        fr = Frame((func.qual,), func, None, (func.qual,), 0)
        self.frames[fr.fid] = fr
        st = State(ps, {}, dict(heap or {}), dict(facts or {}))
        names = func.params + func.kwonly + ([func.vararg] if func.vararg else []) + (
            [func.kwarg] if func.kwarg else [])
        for i, p in enumerate(names):
            t = (args or {}).get(p) or ("p", func.qual, p)
            st.env[(fr.fid, p)] = t
            ty = self.ti.from_ann(func.annotations.get(p), func.module, func, func.cls)
            if i == 0 and func.cls is not None and not func.is_static and func.parent is None:
                q = self_cls or func.cls.qual
                ty = ("type", q) if func.is_classmethod else ("cls", q)
                if func.is_classmethod and (args or {}).get(p) is None:
                    t = ("g", q)
                    st.env[(fr.fid, p)] = t
                fr.selfterm = t
                self.exact.add(t)
            if p == func.vararg:
                ty = ("list", ty)
            if ty is not None and t not in self.tmap:
                self.tmap[t] = ty
            if t[0] == "p" and i == 0 and fr.selfterm == t:
                st.facts[("isnone", t)] = (False, True)
                st.facts[("truthy", t)] = (True, True)
        self.inlined.add(func.qual)
        if func.is_generator:
            def suspended(t, s):
                r = self.rule.on_suspend(t, s, self)
                if isinstance(r, Take):
                    return r.normal, r.raises
                s = r or s
                ex = []
                if self.rule.yield_raises:
                    ex.append((("exc", None, None), s))
                    if self.rule.base_exceptions:
                        ex.append((("exc", "@Base", None), s))
                return [(NONE, s)], ex

            fr.on_yield = suspended
        o = self.block(func.body, fr, [st])
        o.ret += [(NONE, s) for s in o.normal]
        o.normal = []
        return o

    # ------------------------------------------------------------------ helpers
    def tick(self):
        self.steps += 1
        if self.steps > self.rule.step_budget:
            raise AnalysisError(f"analysis budget exhausted ({self.rule.__class__.__name__})")

    def compact(self, states: List[State], limit=None) -> List[State]:
        if len(states) < 2:
            return states
        limit = limit or self.rule.max_states
        seen, out = set(), []
        for s in states:
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        for level in (1, 2):
            if len(out) <= limit:
                break
            groups: Dict[Any, State] = {}
            for s in out:
                g = (s.ps, s.pend, self._flags(s) if level == 1 else None)
                groups[g] = self.join(groups[g], s) if g in groups else s
            out = list(groups.values())
        if len(out) > limit:
            groups = {}
            for s in out:
                for k, o in list(groups.items()):
                    if o.pend == s.pend:
                        ps = self.rule.join_ps(o.ps, s.ps)
                        if ps is not None:
                            o = o.copy()
                            s = s.copy()
                            o.ps = s.ps = ps
                            groups[k] = self.join(o, s)
                            break
                else:
                    groups[len(groups)] = s
            out = list(groups.values())
        return out

    def _flags(self, s: State):
        """the boolean / None valued variables: states that differ in them are kept apart longest"""
        return frozenset((k, v) for k, v in s.env.items() if v[0] == "c" and (v[2] is None or isinstance(v[2], bool)))

    def compact_pairs(self, pairs):
        if len(pairs) < 2:
            return pairs
        seen, out = set(), []
        for t, s in pairs:
            k = (t, s.key())
            if k not in seen:
                seen.add(k)
                out.append((t, s))
        if len(out) > self.rule.max_states:
            groups = {}
            for t, s in out:
                g = (t if t[0] in ("c", "exc", "g") else None, s.ps, s.pend)
                if g in groups:
                    pt, pstate = groups[g]
                    groups[g] = (pt if pt == t else self.phi(pt, t), self.join(pstate, s))
                else:
                    groups[g] = (t, s)
            out = list(groups.values())
            if len(out) > self.rule.max_states:
                groups = []
                for t, s in out:
                    for i, (pt, o) in enumerate(groups):
                        if o.pend == s.pend and (pt == t or (pt[0] not in ("c", "exc", "g") and t[0] not in ("c", "exc", "g"))):
                            ps = self.rule.join_ps(o.ps, s.ps)
                            if ps is not None:
                                o, s2 = o.copy(), s.copy()
                                o.ps = s2.ps = ps
                                groups[i] = (pt if pt == t else self.phi(pt, t), self.join(o, s2))
                                break
                    else:
                        groups.append((t, s))
                out = groups
        return out

    def phi(self, a, b):
        if a == b:
            return a
        xs = set(a[1]) if a[0] == "phi" else {a}
        xs |= set(b[1]) if b[0] == "phi" else {b}
        if len(xs) > 6:
            return ("unk", ("phi", min(repr(x) for x in xs)[:60]))
        return ("phi", tuple(sorted(xs, key=repr)))

    def join(self, a: State, b: State) -> State:
        env = {}
        for k in a.env.keys() | b.env.keys():
            x, y = a.env.get(k), b.env.get(k)
            if x is None or y is None:
                env[k] = x or y
            else:
                env[k] = x if x == y else self.phi(x, y)
        heap = {}
        for k in a.heap.keys() | b.heap.keys():
            x, y = a.heap.get(k), b.heap.get(k)
            if isinstance(x, frozenset) or isinstance(y, frozenset):
                heap[k] = (x or frozenset()) | (y or frozenset())
            elif x is None or y is None:
                # stored on one path only: unknown on the other
                v = x if x is not None else y
                heap[k] = v if v is not None and k[0] == "new-field" else self.phi(v, ("a",) + k if False else ("unk", ("heap", k)))
            else:
                heap[k] = x if x == y else self.phi(x, y)
        facts = {}
        for k, v in a.facts.items():
            w = b.facts.get(k)
            if w is not None and w[0] == v[0]:
                facts[k] = (v[0], v[1] and w[1])
        return State(a.ps, env, heap, facts, a.pend, a.trace)

    # ------------------------------------------------------------------ facts
    def lit_of(self, t: Term) -> Tuple[tuple, bool]:
        """the canonical literal and polarity of a condition; a test of the length against zero is a test for emptiness"""
        lit, pol = self._lit_of(t)
        sized = lambda x: x[3][0] if x[0] == "call" and x[1] == ("x", "len") and len(x[3]) == 1 else None
        num = lambda x, n: x[0] == "c" and x[2] == n and isinstance(x[2], int)
        if lit[0] == "truthy":
            x = lit[1]
            if x[0] == "call" and x[1] in (("x", "len"), ("x", "bool")) and len(x[3]) == 1:
                return self.lit_of(x[3][0])[0], self.lit_of(x[3][0])[1] == pol
        elif lit[0] == "eq":
            for a, b in ((lit[1], lit[2]), (lit[2], lit[1])):
                if sized(a) is not None and num(b, 0):
                    return ("truthy", sized(a)), not pol
        elif lit[0] == "lt":
            if sized(lit[2]) is not None and num(lit[1], 0):
                return ("truthy", sized(lit[2])), pol
            if sized(lit[1]) is not None and num(lit[2], 1):
                return ("truthy", sized(lit[1])), not pol
        return lit, pol

    def _lit_of(self, t: Term) -> Tuple[tuple, bool]:
        pol = True
        while t[0] == "op" and t[1] == "not":
            pol = not pol
            t = t[2]
        if t[0] == "op":
            o = t[1]
            if o in ("is", "==", "is not", "!="):
                a, b = t[2], t[3]
                if o in ("is not", "!="):
                    pol = not pol
                if a == NONE:
                    a, b = b, a
                if b == NONE:
                    return ("isnone", a), pol
                if b in (TRUE, FALSE) and o in ("is", "==", "is not", "!="):
                    return ("truthy", a), (pol if b == TRUE else not pol)
                a, b = sorted((a, b), key=repr)
                return ("eq", a, b), pol
            if o in ("in", "not in"):
                return ("in", t[2], t[3]), (pol if o == "in" else not pol)
            if o == "<":
                return ("lt", t[2], t[3]), pol
            if o == ">":
                return ("lt", t[3], t[2]), pol
            if o == "<=":
                return ("lt", t[3], t[2]), not pol
            if o == ">=":
                return ("lt", t[2], t[3]), not pol
        if t[0] == "call" and t[1] == ("x", "isinstance") and len(t[3]) == 2:
            return ("isinst", t[3][0], t[3][1]), pol
        return ("truthy", t), pol

    def lit_value(self, lit, st: State) -> Optional[bool]:
        f = st.facts.get(lit)
        if f is not None and f[1]:
            return f[0]
        k = lit[0]
        if k == "truthy":
            t = lit[1]
            if t[0] == "c":
                return bool(t[2])
            if t[0] in ("clos", "exc", "super", "gen"):
                return True
            if t[0] == "g" and (t[1] in self.p.funcs or t[1] in self.p.classes):
                return True
            if t[0] == "tup":
                return len(t[1]) > 0
            if t[0] == "new":
                c = self.p.classes.get(t[1])
                if c and not self.p.find_method(c, "__bool__") and not self.p.find_method(c, "__len__") and \
                        not self.p.ext_bases(c):
                    return True
            n = st.facts.get(("isnone", t))
            if n is not None and n[1] and n[0]:
                return False
            if t[0] == "cont":
                recs = st.heap.get(t)
                if recs is not None and not recs and t[1] != "opaque":
                    return False
                if st.heap.get(("nonempty", t)) == TRUE:
                    return True
            return None
        if k == "isnone":
            t = lit[1]
            if t[0] == "c":
                return t[2] is None
            if t[0] in ("new", "cont", "tup", "clos", "exc", "gen", "fstr", "super"):
                return False
            if t[0] == "g":
                if t[1] in self.p.funcs or t[1] in self.p.classes or self.enum_member(t):
                    return False
            n = st.facts.get(("truthy", t))
            if n is not None and n[1] and n[0]:
                return False
            return None
        if k == "eq":
            a, b = lit[1], lit[2]
            if a == b:
                return True
            if a[0] == "c" and b[0] == "c":
                return a[2] == b[2]
            ea, eb = self.enum_member(a), self.enum_member(b)
            if ea and eb and ea[0] == eb[0]:
                return ea[1] == eb[1]
            for x, y in ((a, b), (b, a)):
                if y[0] == "c" or self.enum_member(y):
                    for l, (pol, pr) in st.facts.items():
                        if pol and pr and l[0] == "eq" and x in l[1:]:
                            o = l[2] if l[1] == x else l[1]
                            if o != y and (o[0] == "c" and y[0] == "c" and o[2] != y[2] or
                                           self.enum_member(o) and self.enum_member(y) and o != y):
                                return False
            return None
        if k == "isinst":
            t, c = lit[1], lit[2]
            if c[0] == "tup":
                rs = [self.lit_value(("isinst", t, x), st) for x in c[1]]
                if any(r is True for r in rs):
                    return True
                if all(r is False for r in rs):
                    return False
                return None
            if t == NONE:
                return False
            if t[0] == "new" and c[0] == "g":
                return self.p.is_subclass(t[1], c[1])
            if t[0] == "c" and c[0] == "g" and c[1] in ("str", "int", "bool", "list", "dict", "tuple", "float", "bytes"):
                return t[1] == c[1]
            if t[0] in ("cont",) and c[0] == "g" and c[1] in ("str", "int"):
                return False
            if t[0] == "exc" and c[0] == "g" and t[1]:
                return self.p.is_subclass(t[1], c[1])
            return None
        if k == "in":
            els = self._literal_elements(lit[2], st)
            if els is not None:
                rs = [self.lit_value(("eq",) + tuple(sorted((lit[1], x), key=repr)), st) for x in els]
                if any(r is True for r in rs):
                    return True
                if all(r is False for r in rs):
                    return False
            return None
        if k == "lt":
            a, b = lit[1], lit[2]
            if a[0] == "c" and b[0] == "c":
                try:
                    return a[2] < b[2]
                except TypeError:
                    return None
            return None
        return None

    def _literal_elements(self, c, st):
        """the elements of a collection that consists of constants and enum members only"""
        if c[0] == "tup":
            els = c[1]
        elif c[0] == "cont" and c[1] in ("set", "list", "tuple") and isinstance(st.heap.get(c), frozenset):
            els = [r for r, _ in st.heap[c]]
        else:
            return None
        return els if els and all(x[0] == "c" or self.enum_member(x) for x in els) else None

    def enum_member(self, t) -> Optional[Tuple[str, str]]:
        if t[0] == "g":
            cq, _, m = t[1].rpartition(".")
            c = self.p.classes.get(cq)
            if c is not None and c.is_enum and m in c.class_attrs:
                return cq, m
        return None

    def assume_lit(self, st: State, lit, pol: bool) -> Optional[State]:
        v = self.lit_value(lit, st)
        if v is not None:
            return st if v == pol else None
        if not self.keep_fact(lit, st):
            return st
        s = st.copy()
        s.facts[lit] = (pol, True)
        if lit[0] == "in" and not pol:
            for x in self._literal_elements(lit[2], st) or ():
                s.facts[("eq",) + tuple(sorted((lit[1], x), key=repr))] = (False, True)
        if lit[0] == "truthy" and pol:
            s.facts[("isnone", lit[1])] = (False, True)
        if lit[0] == "isnone" and pol:
            s.facts[("truthy", lit[1])] = (False, True)
        if lit[0] == "eq" and pol:
            for x, y in ((lit[1], lit[2]), (lit[2], lit[1])):
                if y[0] == "c" and x[0] != "c":
                    s.facts.setdefault(("truthy", x), (bool(y[2]), True))
                    s.facts.setdefault(("isnone", x), (y[2] is None, True))
        if lit[0] == "isinst" and pol:
            s.facts[("isnone", lit[1])] = (False, True)
        return s

    def keep_fact(self, lit, st: State) -> bool:
        """facts about the result of a call that is stored nowhere can never be tested again"""
        r = self.rule
        if r.keep_all_facts:
            return True
        k = r.keep(lit, st, self)
        if k is not None:
            return k
        if r.fact_names and self._names_in(lit) & r.fact_names:
            return True
        if lit[0] == "isinst":
            return True
        for t in lit[1:]:
            if self._volatile(t, st):
                return False
        return True

    _name_cache: Dict[Any, frozenset] = {}

    def _names_in(self, t) -> frozenset:
        if not isinstance(t, tuple):
            return frozenset()
        r = Engine._name_cache.get(t)
        if r is None:
            acc = set()
            if t and t[0] == "a":
                acc.add(t[2])
            elif t and t[0] == "call":
                k = t[1]
                if isinstance(k[1], str):
                    acc.add(k[1].split(".")[-1])
            elif t and t[0] == "g":
                acc.add(t[1].split(".")[-1])
            for x in t:
                if isinstance(x, tuple):
                    acc |= self._names_in(x)
            r = frozenset(acc)
            Engine._name_cache[t] = r
        return r

    def _volatile(self, t, st: State) -> bool:
        if t[0] in ("c", "g", "p", "new", "clos", "exc"):
            return False
        if t[0] == "call" or t[0] == "elem" or t[0] == "s" or t[0] == "fstr":
            if t[0] == "call" and t[1] in (("x", "isinstance"), ("x", "len")):
                return any(self._volatile(x, st) for x in t[3])
            return not any(v == t for v in st.env.values()) and not any(v == t for v in st.heap.values())
        if t[0] == "a":
            return self._volatile(t[1], st)
        if t[0] == "op":
            return any(self._volatile(x, st) for x in t[2:] if isinstance(x, tuple))
        return False

    def assume(self, st: State, t: Term, pol: bool) -> Optional[State]:
        if t[0] == "phi":
            return st
        lit, p = self.lit_of(t)
        return self.assume_lit(st, lit, p == pol)

    def kill(self, st: State, t: Term) -> State:
        dead = [l for l in st.facts if any(mentions(x, t) for x in l[1:])]
        if dead:
            st = st.copy()
            for l in dead:
                del st.facts[l]
        return st

    def demote(self, st: State, objs: List[Term]) -> State:
        """facts about attributes of the given objects may have changed: keep them as history, do not prune on them"""
        objs = [o for o in objs if o is not None and o[0] not in ("c", "g", "fstr", "clos")]
        if not objs:
            return st
        ch = []
        for l, (pol, pr) in st.facts.items():
            if not pr:
                continue
            for x in l[1:]:
                if self._depends_attr(x, objs):
                    ch.append(l)
                    break
        hk = [k for k in st.heap if isinstance(k, tuple) and k and k[0] == "fld" and k[1] in objs and False]
        if ch or hk:
            st = st.copy()
            for l in ch:
                st.facts[l] = (st.facts[l][0], False)
        return st

    def _depends_attr(self, t, objs) -> bool:
        if not isinstance(t, tuple) or not t:
            return False
        if t[0] in ("a", "s") and any(t[1] == o or mentions(t[1], o) for o in objs):
            return True
        if t[0] == "call" and (t[2] is not None and any(t[2] == o for o in objs)):
            return True
        if t[0] == "cont" and t in objs:
            return True
        return any(self._depends_attr(x, objs) for x in t if isinstance(x, tuple))

    # ------------------------------------------------------------------ types
    def type_of(self, t: Term, st: Optional[State] = None, d=0):
        if d > 12 or not isinstance(t, tuple):
            return None
        if st is not None:
            for l, (pol, _) in st.facts.items():
                if pol and l[0] == "isinst" and l[1] == t and l[2][0] == "g" and l[2][1] in self.p.classes:
                    return ("cls", l[2][1])
        r = self.tmap.get(t)
        if r is not None:
            return r
        k = t[0]
        if k == "new":
            return ("cls", t[1])
        if k == "a":
            bt = self.type_of(t[1], st, d + 1)
            if bt and bt[0] in ("cls", "type") and bt[1] in self.p.classes:
                return self.ti.attr_type(self.p.classes[bt[1]], t[2])
            return None
        if k == "call":
            kk = t[1]
            if kk[0] == "f":
                f = self.p.funcs.get(kk[1])
                if f is not None:
                    return self.ti.ret_type(f)
            if kk[0] == "m":
                bt = self.type_of(t[2], st, d + 1) if t[2] is not None else None
                if bt and bt[0] == "dict":
                    if kk[1] in ("get", "pop", "setdefault"):
                        return bt[2]
                    if kk[1] == "values":
                        return ("iter", bt[2])
                    if kk[1] == "keys":
                        return ("iter", bt[1])
                if bt and bt[0] in ("list", "set") and kk[1] in ("pop", "popleft"):
                    return bt[1]
                if bt and kk[1] == "copy":
                    return bt
            if kk[0] == "x":
                if kk[1] in ("pathlib.Path",):
                    return ("ext", "pathlib.Path")
                if kk[1] == "dataclasses.replace" and t[3]:
                    return self.type_of(t[3][0], st, d + 1)
                if kk[1] == "typing.cast":
                    return self.type_of(t[3][0], st, d + 1) and None
            return None
        if k in ("elem", "other"):
            return elem_type(self.type_of(t[1], st, d + 1))
        if k == "enter":
            bt = self.type_of(t[1], st, d + 1)
            if bt and bt[0] in ("ctx", "iter"):
                return bt[1]
            return bt
        if k == "s":
            bt = self.type_of(t[1], st, d + 1)
            if bt is None:
                return None
            if bt[0] == "dict":
                return bt[2]
            if bt[0] in ("list", "iter", "set"):
                return bt[1]
            if bt[0] == "tuple" and t[2][0] == "c" and isinstance(t[2][2], int) and -len(bt[1]) <= t[2][2] < len(bt[1]):
                return bt[1][t[2][2]]
            return None
        if k == "g":
            if t[1] in self.p.classes:
                return ("type", t[1])
            return self.ti.global_type(t[1])
        if k == "exc" and t[1] in self.p.classes:
            return ("cls", t[1])
        if k in ("fstr",):
            return ("ext", "str")
        if k == "c" and t[2] is not None:
            return ("ext", t[1])
        if k == "op" and t[1] == "/":
            return self.type_of(t[2], st, d + 1)
        return None

    # ------------------------------------------------------------------ blocks / statements
    def block(self, stmts: List[ast.stmt], fr: Frame, states: List[State]) -> Out:
        out = Out()
        cur = states
        for s in stmts:
            if not cur:
                break
            nxt: List[State] = []
            for st in cur:
                o = self.stmt(s, fr, st)
                nxt += o.normal
                out.absorb_abrupt(o)
            cur = self.compact(nxt)
        out.normal = cur
        out.exc = self.compact_pairs(out.exc)
        out.ret = self.compact_pairs(out.ret)
        out.brk = self.compact(out.brk)
        out.cont = self.compact(out.cont)
        return out

    def stmt(self, n: ast.stmt, fr: Frame, st: State) -> Out:
        self.tick()
        m = getattr(self, "s_" + n.__class__.__name__, None)
        out = Out()
        if m is None:
            raise AnalysisError(f"statement kind {n.__class__.__name__} not supported ({fr.func.where})")
        m(n, fr, st, out)
        return out

    def s_Expr(self, n, fr, st, out):
        if isinstance(n.value, ast.Constant):
            out.normal.append(st)
            return
        out.normal += [s for _, s in self.ev(n.value, fr, st, out.exc)]

    def s_Pass(self, n, fr, st, out):
        out.normal.append(st)

    s_Global = s_Nonlocal = s_Import = s_ImportFrom = s_Pass

    def s_ClassDef(self, n, fr, st, out):
        c = self.p.class_of_node.get(id(n))
        out.normal.append(st.bind(fr.fid, n.name, ("g", c.qual) if c else ("unk", n.name)))

    def s_FunctionDef(self, n, fr, st, out):
        fi = self.p.func_of_node[id(n)]
        t = self.closure(fi, fr)
        out.normal.append(st.bind(fr.fid, n.name, t))

    s_AsyncFunctionDef = s_FunctionDef

    def closure(self, fi: FuncInfo, fr: Frame) -> Term:
        t = ("clos", fi.qual, fr.fid)
        self.closures[t] = (fi, fr)
        return t

    def s_Assign(self, n, fr, st, out):
        for v, s in self.ev(n.value, fr, st, out.exc):
            ss = [s]
            for t in n.targets:
                ss = [y for x in ss for y in self.assign(t, v, fr, x, out.exc)]
            out.normal += ss

    def s_AnnAssign(self, n, fr, st, out):
        if n.value is None:
            out.normal.append(st)
            return
        ty = self.ti.from_ann(n.annotation, fr.func.module, fr.func, fr.func.cls)
        for v, s in self.ev(n.value, fr, st, out.exc):
            self.hint(v, ty, s)
            out.normal += self.assign(n.target, v, fr, s, out.exc)

    def hint(self, term, ty, st):
        if ty is None or term[0] in ("c", "new", "clos", "g"):
            return
        cur = self.type_of(term, st)
        if cur is None or (cur[0] in ("list", "set", "dict") and (len(cur) < 2 or cur[1] is None)):
            self.tmap[term] = ty

    def s_AugAssign(self, n, fr, st, out):
        load = ast.copy_location(self._as_load(n.target), n.target)
        for cur, s in self.ev(load, fr, st, out.exc):
            for v, s2 in self.ev(n.value, fr, s, out.exc):
                op = _OPS.get(type(n.op), "?")
                r = self.rule.on_aug(cur, op, v, s2, n, fr, self)
                s2 = r if r is not None else s2
                if op in ("+", "|") and (cur[0] == "cont" or not getattr(self.rule, "tuples_are_values", False) and
                                          (self.type_of(cur, s2) or ("",))[0] in ("list", "set")):
                    # in place extension
                    s3 = self.extend(cur, v, fr, s2, n, out.exc)
                    out.normal += s3
                    continue
                if self.rule.fold_counters and op in ("+", "-") and all(x[0] == "c" and type(x[2]) is int for x in (cur, v)):
                    nv = const(cur[2] + v[2] if op == "+" else cur[2] - v[2])
                else:
                    nv = self.clip(("op", op, cur, v), n, fr)
                out.normal += self.assign(n.target, nv, fr, s2, out.exc)

    def _as_load(self, t):
        t2 = _copy_expr(t)
        t2.ctx = ast.Load()
        t2._parent = getattr(t, "_parent", None)
        return t2

    def clip(self, t, node, fr):
        t = self.rule.on_term(t)
        if depth(t) > self.rule.term_depth:
            return ("unk", ("deep", fr.func.qual, node.lineno, node.col_offset))
        return t

    def assign(self, target, v, fr: Frame, st: State, exc) -> List[State]:
        if isinstance(target, ast.Name):
            f = self._owner_frame(target.id, fr, store=True)
            if f is None:
                r = self.rule.on_store("global", ("g", f"{fr.func.module.name}.{target.id}"), None, v, st, target, fr, self)
                s = (r or st).copy()
                s.heap[("glob", f"{fr.func.module.name}.{target.id}")] = v
                return [s]
            s = st.bind(f.fid, target.id, v)
            # facts about a truth test do not depend on the name: nothing to kill
            return [s]
        if isinstance(target, ast.Attribute):
            out = []
            for b, s in self.ev(target.value, fr, st, exc):
                r = self.rule.on_store("attr", b, target.attr, v, s, target, fr, self)
                s = r if r is not None else s
                setter = self._setter(b, target.attr, s)
                if setter is not None and self.should_inline(setter, fr):
                    c = Call(target, fr, target.attr, ("a", b, target.attr), b, [v], {}, func=setter)
                    for _, s2 in self.inline(setter, c, s, exc):
                        out.append(s2)
                    continue
                s = self.kill(s, ("a", b, target.attr)).copy()
                s.heap[("fld", b, target.attr)] = v
                out.append(s)
            return out
        if isinstance(target, ast.Subscript):
            out = []
            for b, s in self.ev(target.value, fr, st, exc):
                for k, s2 in self.ev(target.slice, fr, s, exc):
                    r = self.rule.on_store("sub", b, k, v, s2, target, fr, self)
                    s2 = r if r is not None else s2
                    s2 = self.kill(s2, ("s", b, k)).copy()
                    s2.heap[("item", b, k)] = v
                    self._record(s2, b, ("tup", (k, v)), kv=True)
                    out.append(s2)
            return out
        if isinstance(target, (ast.Tuple, ast.List)):
            elts = target.elts
            vs: List[Term]
            if v[0] == "tup" and len(v[1]) == len(elts) and not any(isinstance(e, ast.Starred) for e in elts):
                vs = list(v[1])
            else:
                vs = []
                for i, e in enumerate(elts):
                    if isinstance(e, ast.Starred):
                        vs.append(("a", v, "@rest"))
                    else:
                        vs.append(("s", v, const(i)))
            ss = [st]
            for e, x in zip(elts, vs):
                e2 = e.value if isinstance(e, ast.Starred) else e
                ss = [y for s in ss for y in self.assign(e2, x, fr, s, exc)]
            return ss
        if isinstance(target, ast.Starred):
            return self.assign(target.value, v, fr, st, exc)
        raise AnalysisError(f"assignment target {ast.dump(target)[:60]}")

    def _setter(self, b, name, st):
        t = self.type_of(b, st)
        if t and t[0] == "cls" and t[1] in self.p.classes:
            for c in self.p.mro(self.p.classes[t[1]]):
                if name + "@setter" in c.methods:
                    return c.methods[name + "@setter"]
        return None

    def _owner_frame(self, name, fr: Frame, store=False) -> Optional[Frame]:
        f: Optional[Frame] = fr
        while f is not None:
            if name in f.func.locals:
                return f
            f = f.lex
        return None

    def s_Delete(self, n, fr, st, out):
        ss = [st]
        for t in n.targets:
            nx = []
            for s in ss:
                if isinstance(t, ast.Name):
                    s2 = s.copy()
                    f = self._owner_frame(t.id, fr)
                    if f:
                        s2.env.pop((f.fid, t.id), None)
                    nx.append(s2)
                elif isinstance(t, ast.Subscript):
                    for b, s2 in self.ev(t.value, fr, s, out.exc):
                        for k, s3 in self.ev(t.slice, fr, s2, out.exc):
                            r = self.rule.on_store("delsub", b, k, None, s3, t, fr, self)
                            s4 = self.shrunk(r if r is not None else s3, b)
                            if self.sub_may_raise(b, k, s3):
                                r = self.rule.on_store("delsub!", b, k, None, s3, t, fr, self)
                                out.exc.append((("exc", "KeyError", None), r if r is not None else s3))
                            s4 = self.kill(s4, ("s", b, k)).copy()
                            s4.heap.pop(("item", b, k), None)
                            nx.append(s4)
                elif isinstance(t, ast.Attribute):
                    for b, s2 in self.ev(t.value, fr, s, out.exc):
                        r = self.rule.on_store("delattr", b, t.attr, None, s2, t, fr, self)
                        s4 = self.kill(r if r is not None else s2, ("a", b, t.attr)).copy()
                        s4.heap.pop(("fld", b, t.attr), None)
                        nx.append(s4)
                else:
                    nx.append(s)
            ss = nx
        out.normal += ss

    def sub_may_raise(self, b, k, st) -> bool:
        return getattr(self.rule, "subscript_raises", False) and ("item", b, k) not in st.heap

    def s_Return(self, n, fr, st, out):
        if n.value is None:
            out.ret.append((NONE, st))
        else:
            out.ret += self.ev(n.value, fr, st, out.exc)

    def s_Raise(self, n, fr, st, out):
        if n.exc is None:
            e = fr.exc_stack[-1] if fr.exc_stack else ("exc", None, None)
            out.exc.append((e, st))
            return
        for t, s in self.ev(n.exc, fr, st, out.exc):
            if n.cause is not None:
                rs = [x for _, x in self.ev(n.cause, fr, s, out.exc)]
            else:
                rs = [s]
            for x in rs:
                e = self.exc_of(t, x)
                r = self.rule.on_raise(e, x, n, fr, self)
                out.exc.append((e, r if r is not None else x))

    def exc_of(self, t, st):
        if t[0] == "exc":
            return t
        if t[0] == "new":
            return ("exc", t[1], t)
        if t[0] == "g":
            return ("exc", t[1], None)
        if t[0] == "call" and t[1][0] == "x":
            return ("exc", t[1][1], None)
        ty = self.type_of(t, st)
        if ty and ty[0] == "cls":
            return ("exc", ty[1], t)
        return ("exc", None, t)

    def s_Assert(self, n, fr, st, out):
        ts, fs = self.cond(n.test, fr, st, out.exc)
        for s in fs:
            out.exc.append((("exc", "AssertionError", None), s))
        out.normal += ts

    def s_Break(self, n, fr, st, out):
        out.brk.append(st)

    def s_Continue(self, n, fr, st, out):
        out.cont.append(st)

    def s_If(self, n, fr, st, out):
        ts, fs = self.cond(n.test, fr, st, out.exc)
        o1 = self.block(n.body, fr, ts) if ts else Out()
        o2 = self.block(n.orelse, fr, fs) if fs else Out()
        out.normal += o1.normal + o2.normal
        out.absorb_abrupt(o1)
        out.absorb_abrupt(o2)

    def s_While(self, n, fr, st, out):
        def head(s):
            ex = []
            ts, fs = self.cond(n.test, fr, s, ex)
            return ts, fs, ex

        st = self.rule.on_while(n, st, fr, self, True) or st

        def body(s):
            return self.block(n.body, fr, [self.rule.on_while(n, s, fr, self, False) or s])

        self._loop(head, body, n.orelse, fr, [st], out)

    def _loop(self, head, body, orelse, fr, states, out: Out):
        seen = set()
        frontier = states
        exits: List[State] = []
        acc: Dict[Any, State] = {}
        it = 0
        while frontier:
            it += 1
            if it > 14:
                raise AnalysisError(f"loop does not stabilise in {fr.func.where}")
            nxt: List[State] = []
            for s in frontier:
                k = s.key()
                if k in seen:
                    continue
                seen.add(k)
                ts, fs, ex = head(s)
                exits += fs
                out.exc += ex
                for t in ts:
                    o = body(t)
                    nxt += o.normal + o.cont
                    out.normal += o.brk
                    out.ret += o.ret
                    out.exc += o.exc
            nxt = self.compact(nxt, 12)
            if it >= 3:
                # widen: one head state per property state
                w = []
                for s in nxt:
                    g = (s.ps, s.pend)
                    if g in acc:
                        j = self.widen(acc[g], s)
                        if j.key() == acc[g].key():
                            continue
                        acc[g] = j
                    else:
                        acc[g] = s
                    w.append(g)
                nxt = [acc[g] for g in dict.fromkeys(w)]
            frontier = nxt
        exits = self.compact(exits)
        if orelse:
            o = self.block(orelse, fr, exits)
            out.normal += o.normal
            out.absorb_abrupt(o)
        else:
            out.normal += exits

    def widen(self, a: State, b: State) -> State:
        j = self.join(a, b)
        for k, v in list(j.env.items()):
            if v[0] == "phi" and a.env.get(k) != v:
                x = a.env.get(k)
                if x is not None and x[0] in ("phi", "unk"):
                    j.env[k] = ("unk", ("wide",) + (str(k),))
                    o = self.origins.setdefault(j.env[k], set())
                    for y in (a.env.get(k), b.env.get(k), v):
                        if y is not None and y != j.env[k]:
                            o |= {z for z in (y[1] if y[0] == "phi" else (y,)) if z[0] != "unk"}
        for k, v in list(j.heap.items()):
            if isinstance(v, tuple) and v[0] == "phi" and a.heap.get(k) != v:
                x = a.heap.get(k)
                if isinstance(x, tuple) and x[0] in ("phi", "unk"):
                    j.heap[k] = ("unk", ("wideh", str(k)[:80]))
        return j

    def s_For(self, n, fr, st, out):
        if self.rule.unroll_literals and isinstance(n.iter, (ast.Tuple, ast.List)) and 0 < len(n.iter.elts) <= 6 \
                and not any(isinstance(x, ast.Starred) for x in n.iter.elts):
            for vs, s in self.evs(n.iter.elts, fr, st, out.exc):
                self.unrolled(vs, n, fr, s, out)
            return
        for it, s in self.ev(n.iter, fr, st, out.exc):
            if self.rule.unroll_literals:
                vs = it[1] if it[0] == "tup" and 0 < len(it[1]) <= 6 else self.keyed_elements(it, s)
                if vs:
                    self.unrolled(vs, n, fr, s, out)
                    continue
            self.for_over(it, n.target, n.body, n.orelse, fr, s, out, n)

    def keyed_elements(self, it, st):
        """the pairs of a container whose keys are distinct constants, in a fixed order"""
        recs = st.heap.get(it)
        if it[0] != "cont" or not isinstance(recs, frozenset) or not 0 < len(recs) <= 6:
            return None
        els = [el for el, _ in recs]
        if not all(e[0] == "tup" and len(e[1]) == 2 and e[1][0][0] == "c" for e in els):
            return None
        keys = {e[1][0] for e in els}
        return sorted(els, key=repr) if len(keys) == len(els) else None

    def unrolled(self, vs, n, fr, st, out):
        cur, broke = [st], []
        for v in vs:
            nx = []
            for s in cur:
                for s2 in self.assign(n.target, v, fr, s, out.exc):
                    o = self.block(n.body, fr, [s2])
                    nx += o.normal + o.cont
                    broke += o.brk
                    o.normal, o.cont, o.brk = [], [], []
                    out.absorb_abrupt(o)
            cur = self.compact(nx)
        if n.orelse:
            o = self.block(n.orelse, fr, cur)
            cur = o.normal
            out.absorb_abrupt(o)
        out.normal += cur + broke

    s_AsyncFor = s_For

    def for_over(self, it, target, body, orelse, fr, s, out: Out, node):
        if it[0] == "gen" and it in self.gens:
            self._for_gen(it, target, body, orelse, fr, s, out, node)
            return
        first = [s]
        iters = self.elements(it, s, fr, node, out.exc)

        def head(x):
            r = self.rule.on_loop_done(it, x, node, fr, self)
            return [x], [] if r is DEAD else [r if r is not None else x], []

        # elements() may depend on the state (containers grow in the loop), so recompute per iteration
        def one(x):
            o = Out()
            ex: List = []
            for el, s2 in self.elements(it, x, fr, node, ex):
                r = self.rule.on_iter(it, el, s2, node, fr, self)
                if r is DEAD:
                    continue
                starts = r if isinstance(r, list) else [r if r is not None else s2]
                for s3 in [y for s2 in starts for y in self.assign(target, el, fr, s2, ex)]:
                    ob = self.block(body, fr, [s3])
                    for lst in (ob.normal, ob.cont):
                        for y in lst:
                            r = self.rule.on_iter_end(it, el, y, node, fr, self, False)
                            o.normal.append(r if r is not None else y)
                    ob.normal, ob.cont = [], []
                    nb = []
                    for y in ob.brk:
                        r = self.rule.on_iter_break(it, el, y, node, fr, self)
                        nb.append(r if r is not None else y)
                    ob.brk = nb
                    o.absorb_abrupt(ob)
            o.exc += ex
            return o

        self._loop(head, one, orelse, fr, first, out)

    def elements(self, it, st: State, fr, node, exc) -> List[Tuple[Term, State]]:
        """the element terms an iteration over `it` may yield, each with the state in which it is yielded"""
        if it[0] == "phi":
            return [p for x in it[1] for p in self.elements(x, st, fr, node, exc)]
        if it[0] == "tup":
            return [(x, st) for x in it[1]]
        if it[0] == "gen" and it in self.gens:
            res = []

            def oy(t, s):
                res.append((t, s))
                return [(NONE, s)], []

            for _ in self._run_gen(it, st, fr, oy, exc):
                pass
            return res
        recs = st.heap.get(it)
        out: List[Tuple[Term, State]] = []
        if isinstance(recs, frozenset):
            is_dict = it[0] == "cont" and it[1] == "dict" or (self.type_of(it, st) or ("",))[0] == "dict"
            for el, facts in sorted(recs, key=repr):
                v = el
                if el[0] == "kv":
                    v = el[1]
                g = self.generic.get(it)      # the items of an unknown mapping: every iteration sees another one
                s1 = self.kill(st, g) if g is not None and mentions(v, g) else st
                out.append((v, self.with_facts(s1, facts)))
        if it[0] != "cont":
            el = ("elem", it)
            if depth(el) > self.rule.term_depth + 2:
                el = ("unk", ("elem", node.lineno))
            out.append((el, self.kill(st, el)))
            if self.rule.other_elements:
                el = ("other", it)
                out.append((el, self.kill(st, el)))
        elif it[0] == "cont" and it[1] == "opaque":
            el = ("elem", it)
            out.append((el, self.kill(st, el)))
        return out

    def with_facts(self, st, facts: frozenset) -> State:
        s = st.copy()
        for l, pol in facts:
            s.facts[l] = (pol, s.facts.get(l, (None, True))[1] if l in s.facts else True)
        return s

    def _record(self, st: State, cont, el, kv=False):
        """add an element record to a container (mutates st, which must be a private copy)"""
        if kv:
            el = ("kv",) + tuple(el[1])
        facts = frozenset((l, v[0]) for l, v in st.facts.items() if self._relevant_fact(l, el))
        cur = st.heap.get(cont)
        cur = cur if isinstance(cur, frozenset) else frozenset()
        new = cur | {(el, facts)}
        st.heap[("nonempty", cont)] = TRUE
        if len(new) > 24:
            return
        st.heap[cont] = new

    def shrunk(self, st: State, cont) -> State:
        """an element was removed from cont"""
        if ("nonempty", cont) in st.heap:
            st = st.copy()
            del st.heap[("nonempty", cont)]
        return st

    def _relevant_fact(self, lit, el) -> bool:
        roots = [x for x in subterms(el) if x[0] in ("elem", "p", "new", "call", "a", "s")]
        for x in lit[1:]:
            for r in roots:
                if mentions(x, r):
                    return True
        return False

    def _for_gen(self, it, target, body, orelse, fr, s, out: Out, node):
        tag = ("for", fr.fid, node.lineno, node.col_offset)

        def oy(t, st):
            resumes, raises = [], []
            ex: List = []
            r0 = self.rule.on_iter(it, t, st, node, fr, self)
            if r0 is DEAD:
                return [], []
            for s2 in self.assign(target, t, fr, r0 if r0 is not None else st, ex):
                ob = self.block(body, fr, [s2])
                for x in ob.normal + ob.cont:
                    r1 = self.rule.on_iter_end(it, t, x, node, fr, self, False)
                    resumes.append((NONE, r1 if r1 is not None else x))
                brk = [(self.rule.on_iter_break(it, t, x, node, fr, self), x) for x in ob.brk]
                for kind, lst in (("brk", [(NONE, r1 if r1 is not None else x) for r1, x in brk]), ("ret", ob.ret), ("exc", ob.exc)):
                    for t2, x in lst:
                        y = x.copy()
                        y.pend = y.pend + ((tag, kind, t2),)
                        raises.append((("exc", "GeneratorExit", None), y))
            for e, x in ex:
                y = x.copy()
                y.pend = y.pend + ((tag, "exc", e),)
                raises.append((("exc", "GeneratorExit", None), y))
            return self.compact_pairs(resumes), raises

        exits = []
        ex: List = []
        for x in self._run_gen(it, s, fr, oy, ex):
            r2 = self.rule.on_loop_done(it, x, node, fr, self)
            if r2 is not DEAD:
                exits.append(r2 if r2 is not None else x)
        for e, x in ex:
            if x.pend and x.pend[-1][0] == tag:
                _, kind, t2 = x.pend[-1]
                y = x.copy()
                y.pend = y.pend[:-1]
                if kind == "brk":
                    out.normal.append(y)
                elif kind == "ret":
                    out.ret.append((t2, y))
                else:
                    out.exc.append((t2, y))
            else:
                out.exc.append((e, x))
        exits = self.compact(exits)
        if orelse:
            o = self.block(orelse, fr, exits)
            out.normal += o.normal
            out.absorb_abrupt(o)
        else:
            out.normal += exits

    def _comp_gen(self, it, visit, fr, s, out: Out, node, cf):
        """a comprehension over a generator: its body runs while the generator is suspended"""
        tag = ("comp", fr.fid, node.lineno, node.col_offset)

        def oy(t, st):
            o = Out()
            visit(t, st, o)
            raises = []
            for e, x in o.exc:
                y = x.copy()
                y.pend = y.pend + ((tag, "exc", e),)
                raises.append((("exc", "GeneratorExit", None), y))
            return self.compact_pairs([(NONE, x) for x in o.normal]), raises
        ex: List = []
        for x in self._run_gen(it, s, fr, oy, ex):
            r = self.rule.on_loop_done(it, x, node, cf, self)
            if r is not DEAD:
                out.normal.append(r if r is not None else x)
        for e, x in ex:
            if x.pend and x.pend[-1][0] == tag:
                y = x.copy()
                y.pend = y.pend[:-1]
                out.exc.append((x.pend[-1][2], y))
            else:
                out.exc.append((e, x))
        out.normal = self.compact(out.normal)

    def _run_gen(self, gen, st: State, fr: Frame, on_yield, exc) -> List[State]:
        func, c, lex, fid, params = self.gens[gen]
        nf = Frame(fid, func, lex, fr.chain + (func.qual,), fr.depth + 1)
        nf.on_yield = on_yield
        self.frames[fid] = nf
        s = st.copy()
        for k, v in params.items():
            s.env[(fid, k)] = v
        if func.qual in fr.chain:
            # recursive generator: unknown elements
            r = on_yield(("elem", ("call", ("f", func.qual), None, (), ())), st)
            exc += r[1]
            return [x for _, x in r[0]] + [st]
        self.inlined.add(func.qual)
        o = self.block(func.body, nf, [s])
        exc += o.exc
        return [x for _, x in o.ret] + o.normal

    # ------------------------------------------------------------------ try / with
    def s_Try(self, n, fr, st, out):
        inner = Out()
        b = self.block(n.body, fr, [st])
        inner.ret += b.ret
        inner.brk += b.brk
        inner.cont += b.cont
        if n.orelse:
            o = self.block(n.orelse, fr, b.normal)
            inner.normal += o.normal
            inner.absorb_abrupt(o)
        else:
            inner.normal += b.normal
        pending = self.compact_pairs(b.exc)
        for e, s in pending:
            remaining = [(e, s)]
            for h in n.handlers:
                nxt = []
                for e2, s2 in remaining:
                    m = self.handler_match(e2, h, fr)
                    if m in ("yes", "maybe"):
                        hs = s2
                        et = e2
                        if m == "maybe" and h.type is not None and e2[1] in (None, "Exception"):
                            hn = self.handler_types(h, fr)
                            if len(hn) == 1:
                                et = ("exc", hn[0], e2[2])
                        if h.name:
                            hs = hs.bind(fr.fid, h.name, et)
                        fr.exc_stack.append(et)
                        o = self.block(h.body, fr, [hs])
                        fr.exc_stack.pop()
                        inner.normal += o.normal
                        inner.absorb_abrupt(o)
                    if m in ("no", "maybe"):
                        nxt.append((e2, s2))
                remaining = nxt
            inner.exc += remaining
        inner.normal = self.compact(inner.normal)
        inner.exc = self.compact_pairs(inner.exc)
        inner.ret = self.compact_pairs(inner.ret)
        if not n.finalbody:
            out.normal += inner.normal
            out.absorb_abrupt(inner)
            return
        for s in inner.normal:
            o = self.block(n.finalbody, fr, [s])
            out.normal += o.normal
            out.absorb_abrupt(o)
        for kind in ("brk", "cont"):
            for s in self.compact(getattr(inner, kind)):
                o = self.block(n.finalbody, fr, [s])
                getattr(out, kind).extend(o.normal)
                out.absorb_abrupt(o)
        for t, s in inner.ret:
            o = self.block(n.finalbody, fr, [s])
            out.ret += [(t, x) for x in o.normal]
            out.absorb_abrupt(o)
        for e, s in inner.exc:
            fr.exc_stack.append(e)
            o = self.block(n.finalbody, fr, [s])
            fr.exc_stack.pop()
            out.exc += [(e, x) for x in o.normal]
            out.absorb_abrupt(o)

    s_TryStar = s_Try

    def handler_types(self, h: ast.ExceptHandler, fr) -> List[str]:
        if h.type is None:
            return ["BaseException"]
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        r = []
        for t in ts:
            d = dotted(t)
            r.append((self.p.resolve_dotted(d, fr.func.module, fr.func) if d else None) or d or "?")
        return r

    def handler_match(self, e, h, fr) -> str:
        ts = self.handler_types(h, fr)
        name = e[1]
        best = "no"
        for t in ts:
            if t in ("BaseException",):
                return "yes"
            if name is None:  # some Exception
                if t == "Exception":
                    return "yes"
                best = "maybe"
                continue
            if name == "@Base":
                if t.split(".")[-1] in ("KeyboardInterrupt", "SystemExit"):
                    best = "maybe"
                continue
            r = self.p.is_subclass(name, t)
            if r is None:
                # unknown (external) exception class: external exceptions derive from Exception
                if t == "Exception":
                    return "yes"
                best = "maybe"
            elif r:
                return "yes"
            elif self.p.is_subclass(t, name):
                best = "maybe"
        return best

    def s_With(self, n, fr, st, out):
        self._with(n, n.items, fr, st, out)

    s_AsyncWith = s_With

    def _with(self, n, items, fr, st, out: Out):
        if not items:
            o = self.block(n.body, fr, [st])
            out.normal += o.normal
            out.absorb_abrupt(o)
            return
        item, rest = items[0], items[1:]
        for t, s in self.ev(item.context_expr, fr, st, out.exc):
            self.enter_with(n, item, rest, t, fr, s, out)

    def enter_with(self, n, item, rest, t, fr, s, out: Out):
        hook = self.rule.on_with(item.context_expr, fr, t, s, self)

        def body(val, s0) -> Out:
            o = Out()
            ss = [s0]
            if item.optional_vars is not None:
                ss = self.assign(item.optional_vars, val, fr, s0, o.exc)
            for x in ss:
                self._with(n, rest, fr, x, o)
            return o

        if hook is not None:
            s1, exit_cb = hook[0], hook[1]
            val = hook[2] if len(hook) > 2 else ("enter", t)
            o = body(val, s1)
            out.normal += [exit_cb("normal", x) for x in o.normal]
            out.brk += [exit_cb("brk", x) for x in o.brk]
            out.cont += [exit_cb("cont", x) for x in o.cont]
            out.ret += [(v, exit_cb("ret", x)) for v, x in o.ret]
            out.exc += [(e, exit_cb("exc", x)) for e, x in o.exc]
            return

        if t[0] == "gen" and t in self.gens:   # @contextmanager
            tag = ("with", fr.fid, n.lineno, item.context_expr.lineno, item.context_expr.col_offset)

            def oy(v, st2):
                o = body(v, st2)
                resumes = [(NONE, x) for x in o.normal]
                for kind, lst in (("brk", [(NONE, x) for x in o.brk]), ("cont", [(NONE, x) for x in o.cont]),
                                  ("ret", o.ret)):
                    for v2, x in lst:
                        y = x.copy()
                        y.pend = y.pend + ((tag, kind, v2),)
                        resumes.append((NONE, y))
                return self.compact_pairs(resumes), o.exc

            ex: List = []
            for x in self._run_gen(t, s, fr, oy, ex):
                if x.pend and x.pend[-1][0] == tag:
                    _, kind, v2 = x.pend[-1]
                    y = x.copy()
                    y.pend = y.pend[:-1]
                    if kind == "brk":
                        out.brk.append(y)
                    elif kind == "cont":
                        out.cont.append(y)
                    else:
                        out.ret.append((v2, y))
                else:
                    out.normal.append(x)
            for e, x in ex:
                if x.pend and x.pend[-1][0] == tag:
                    x = x.copy()
                    x.pend = x.pend[:-1]
                out.exc.append((e, x))
            return

        ty = self.type_of(t, s)
        cls = self.p.classes.get(ty[1]) if ty and ty[0] == "cls" else None
        enter = self.p.find_method(cls, "__enter__") if cls else None
        exit_ = self.p.find_method(cls, "__exit__") if cls else None
        if enter is not None and exit_ is not None and self.should_inline(exit_, fr):
            c = Call(item.context_expr, fr, "__enter__", None, t, [], {}, func=enter)
            for v, s1 in self.inline(enter, c, s, out.exc):
                o = body(v, s1)

                def leave(x, args, exc_list):
                    c2 = Call(item.context_expr, fr, "__exit__", None, t, args, {}, func=exit_)
                    return self.inline(exit_, c2, x, exc_list)

                none3 = [NONE, NONE, NONE]
                for x in o.normal:
                    out.normal += [y for _, y in leave(x, none3, out.exc)]
                for x in o.brk:
                    out.brk += [y for _, y in leave(x, none3, out.exc)]
                for x in o.cont:
                    out.cont += [y for _, y in leave(x, none3, out.exc)]
                for v2, x in o.ret:
                    out.ret += [(v2, y) for _, y in leave(x, none3, out.exc)]
                for e, x in o.exc:
                    for r, y in leave(x, [("a", e, "@type"), e, ("a", e, "@tb")], out.exc):
                        tv = self.lit_value(self.lit_of(r)[0], y)
                        if tv is not None:
                            tv = tv == self.lit_of(r)[1]
                        if tv is not False:
                            out.normal.append(y)
                        if tv is not True:
                            out.exc.append((e, y))
            return

        if t[0] == "call" and t[1] == ("x", "contextlib.suppress"):
            o = body(NONE, s)
            out.normal += o.normal
            out.ret += o.ret
            out.brk += o.brk
            out.cont += o.cont
            for e, x in o.exc:
                m = "no"
                for a in t[3]:
                    nm = a[1] if a[0] == "g" else None
                    if nm in ("BaseException",):
                        m = "yes"
                    elif e[1] is None:
                        m = "yes" if nm == "Exception" else ("maybe" if m == "no" else m)
                    else:
                        r = self.p.is_subclass(e[1], nm) if nm else None
                        m = "yes" if r else ("maybe" if r is None and m == "no" else m)
                if m != "no":
                    out.normal.append(x)
                if m != "yes":
                    out.exc.append((e, x))
            return

        o = body(("enter", t), s)
        out.normal += o.normal
        out.absorb_abrupt(o)

    # ------------------------------------------------------------------ conditions
    def cond(self, e, fr, st, exc) -> Tuple[List[State], List[State]]:
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            cur, done = [st], []
            for v in e.values:
                nxt = []
                for s in cur:
                    t, f = self.cond(v, fr, s, exc)
                    if is_and:
                        nxt += t
                        done += f
                    else:
                        nxt += f
                        done += t
                cur = self.compact(nxt)
            return (cur, self.compact(done)) if is_and else (self.compact(done), cur)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.cond(e.operand, fr, st, exc)
            return f, t
        ts, fs = [], []
        for v, s in self.ev(e, fr, st, exc):
            a = self.assume(s, v, True)
            b = self.assume(s, v, False)
            if a is not None:
                ts.append(a)
            if b is not None:
                fs.append(b)
        return self.compact(ts), self.compact(fs)

    # ------------------------------------------------------------------ expressions
    def ev(self, e, fr: Frame, st: State, exc) -> List[Tuple[Term, State]]:
        self.tick()
        m = getattr(self, "e_" + e.__class__.__name__, None)
        if m is None:
            raise AnalysisError(f"expression kind {e.__class__.__name__} not supported ({fr.func.where})")
        r = m(e, fr, st, exc)
        if len(r) > 4:
            r = self.compact_pairs(r)
        return r

    def evs(self, es, fr, st, exc) -> List[Tuple[List[Term], State]]:
        cur = [([], st)]
        for e in es:
            nxt = []
            for ts, s in cur:
                for t, s2 in self.ev(e, fr, s, exc):
                    nxt.append((ts + [t], s2))
            cur = nxt
            if len(cur) > self.rule.max_states:
                groups = {}
                for ts, s in cur:
                    g = (tuple(ts), s.ps, s.pend)
                    groups[g] = (ts, self.join(groups[g][1], s)) if g in groups else (ts, s)
                cur = list(groups.values())
        return cur

    def e_Constant(self, e, fr, st, exc):
        return [(const(e.value), st)]

    def e_Name(self, e, fr, st, exc):
        f = self._owner_frame(e.id, fr)
        if f is not None:
            t = st.env.get((f.fid, e.id))
            if t is None:
                li = f.func.local_imports.get(e.id)
                if li:
                    return [(("g", self.p.canonical(li)), st)]
                if e.id in f.func.nested:
                    return [(self.closure(f.func.nested[e.id], f), st)]
                return [(("unk", ("unbound", f.func.qual, e.id)), st)]
            if t[0] == "phi" and all(x[0] == "c" for x in t[1]):
                return [(x, st.bind(f.fid, e.id, x)) for x in t[1]]
            return [(t, st)]
        q = None
        # local imports of lexically enclosing functions
        g = fr
        while g is not None and q is None:
            if e.id in g.func.local_imports:
                q = self.p.canonical(g.func.local_imports[e.id])
            g = g.lex
        q = q or self.p.resolve_dotted(e.id, fr.func.module, None)
        if q is None and fr.func.cls is not None:
            nested = f"{fr.func.cls.qual}.{e.id}"
            if nested in self.p.classes:
                q = nested
        if q is None:
            g = fr
            while g.lex is not None:
                g = g.lex
            up = g.func.parent      # an entry that is a nested function: its siblings
            while up is not None:
                if e.id in up.nested:
                    return [(self.closure(up.nested[e.id], g), st)]
                up = up.parent
            return [(("g", e.id), st)]
        v = st.heap.get(("glob", q))
        if v is not None:
            return [(v, st)]
        return [(("g", q), st)]

    def e_NamedExpr(self, e, fr, st, exc):
        out = []
        for v, s in self.ev(e.value, fr, st, exc):
            for s2 in self.assign(e.target, v, fr, s, exc):
                out.append((v, s2))
        return out

    def e_Attribute(self, e, fr, st, exc):
        out = []
        for b, s in self.ev(e.value, fr, st, exc):
            out += self.get_attr(b, e.attr, e, fr, s, exc)
        return out

    def get_attr(self, b, name, node, fr, st, exc):
        if name == "parent" and b[0] == "op" and b[1] == "/" and b[3][0] == "c" and isinstance(b[3][2], str) and \
                b[3][2] not in ("", ".", "..") and not set("/\\") & set(b[3][2]):
            return [(b[2], st)]
        if name == "parent" and self.rule.ancestor_depth is not None and b[0] == "a" and b[2] == "parent":
            n, x = 1, b[1]
            while x[0] == "a" and x[2] == "parent":
                n, x = n + 1, x[1]
            if n >= self.rule.ancestor_depth:   # one term stands for all further ancestors
                t = b if x[0] == "anc" else ("a", ("anc", x), "parent")
                return [(t, self.kill(st, t))]
        if b[0] == "phi":
            return [r for x in b[1] for r in self.get_attr(x, name, node, fr, st, exc)]
        v = st.heap.get(("fld", b, name))
        if v is not None:
            if v[0] == "phi":
                out = []
                for x in v[1]:
                    s2 = st.copy()
                    s2.heap[("fld", b, name)] = x
                    out.append((x, s2))
                return out
            return [(v, st)]
        if b[0] == "g":
            q = self.p.canonical(f"{b[1]}.{name}")
            if b[1] in self.p.classes:
                for c in self.p.mro(self.p.classes[b[1]]):
                    if name in c.methods:
                        return [(("g", f"{b[1]}.{name}"), st)]
            gt = self.ti.global_type(b[1]) if b[1] not in self.p.classes and b[1] not in self.p.modules else None
            if gt is None or gt[0] != "cls" or self.enum_member(b) is None and b[1] in self.p.modules:
                if b[1] in self.p.modules or b[1] in self.p.classes or b[1].split(".")[0] not in ("pkm", "pkm_cli") or gt is None:
                    v = st.heap.get(("glob", q))
                    return [(v if v is not None else ("g", q), st)]
        ty = self.type_of(b, st)
        if ty and ty[0] == "cls" and ty[1] in self.p.classes:
            cls = self.p.classes[ty[1]]
            m = self.p.find_method(cls, name)
            if m is not None and m.is_property:
                impls = [m] if b in self.exact or b[0] == "new" else self.p.implementations(cls, name)
                if len(impls) == 1:
                    c = Call(node, fr, name, ("a", b, name), b, [], {}, func=impls[0])
                    c.is_property = True
                    hook = self.rule.on_property(c, st, self)
                    if hook is not None:
                        exc.extend(hook.raises)
                        return list(hook.normal)
                if len(impls) == 1 and self.should_inline(impls[0], fr):
                    return self.inline(impls[0], c, st, exc)
        t = ("a", b, name)
        if depth(t) > self.rule.term_depth + 2:
            t = ("unk", ("attr", name, fr.func.qual))
        return [(t, st)]

    def e_Subscript(self, e, fr, st, exc):
        out = []
        for b, s in self.ev(e.value, fr, st, exc):
            for k, s2 in self.ev(e.slice, fr, s, exc):
                out += self.get_item(b, k, fr, s2, e, exc)
        return out

    def get_item(self, b, k, fr, st, node, exc):
        if b[0] == "phi":
            return [r for x in b[1] for r in self.get_item(x, k, fr, st, node, exc)]
        r = self.rule.on_load(b, k, st, node, fr, self)
        if r is not None:
            exc += r.raises
            return r.normal
        if getattr(self.rule, "subscript_raises", False) and ("item", b, k) not in st.heap and \
                isinstance(getattr(node, "ctx", None), ast.Load) and not isinstance(getattr(node, "slice", None), ast.Slice):
            exc.append((("exc", "KeyError", None), st))
        v = st.heap.get(("item", b, k))
        if isinstance(v, tuple):
            if v[0] == "phi":
                return [(x, st) for x in v[1]]
            return [(v, st)]
        if b[0] == "tup" and k[0] == "c" and isinstance(k[2], int) and -len(b[1]) <= k[2] < len(b[1]):
            return [(b[1][k[2]], st)]
        recs = st.heap.get(b)
        if isinstance(recs, frozenset) and b[0] == "cont" and b[1] != "opaque" and not (k[0] == "op" and k[1] == "slice"):
            out = []
            for el, facts in sorted(recs, key=repr):
                if el[0] == "kv":
                    if el[1] == k:
                        return [(el[2], self.with_facts(st, facts))]
                    vt = self.type_of(el[2], st)
                    if vt is not None:
                        self.tmap.setdefault(("s", b, k), vt)
                else:
                    out.append((el, self.with_facts(st, facts)))
            if 0 < len(out) <= 4:
                return out
        if k[0] == "op" and k[1] == "slice":
            return [(("call", ("x", "@slice"), None, (b, k), ()), st)]
        t = ("s", b, k)
        if depth(t) > self.rule.term_depth + 2:
            t = ("unk", ("item", fr.func.qual))
        return [(t, st)]

    def e_Slice(self, e, fr, st, exc):
        out = []
        parts = [x for x in (e.lower, e.upper, e.step)]
        for ts, s in self.evs([x for x in parts if x is not None], fr, st, exc):
            it = iter(ts)
            out.append((("op", "slice") + tuple(next(it) if x is not None else NONE for x in parts), s))
        return out

    def e_BoolOp(self, e, fr, st, exc):
        is_and = isinstance(e.op, ast.And)
        cur, done = [st], []
        for i, v in enumerate(e.values):
            nxt = []
            last = i == len(e.values) - 1
            for s in cur:
                for t, s2 in self.ev(v, fr, s, exc):
                    if last:
                        done.append((t, s2))
                        continue
                    a, b = self.assume(s2, t, True), self.assume(s2, t, False)
                    if is_and:
                        if a is not None:
                            nxt.append(a)
                        if b is not None:
                            done.append((t, b))
                    else:
                        if a is not None:
                            done.append((t, a))
                        if b is not None:
                            nxt.append(b)
            cur = nxt
        return done

    def e_UnaryOp(self, e, fr, st, exc):
        out = []
        for v, s in self.ev(e.operand, fr, st, exc):
            if isinstance(e.op, ast.Not):
                if v[0] == "c":
                    out.append((const(not v[2]), s))
                else:
                    out.append((("op", "not", v), s))
            elif isinstance(e.op, ast.USub) and v[0] == "c" and isinstance(v[2], (int, float)):
                out.append((const(-v[2]), s))
            else:
                out.append((("op", type(e.op).__name__, v), s))
        return out

    def e_BinOp(self, e, fr, st, exc):
        out = []
        for ts, s in self.evs([e.left, e.right], fr, st, exc):
            op = _OPS.get(type(e.op), "?")
            a, b = ts
            if op == "+" and not getattr(self.rule, "tuples_are_values", False) and (self._is_listy(a, s) or self._is_listy(b, s)):
                c, s = self.new_cont("list", e, fr, s, e.right.col_offset - 1)  # its left operand starts where the sum starts
                ss = self.extend(c, a, fr, s, e, exc)
                ss = [y for x in ss for y in self.extend(c, b, fr, x, e, exc)]
                out += [(c, x) for x in ss]
                continue
            if op == "-" and a == b and a[0] == "call" and a[1] == ("x", "len"):
                out.append((const(0), s))
                continue
            if op == "%" and a == const(0):
                out.append((a, s))
                continue
            if a[0] == "c" and b[0] == "c" and op in ("+", "-", "*") and isinstance(a[2], (int, str)) and type(a[2]) == type(b[2]):
                try:
                    out.append((const({"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y}[op](a[2], b[2])), s))
                    continue
                except TypeError:
                    pass
            out.append((self.clip(("op", op, a, b), e, fr), s))
        return out

    def _is_listy(self, t, st):
        if t[0] == "cont":
            return True
        ty = self.type_of(t, st)
        return bool(ty and ty[0] in ("list", "set", "iter"))

    def e_Compare(self, e, fr, st, exc):
        if len(e.ops) == 1:
            out = []
            for ts, s in self.evs([e.left, e.comparators[0]], fr, st, exc):
                t = ("op", _CMP[type(e.ops[0])], ts[0], ts[1])
                v = self.lit_value(self.lit_of(t)[0], s)
                if v is not None:
                    out.append((const(v == self.lit_of(t)[1]), s))
                else:
                    out.append((t, s))
            return out
        out = []
        for ts, s in self.evs([e.left] + e.comparators, fr, st, exc):
            cur = [s]
            for i, o in enumerate(e.ops):
                t = ("op", _CMP[type(o)], ts[i], ts[i + 1])
                nxt = []
                for x in cur:
                    a, b = self.assume(x, t, True), self.assume(x, t, False)
                    if b is not None:
                        out.append((FALSE, b))
                    if a is not None:
                        nxt.append(a)
                cur = nxt
            out += [(TRUE, x) for x in cur]
        return out

    def e_IfExp(self, e, fr, st, exc):
        ts, fs = self.cond(e.test, fr, st, exc)
        out = []
        for s in ts:
            out += self.ev(e.body, fr, s, exc)
        for s in fs:
            out += self.ev(e.orelse, fr, s, exc)
        return out

    def e_JoinedStr(self, e, fr, st, exc):
        parts = []
        exprs = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                exprs.append(v.value)
        out = []
        for ts, s in self.evs(exprs, fr, st, exc):
            it = iter(ts)
            parts = []
            for v in e.values:
                if isinstance(v, ast.FormattedValue):
                    parts.append(next(it))
                else:
                    parts.append(const(v.value))
            out.append((self.clip(("fstr", tuple(parts)), e, fr), s))
        return out

    def e_FormattedValue(self, e, fr, st, exc):
        return self.ev(e.value, fr, st, exc)

    def e_Starred(self, e, fr, st, exc):
        return self.ev(e.value, fr, st, exc)

    def e_Lambda(self, e, fr, st, exc):
        fi = self.p.func_of_node.get(id(e))
        if fi is None:
            return [(("unk", ("lambda", e.lineno)), st)]
        return [(self.closure(fi, fr), st)]

    def e_Await(self, e, fr, st, exc):
        return self.ev(e.value, fr, st, exc)

    def e_Yield(self, e, fr, st, exc):
        vals = self.ev(e.value, fr, st, exc) if e.value is not None else [(NONE, st)]
        out = []
        for v, s in vals:
            r = self.rule.on_add(("yield", fr.func.qual), v, s, e, fr, self)
            if r is not None:
                s = r
            if fr.on_yield is None:
                out.append((NONE, s))
                continue
            resumes, raises = fr.on_yield(v, s)
            out += resumes
            exc += raises
        return out

    def e_YieldFrom(self, e, fr, st, exc):
        out = []
        for v, s in self.ev(e.value, fr, st, exc):
            states = [s]
            if fr.on_yield is None:
                out.append((NONE, s))
                continue
            if v[0] == "gen" and v in self.gens:     # its yields are ours, in its order
                out += [(NONE, x) for x in self.compact(self._run_gen(v, s, fr, fr.on_yield, exc))]
                continue
            if v[0] == "tup":
                for x in v[1]:
                    nxt = []
                    for y in states:
                        resumes, raises = fr.on_yield(x, y)
                        nxt += [z for _, z in resumes]
                        exc += raises
                    states = self.compact(nxt)
                out += [(NONE, x) for x in states]
                continue
            res = [s]
            for el, s2 in self.elements(v, s, fr, e, exc):
                resumes, raises = fr.on_yield(el, s2)
                res += [x for _, x in resumes]
                exc += raises
            out += [(NONE, x) for x in self.compact(res)]
        return out

    # containers
    def new_cont(self, kind, node, fr, st, col=None) -> Tuple[Term, State]:
        t = ("cont", kind, (fr.fid, node.lineno, node.col_offset if col is None else col))
        s = self.kill(st, t).copy()
        s.heap[t] = frozenset()
        for k in [k for k in s.heap if isinstance(k, tuple) and len(k) > 1 and k[0] in ("item", "nonempty") and k[1] == t]:
            del s.heap[k]
        return t, s

    def _display(self, e, kind, fr, st, exc):
        out = []
        plain = [x.value if isinstance(x, ast.Starred) else x for x in e.elts]
        for ts, s in self.evs(plain, fr, st, exc):
            c, s = self.new_cont(kind, e, fr, s)
            ss = [s]
            for x, t in zip(e.elts, ts):
                if isinstance(x, ast.Starred):
                    ss = [z for y in ss for z in self.extend(c, t, fr, y, e, exc)]
                else:
                    ss = [self.add(c, t, fr, y, e) for y in ss]
            out += [(c, y) for y in ss]
        return out

    def e_List(self, e, fr, st, exc):
        if getattr(self.rule, "lists_are_tuples", False) and isinstance(e.ctx, ast.Load):
            return self.e_Tuple(e, fr, st, exc)
        return self._display(e, "list", fr, st, exc)

    def e_Set(self, e, fr, st, exc):
        return self._display(e, "set", fr, st, exc)

    def e_Tuple(self, e, fr, st, exc):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self._display(e, "tuple", fr, st, exc)
        return [(("tup", tuple(ts)), s) for ts, s in self.evs(e.elts, fr, st, exc)]

    def e_Dict(self, e, fr, st, exc):
        out = []
        es = []
        for k, v in zip(e.keys, e.values):
            if k is not None:
                es.append(k)
            es.append(v)
        for ts, s in self.evs(es, fr, st, exc):
            c, s = self.new_cont("dict", e, fr, s)
            it = iter(ts)
            ss = [s]
            for k, v in zip(e.keys, e.values):
                if k is None:
                    src = next(it)
                    ss = [z for y in ss for z in self.extend(c, src, fr, y, e, exc, kv=True)]
                else:
                    kt, vt = next(it), next(it)
                    nx = []
                    for y in ss:
                        r = self.rule.on_store("sub", c, kt, vt, y, e, fr, self)
                        y = (r if r is not None else y).copy()
                        y.heap[("item", c, kt)] = vt
                        self._record(y, c, ("tup", (kt, vt)), kv=True)
                        nx.append(y)
                    ss = nx
            out += [(c, y) for y in ss]
        return out

    def add(self, cont, value, fr, st, node) -> State:
        r = self.rule.on_add(cont, value, st, node, fr, self)
        s = (r if r is not None else st).copy()
        self._record(s, cont, value)
        return s

    def extend(self, cont, src, fr, st, node, exc, kv=False) -> List[State]:
        """add all elements of src to cont"""
        res = [st]
        recs = st.heap.get(src)
        if kv and isinstance(recs, frozenset):
            s = st
            for el, facts in sorted(recs, key=repr):
                s2 = self.with_facts(s, facts)
                r = self.rule.on_add(cont, el, s2, node, fr, self)
                s2 = (r if r is not None else s2).copy()
                cur = s2.heap.get(cont)
                cur = cur if isinstance(cur, frozenset) else frozenset()
                s2.heap[cont] = cur | {(el, facts)}
                s2.facts = dict(s.facts)
                s = s2
            return [s]
        base = st
        for el, s2 in self.elements(src, st, fr, node, exc):
            s3 = self.add(cont, el, fr, s2, node)
            # one element more; keep the records of the previous ones (may-information)
            nb = base.copy()
            nb.ps, nb.trace = s3.ps, s3.trace
            cur = nb.heap.get(cont)
            new = s3.heap.get(cont)
            nb.heap[cont] = (cur if isinstance(cur, frozenset) else frozenset()) | (
                new if isinstance(new, frozenset) else frozenset())
            if s3.ps != base.ps:
                res.append(nb)
            base = nb
        return self.compact([base] + [x for x in res[1:]])

    def _comp(self, e, kind, fr, st, exc, elt_fn):
        """comprehension: nested loops adding to a fresh container"""
        c, s0 = self.new_cont(kind, e, fr, st)
        # the targets of a comprehension live in their own scope: save shadowed names
        names = [x.id for g in e.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)]
        cf = Frame(fr.fid + (("comp", e.lineno, e.col_offset),), _CompScope(fr.func, set(names)), fr, fr.chain, fr.depth)
        cf.exc_stack = fr.exc_stack
        cf.on_yield = fr.on_yield
        cf.selfterm = fr.selfterm
        cf.comp_of = fr
        self.frames[cf.fid] = cf

        def level(i, s, out: Out):
            if i == len(e.generators):
                for s2 in elt_fn(c, cf, s, out.exc):
                    out.normal.append(s2)
                return
            g = e.generators[i]
            for it, s1 in self.ev(g.iter, fr if i == 0 else cf, s, out.exc):
                heads = Out()

                def visit(el, s2, o):
                    r = self.rule.on_iter(it, el, s2, e, cf, self)
                    if r is DEAD:
                        return
                    starts = r if isinstance(r, list) else [r if r is not None else s2]
                    for s3 in [y for s2 in starts for y in self.assign(g.target, el, cf, s2, o.exc)]:
                        cur = [s3]
                        for cnd in g.ifs:
                            nx = []
                            for y in cur:
                                t, f = self.cond(cnd, cf, y, o.exc)
                                nx += t
                                for z in f:
                                    r = self.rule.on_iter_end(it, el, z, e, cf, self, True)
                                    o.normal.append(r if r is not None else z)
                            cur = nx
                        for y in cur:
                            o2 = Out()
                            level(i + 1, y, o2)
                            for z in o2.normal:
                                r = self.rule.on_iter_end(it, el, z, e, cf, self, False)
                                o.normal.append(r if r is not None else z)
                            o.exc += o2.exc

                if it[0] == "gen" and it in self.gens:
                    self._comp_gen(it, visit, fr, s1, heads, e, cf)
                    out.normal += heads.normal
                    out.exc += heads.exc
                    continue

                def one(x):
                    o = Out()
                    for el, s2 in self.elements(it, x, cf, g.iter, o.exc):
                        visit(el, s2, o)
                    o.normal = self.compact(o.normal)
                    return o

                def hd(x):
                    r = self.rule.on_loop_done(it, x, e, cf, self)
                    return [x], [] if r is DEAD else [r if r is not None else x], []

                self._loop(hd, one, [], fr, [s1], heads)
                out.normal += heads.normal
                out.exc += heads.exc

        o = Out()
        level(0, s0, o)
        exc += o.exc
        res = []
        for s in self.compact(o.normal, 6):
            s = s.copy()
            for k in [k for k in s.env if k[0] == cf.fid]:
                del s.env[k]
            res.append((c, s))
        return res

    def e_ListComp(self, e, fr, st, exc):
        def elt(c, cf, s, ex):
            return [self.add(c, t, cf, s2, e) for t, s2 in self.ev(e.elt, cf, s, ex)]

        return self._comp(e, "list", fr, st, exc, elt)

    def e_SetComp(self, e, fr, st, exc):
        def elt(c, cf, s, ex):
            return [self.add(c, t, cf, s2, e) for t, s2 in self.ev(e.elt, cf, s, ex)]

        return self._comp(e, "set", fr, st, exc, elt)

    def e_GeneratorExp(self, e, fr, st, exc):
        return self.e_ListComp(e, fr, st, exc)

    def e_DictComp(self, e, fr, st, exc):
        g = e.generators[0]
        if self.rule.unroll_literals and len(e.generators) == 1 and not g.ifs and isinstance(g.target, ast.Name) and \
                isinstance(g.iter, (ast.Tuple, ast.List)) and 0 < len(g.iter.elts) <= 6 and \
                all(isinstance(x, ast.Constant) for x in g.iter.elts):
            out = []
            c, s0 = self.new_cont("dict", e, fr, st)
            cur = [s0]
            for x in g.iter.elts:
                nx = []
                for s in cur:
                    sub = _Subst(g.target.id, x)
                    for ts, s2 in self.evs([sub.visit(copy.deepcopy(e.key)), sub.visit(copy.deepcopy(e.value))], fr, s, exc):
                        r = self.rule.on_store("sub", c, ts[0], ts[1], s2, e, fr, self)
                        s3 = (r if r is not None else s2).copy()
                        s3.heap[("item", c, ts[0])] = ts[1]
                        self._record(s3, c, ("tup", tuple(ts)), kv=True)
                        nx.append(s3)
                cur = nx
            return [(c, s) for s in cur]
        def elt(c, cf, s, ex):
            out = []
            for ts, s2 in self.evs([e.key, e.value], cf, s, ex):
                r = self.rule.on_store("sub", c, ts[0], ts[1], s2, e, cf, self)
                s3 = (r if r is not None else s2).copy()
                self._record(s3, c, ("tup", tuple(ts)), kv=True)
                out.append(s3)
            return out

        return self._comp(e, "dict", fr, st, exc, elt)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e: ast.Call, fr, st, exc):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr.func
            while f is not None and f.cls is None:
                f = f.parent
            base = fr
            while base.selfterm is None and base.lex is not None:
                base = base.lex
            return [(("super", base.selfterm or ("unk", "self"), fr.func.cls.qual if fr.func.cls else ""), st)]
        out = []
        for ft, s in self._callee_term(e.func, fr, st, exc):
            argn = [a.value if isinstance(a, ast.Starred) else a for a in e.args]
            kwn = [k for k in e.keywords]
            star = any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in kwn)
            for ts, s2 in self.evs(argn + [k.value for k in kwn], fr, s, exc):
                args = []
                for a, t in zip(e.args, ts):
                    if isinstance(a, ast.Starred):
                        if t[0] == "tup":
                            args += list(t[1])
                        else:
                            args.append(("star", t))
                    else:
                        args.append(t)
                kwargs = {}
                for k, t in zip(kwn, ts[len(argn):]):
                    if k.arg is None:
                        known = self._known_items(t, s2)
                        if known is None:
                            kwargs["**"] = t
                        else:
                            kwargs.update(known)
                    else:
                        kwargs[k.arg] = t
                out += self.call(e, ft, args, kwargs, fr, s2, exc, star)
        return out

    def _known_items(self, t, st):
        """the items of the **kwargs dictionary of an inlined function, when all of them are known"""
        recs = st.heap.get(t)
        if t[0] != "cont" or t[2][-1] != "kwargs" and not getattr(self.rule, "lists_are_tuples", False) or not isinstance(recs, frozenset) or t in self.tmap:
            return None
        out = {}
        for r, cond in recs:
            if r[0] != "kv" or r[1][0] != "c" or cond and not getattr(self.rule, "lists_are_tuples", False) or r[1][2] in out:
                return None
            out[r[1][2]] = r[2]
        return out

    def _callee_term(self, fe, fr, st, exc):
        if isinstance(fe, ast.Attribute):
            out = []
            for b, s in self.ev(fe.value, fr, st, exc):
                if b[0] == "phi":
                    out += [(("bm", x, fe.attr), s) for x in b[1]]
                    continue
                if b[0] == "g" and self.type_of(b, s) is None or b[0] == "g" and b[1] in self.p.classes:
                    out += self.get_attr(b, fe.attr, fe, fr, s, exc)
                    continue
                v = s.heap.get(("fld", b, fe.attr))
                if v is not None and isinstance(v, tuple):
                    out.append((v, s))
                    continue
                out.append((("bm", b, fe.attr), s))
            return out
        return self.ev(fe, fr, st, exc)

    def call(self, node, ft, args, kwargs, fr, st, exc, star=False) -> List[Tuple[Term, State]]:
        if ft[0] == "phi":
            return [r for x in ft[1] for r in self.call(node, x, args, kwargs, fr, st, exc, star)]
        if ft[0] == "partial":
            kw = dict(ft[3])
            kw.update(kwargs)
            return self.call(node, ft[1], list(ft[2]) + args, kw, fr, st, exc, star)
        c = self.resolve(node, ft, args, kwargs, fr, st, star)
        self.calls_seen.add((fr.func.module.name, getattr(node, "lineno", 0), getattr(node, "col_offset", 0)))
        r = self.rule.on_call(c, st, self)
        if r is not None:
            exc += r.raises
            return r.normal
        return self.default_call(c, st, exc)

    def default_call(self, c: Call, st, exc):
        b = self.builtin(c, st, exc)
        if b is not None:
            return b
        if c.clos is not None:
            fi, lex = self.closures[c.clos]
            if fi.qual not in c.fr.chain and c.fr.depth < self.rule.max_depth + 2:
                return self.inline(fi, c, st, exc, lex=lex)
        if c.cls is not None:
            return self.construct(c, st, exc)
        if c.impls and len(c.impls) > 1:
            sel = [f for f in c.impls if self.should_inline(f, c.fr)]
            if sel and len(c.impls) <= 8 and any(self.relevant(f) for f in c.impls):
                out = []
                for f in c.impls:
                    c2 = Call(c.node, c.fr, c.name, c.fterm, c.recv, c.args, c.kwargs, func=f, star=c.star)
                    if self.should_inline(f, c.fr):
                        out += self.inline(f, c2, st, exc)
                    else:
                        out += self.opaque_call(c2, st, exc)
                return self.compact_pairs(out)
            return self.opaque_call(c, st, exc)
        if c.func is not None and self.should_inline(c.func, c.fr):
            return self.inline(c.func, c, st, exc)
        return self.opaque_call(c, st, exc)

    def resolve(self, node, ft, args, kwargs, fr, st, star) -> Call:
        p = self.p
        if ft[0] == "clos":
            fi, _ = self.closures[ft]
            return Call(node, fr, fi.name, ft, None, args, kwargs, func=fi, clos=ft, star=star)
        if ft[0] == "g":
            q = ft[1]
            if q in p.classes:
                return Call(node, fr, q.split(".")[-1], ft, None, args, kwargs, cls=p.classes[q], star=star)
            if q in p.funcs:
                f = p.funcs[q]
                if f.cls is not None and f.parent is None:
                    return self._unbound(node, f, p.classes.get(q.rpartition(".")[0]) or f.cls, ft, args, kwargs, fr, star)
                return Call(node, fr, f.name, ft, None, args, kwargs, func=f, star=star)
            cq, _, mn = q.rpartition(".")
            if cq in p.classes:
                m = p.find_method(p.classes[cq], mn)
                if m is not None:
                    return self._unbound(node, m, p.classes[cq], ft, args, kwargs, fr, star)
                return Call(node, fr, mn, ft, ("g", cq), args, kwargs, star=star)
            return Call(node, fr, mn or q, ft, None, args, kwargs, ext=q, star=star)
        if ft[0] in ("bm", "a"):
            recv, name = ft[1], ft[2]
            if recv[0] == "super":
                sc = self.type_of(recv[1], st)
                owner = p.classes.get(recv[2])
                start = p.classes.get(sc[1]) if sc and sc[0] in ("cls", "type") else owner
                m = p.find_after(start or owner, owner, name) if owner else None
                if m is None:
                    ext = None
                    return Call(node, fr, name, ft, recv[1], args, kwargs, ext=f"super.{name}", star=star)
                return Call(node, fr, name, ft, recv[1], args, kwargs, func=m, star=star)
            t = self.type_of(recv, st)
            if t and t[0] in ("cls", "type") and t[1] in p.classes:
                cls = p.classes[t[1]]
                m = p.find_method(cls, name)
                if t[0] == "type":
                    if m is not None:
                        return self._unbound(node, m, cls, ft, args, kwargs, fr, star, clsterm=recv)
                else:
                    if recv in self.exact or recv[0] == "new":
                        impls = [m] if m is not None else []
                    else:
                        impls = p.implementations(cls, name)
                    if m is not None and m.is_property:
                        impls = []
                    c = Call(node, fr, name, ft, recv, args, kwargs,
                             func=(impls[0] if len(impls) == 1 else m), star=star)
                    c.impls = impls
                    if impls or m is not None:
                        return c
            elif t is None and name not in COMMON_METHODS:
                ms = p.methods_by_name.get(name, [])
                owners = {f.cls.qual for f in ms}
                if ms:
                    roots = [f for f in ms if not any(b.qual in owners for b in p.mro(f.cls)[1:])]
                    if len(roots) == 1:
                        impls = [f for f in ms if not f.is_abstract]
                        c = Call(node, fr, name, ft, recv, args, kwargs,
                                 func=(impls[0] if len(impls) == 1 else roots[0]), star=star)
                        c.impls = impls
                        return c
            return Call(node, fr, name, ft, recv, args, kwargs, star=star)
        if ft[0] == "call" and ft[1][0] == "x":
            return Call(node, fr, "<call>", ft, None, args, kwargs, star=star)
        return Call(node, fr, "<?>", ft, None, args, kwargs, star=star)

    def _unbound(self, node, m, cls, ft, args, kwargs, fr, star, clsterm=None):
        if m.is_static:
            return Call(node, fr, m.name, ft, None, args, kwargs, func=m, star=star)
        if m.is_classmethod:
            return Call(node, fr, m.name, ft, clsterm or ("g", cls.qual), args, kwargs, func=m, star=star)
        if args:
            return Call(node, fr, m.name, ft, args[0], args[1:], kwargs, func=m, star=star)
        return Call(node, fr, m.name, ft, None, args, kwargs, func=m, star=star)

    # ---- inlining policy
    def direct_names(self, f: FuncInfo) -> Set[str]:
        if hasattr(f, "_dnames"):
            return f._dnames
        s = set()
        nodes = list(walk_own(f.node))
        for n in nodes:
            if isinstance(n, ast.Attribute):
                s.add(n.attr)
            elif isinstance(n, ast.Name):
                s.add(n.id)
            elif isinstance(n, ast.Lambda) or isinstance(n, (ast.FunctionDef,)):
                li = self.p.func_of_node.get(id(n))
                if li is not None:
                    s |= self.direct_names(li)
            elif isinstance(n, ast.With):
                s.add("@with")
        f._dnames = s
        return s

    def callees(self, f: FuncInfo) -> List[FuncInfo]:
        if hasattr(f, "_callees"):
            return f._callees
        f._callees = []
        out = []
        for n in walk_own(f.node):
            if isinstance(n, ast.Call):
                tg = self.ti.static_callee(n, f)
                if isinstance(tg, ClassInfo):
                    i = self.p.find_method(tg, "__init__")
                    if i is not None:
                        out.append(i)
                elif isinstance(tg, FuncInfo):
                    out.append(tg)
                    if tg.cls is not None and tg.parent is None:
                        for sc in self.p.all_subclasses(tg.cls):
                            if tg.name in sc.methods:
                                out.append(sc.methods[tg.name])
            elif isinstance(n, (ast.FunctionDef, ast.Lambda)):
                li = self.p.func_of_node.get(id(n))
                if li is not None:
                    out += self.callees(li)
            elif isinstance(n, ast.Attribute):
                bt = self.ti.expr_type(n.value, f)
                if bt and bt[0] == "cls" and bt[1] in self.p.classes:
                    m = self.p.find_method(self.p.classes[bt[1]], n.attr)
                    if m is not None:
                        out.append(m)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                r = self.p.resolve_dotted(n.id, f.module, f)
                if r in self.p.funcs:
                    out.append(self.p.funcs[r])
            if isinstance(n, ast.With):
                for i in n.items:
                    t = self.ti.expr_type(i.context_expr, f)
                    if t and t[0] == "cls" and t[1] in self.p.classes:
                        for mn in ("__enter__", "__exit__"):
                            m = self.p.find_method(self.p.classes[t[1]], mn)
                            if m is not None:
                                out.append(m)
        f._callees = list(dict.fromkeys(out))
        return f._callees

    def relevant(self, f: FuncInfo) -> bool:
        """does f (transitively) mention an interesting name?"""
        r = self._rel.get(f.qual)
        if r is not None:
            return r
        if not self.rule.interesting:
            return False
        seen = {f.qual: f}
        st = [(f, 0)]
        res = False
        while st:
            g, d = st.pop()
            if self.direct_names(g) & self.rule.interesting and not (g is not f and self.rule.opaque(g)):
                res = True
                break
            if d >= self.rule.max_depth:
                continue
            for x in self.callees(g):
                if x.qual not in seen and not self.rule.opaque(x):
                    seen[x.qual] = x
                    st.append((x, d + 1))
        self._rel[f.qual] = res
        return res

    def size(self, f: FuncInfo) -> int:
        r = self._size.get(f.qual)
        if r is None:
            r = self._size[f.qual] = sum(1 for n in walk_own(f.node) if isinstance(n, ast.stmt)) or 1
        return r

    def should_inline(self, f: FuncInfo, fr: Frame) -> bool:
        if self.rule.opaque(f) or f.is_abstract:
            return False
        if self.rule.force_inline(f):
            return True
        if fr.depth >= self.rule.max_depth:
            return False
        if f.qual in fr.chain:
            return self.relevant(f) and f.qual in self.recursion
        if self.relevant(f):
            return True
        if self.rule.inline_all_small and self.size(f) <= 6 and fr.depth < 4:
            return f.module is fr.func.module or self.size(f) <= 3
        return False

    # ---- inlining
    def bind_params(self, func: FuncInfo, c: Call, st: State, fr_callee: Frame, exc) -> List[Tuple[Dict[str, Term], State]]:
        args = list(c.args)
        params = list(func.params)
        res: Dict[str, Term] = {}
        if func.cls is not None and func.parent is None and not func.is_static and params and func.name != "<lambda>":
            if c.recv is not None:
                args = [c.recv] + args
        pos = list(params)
        rest = []
        unknown = False
        for a in args:
            if a[0] == "star":
                unknown = True
                if func.vararg and not pos:
                    rest.append(("elem", a[1]))
                for p in pos:
                    if p not in c.kwargs:
                        res[p] = ("elem", a[1])
                pos = []
                rest.append(("elem", a[1]))
                continue
            if pos:
                res[pos.pop(0)] = a
            else:
                rest.append(a)
        kw_extra = []
        for k, v in c.kwargs.items():
            if k == "**":
                unknown = True
                continue
            if k in params or k in func.kwonly:
                res[k] = v
            else:
                kw_extra.append((k, v))
        s = st
        if func.vararg:
            if not any(a[0] == "star" for a in args):
                res[func.vararg] = ("tup", tuple(rest))
            else:
                ct = ("cont", "tuple", (fr_callee.fid, "varargs"))
                s = s.copy()
                s.heap[ct] = frozenset((r, frozenset()) for r in rest)
                res[func.vararg] = ct
        if func.kwarg:
            ct = ("cont", "dict", (fr_callee.fid, "kwargs"))
            s = s.copy()
            s.heap[ct] = frozenset((("kv", const(k), v), frozenset()) for k, v in kw_extra)
            for k, v in kw_extra:
                s.heap[("item", ct, const(k))] = v
            if "**" in c.kwargs:
                self.tmap.setdefault(ct, ("dict", None, None))
            res[func.kwarg] = ct
        outs = [(res, s)]
        for p in params + func.kwonly:
            if p in res:
                continue
            d = func.defaults.get(p)
            nx = []
            for r, s1 in outs:
                if unknown and d is None or unknown and "**" in c.kwargs:
                    r2 = dict(r)
                    r2[p] = ("unk", ("arg", func.qual, p, c.loc))
                    nx.append((r2, s1))
                elif d is None:
                    r2 = dict(r)
                    r2[p] = ("unk", ("missing", func.qual, p))
                    nx.append((r2, s1))
                else:
                    for v, s2 in self.ev(d, fr_callee, s1, exc):
                        r2 = dict(r)
                        r2[p] = v
                        nx.append((r2, s2))
            outs = nx
        for r, s1 in outs:
            for p, v in r.items():
                a = func.annotations.get(p)
                if a is not None and p != func.vararg and p != func.kwarg:
                    self.hint(v, self.ti.from_ann(a, func.module, func, func.cls), s1)
        return outs

    def inline(self, func: FuncInfo, c: Call, st: State, exc, lex: Optional[Frame] = None) -> List[Tuple[Term, State]]:
        fr = c.fr
        fid = fr.fid + ((func.qual, getattr(c.node, "lineno", 0), getattr(c.node, "col_offset", 0)),)
        if len(fid) > 60:
            raise AnalysisError("inlining too deep")
        nf = Frame(fid, func, lex, fr.chain + (func.qual,), fr.depth + 1)
        self.frames[fid] = nf
        if func.cls is not None and func.parent is None and not func.is_static:
            nf.selfterm = c.recv
        elif lex is not None:
            nf.selfterm = lex.selfterm
        if func.is_generator:
            out = []
            for params, s in self.bind_params(func, c, st, nf, exc):
                if not self.relevant(func) and not self.rule.force_inline(func) and self.size(func) > 12:
                    out += self.opaque_call(c, s, exc)
                    continue
                g = ("gen", func.qual, fid)
                self.gens[g] = (func, c, lex, fid, params)
                s = s.copy()
                for k, v in params.items():
                    s.env[(fid, k)] = v
                out.append((g, s))
            return out
        self.inlined.add(func.qual)
        out = []
        recursive_root = func.qual not in self.recursion and self._self_recursive(func)
        if func.qual in fr.chain:
            # recursive call: use the summary computed so far
            summ = self.recursion.get(func.qual)
            if summ is None:
                return self.opaque_call(c, st, exc)
            summ["used"] = True
            for kind, ps in summ["out"].get(st.ps, ()):  # bottom on the first round
                s = st.with_ps(ps)
                s = self.demote(s, [c.recv] + c.all_args())
                if kind == "ret":
                    out.append((c.term(), s))
                else:
                    exc.append((("exc", None, None), s))
            summ["need"].add(st.ps)
            return out
        if recursive_root:
            self.recursion[func.qual] = {"out": {}, "need": set(), "used": False}
        try:
            rounds = 0
            while True:
                rounds += 1
                ex: List = []
                res = self._inline_once(func, c, st, ex, nf)
                if not recursive_root:
                    break
                summ = self.recursion[func.qual]
                if not summ["used"]:
                    break
                changed = False
                todo = {st.ps} | summ["need"]
                for ps in todo:
                    if ps == st.ps:
                        r1, e1 = res, ex
                    else:
                        e1 = []
                        r1 = self._inline_once(func, c, st.with_ps(ps), e1, nf)
                    outs = {("ret", s.ps) for _, s in r1} | {("exc", s.ps) for _, s in e1}
                    old = summ["out"].get(ps, set())
                    if not outs <= old:
                        summ["out"][ps] = old | outs
                        changed = True
                if not changed or rounds > 6:
                    break
            exc += ex
            return res
        finally:
            if recursive_root:
                del self.recursion[func.qual]

    def _self_recursive(self, func: FuncInfo) -> bool:
        if hasattr(func, "_selfrec"):
            return func._selfrec
        seen, stk, res = set(), list(self.callees(func)), False
        while stk and len(seen) < 200:
            g = stk.pop()
            if g is func:
                res = True
                break
            if g.qual in seen:
                continue
            seen.add(g.qual)
            stk += self.callees(g)
        func._selfrec = res
        return res

    def _inline_once(self, func, c, st, exc, nf):
        out = []
        for params, s in self.bind_params(func, c, st, nf, exc):
            s = s.copy()
            for k, v in params.items():
                s.env[(nf.fid, k)] = v
            o = self.block(func.body, nf, [s])
            rets = o.ret + [(NONE, x) for x in o.normal]
            keep = bool(func.nested) or any(isinstance(n, ast.Lambda) for n in walk_own(func.node))
            for kind, lst, dst in (("ret", rets, out), ("exc", o.exc, exc)):
                for t, x in lst:
                    x = x.copy()
                    if not keep:
                        for k in [k for k in x.env if k[0][:len(nf.fid)] == nf.fid]:
                            del x.env[k]
                    x = self.rule.after_inline(c, kind, t, x, self)
                    if kind == "ret" and func.node is not None:
                        self.hint(t, self.ti.ret_type(func), x)
                    dst.append((t, x))
        return self.compact_pairs(out)

    def construct(self, c: Call, st: State, exc) -> List[Tuple[Term, State]]:
        cls = c.cls
        t = ("new", cls.qual, (c.fr.fid, getattr(c.node, "lineno", 0), getattr(c.node, "col_offset", 0)))
        s = self.kill(st, t).copy()
        for k in [k for k in s.heap if isinstance(k, tuple) and len(k) > 1 and k[1] == t]:
            del s.heap[k]
        init = self.p.find_method(cls, "__init__")
        if self.p.is_subclass(cls.qual, "BaseException"):
            s.heap[("ctor", t)] = ("tup", tuple(c.args))
            return [(t, s)]
        if init is not None:
            if c.fr.depth < self.rule.max_depth and init.qual not in c.fr.chain and (self.relevant(init) or self.size(init) <= 25):
                c2 = Call(c.node, c.fr, "__init__", None, t, c.args, c.kwargs, func=init, star=c.star)
                return [(t, x) for _, x in self.inline(init, c2, s, exc)]
        else:
            fields = []
            for k in reversed(self.p.mro(cls)):
                if k.is_dataclass:
                    for f in k.fields:
                        if f not in fields:
                            fields.append(f)
            kw = dict(c.kwargs)
            for f, a in zip(fields, [a for a in c.args if a[0] != "star"]):
                s.heap[("fld", t, f)] = a
            for k, v in kw.items():
                if k != "**":
                    s.heap[("fld", t, k)] = v
            if fields and not any(a[0] == "star" for a in c.args) and "**" not in kw:
                for k in reversed(self.p.mro(cls)):
                    for f, d in k.field_defaults.items():
                        if f in fields and ("fld", t, f) not in s.heap and isinstance(d, ast.Constant):
                            s.heap[("fld", t, f)] = const(d.value)
            pi = self.p.find_method(cls, "__post_init__")
            if pi is not None and self.should_inline(pi, c.fr):
                c2 = Call(c.node, c.fr, "__post_init__", None, t, [], {}, func=pi)
                return [(t, x) for _, x in self.inline(pi, c2, s, exc)]
        if cls.is_enum or self.p.ext_bases(cls):
            if self.rule.can_raise(c):
                exc.append((("exc", None, None), st))
        return [(t, s)]

    def opaque_call(self, c: Call, st: State, exc) -> List[Tuple[Term, State]]:
        t = c.term()
        if depth(t) > self.rule.term_depth:
            t = ("call", c.key(), None, (("unk", ("deep", c.loc)),), ())
        pure = self.is_pure(c)
        s = st
        if not pure:
            s = self.kill(s, t)
            if not (c.recv is not None and c.name in QUERY_METHODS):
                s = self.demote(s, [c.recv] + c.all_args())
        states = [s]
        # closures handed to unknown code may run
        if self.rule.invoke_callbacks(c) == "once":
            for a in c.all_args():
                if a[0] == "clos" and a in self.closures or a[0] == "bm":
                    if a[0] == "clos":
                        fi, lex = self.closures[a]
                        if fi.qual in c.fr.chain or not self.relevant(fi) and self.size(fi) > 6:
                            continue
                    else:
                        continue
                    nx = list(states)
                    for x in states:
                        cc = Call(c.node, c.fr, fi.name, a, None,
                                  [("unk", ("cbarg", fi.qual, i)) for i in range(len(fi.params))], {}, func=fi, clos=a)
                        for _, y in self.inline(fi, cc, x, exc, lex=lex):
                            nx.append(y)
                    states = self.compact(nx)
        if not pure and self.rule.can_raise(c):
            for x in states:
                exc.append((("exc", None, None), x))
            if self.rule.base_exceptions:
                for x in states:
                    exc.append((("exc", "@Base", None), x))
        return [(t, x) for x in states]

    def is_pure(self, c: Call) -> bool:
        if c.ext is not None:
            if c.ext in PURE_EXT or c.ext.split(".")[0] == "builtins":
                return True
            if c.ext in BUILTIN_EXC:
                return True
            return False
        if c.func is None and c.recv is not None and c.name in PURE_METHODS:
            ty = self.type_of(c.recv)
            return not (ty and ty[0] == "cls")
        return False

    # ---- models of builtins
    def builtin(self, c: Call, st: State, exc) -> Optional[List[Tuple[Term, State]]]:
        n = c.ext
        fr, node = c.fr, c.node
        if n is not None:
            if n in ("list", "set", "tuple", "sorted", "reversed", "frozenset", "collections.deque", "iter",
                     "itertools.chain", "itertools.chain.from_iterable"):
                if n == "dict":
                    return None
                kind = {"sorted": "list", "reversed": "list", "iter": "list", "frozenset": "set"}.get(n, n if n in ("list", "set", "tuple") else "list")
                cont, s = self.new_cont(kind, node, fr, st)
                src = c.args
                ss = [s]
                if n == "itertools.chain.from_iterable":
                    nx = []
                    for x in ss:
                        cur = [x]
                        for el, x2 in self.elements(src[0], x, fr, node, exc):
                            cur += self.extend(cont, el, fr, x2, node, exc)
                        nx += cur
                    return [(cont, x) for x in self.compact(nx)]
                for a in src:
                    if a[0] == "star":
                        a = a[1]
                        nx = []
                        for x in ss:
                            cur = [x]
                            for el, x2 in self.elements(a, x, fr, node, exc):
                                cur += self.extend(cont, el, fr, x2, node, exc)
                            nx += cur
                        ss = self.compact(nx)
                    else:
                        ss = [y for x in ss for y in self.extend(cont, a, fr, x, node, exc)]
                k = c.kwargs.get("key")
                if k is not None and k[0] == "clos":
                    ss = [y for x in ss for y in self._maybe_call(k, [("unk", "sortkey")], c, x, exc)]
                ty = self.type_of(src[0], st) if src else None
                if elem_type(ty) is not None:
                    self.tmap.setdefault(cont, (kind if kind != "tuple" else "list", elem_type(ty)))
                return [(cont, x) for x in ss]
            if n == "dict":
                cont, s = self.new_cont("dict", node, fr, st)
                ss = [s]
                for a in c.args:
                    if a[0] == "star":
                        continue
                    if isinstance(st.heap.get(a), frozenset):
                        ss = [y for x in ss for y in self.extend(cont, a, fr, x, node, exc, kv=True)]
                    else:
                        self.tmap.setdefault(cont, self.type_of(a, st))
                        for x in ss:
                            x.heap[cont] = frozenset([(("kv", ("elem", a), ("s", a, ("elem", a))), frozenset())])
                for k, v in c.kwargs.items():
                    if k == "**":
                        continue
                    for x in ss:
                        x.heap[("item", cont, const(k))] = v
                        self._record(x, cont, ("tup", (const(k), v)), kv=True)
                return [(cont, x) for x in ss]
            if n == "type" and len(c.args) == 1 and (c.args[0] in self.exact or c.args[0][0] == "new"):
                ty = self.type_of(c.args[0], st)
                if ty and ty[0] == "cls" and ty[1] in self.p.classes:
                    return [(("g", ty[1]), st)]
            if n == "map" and len(c.args) >= 2:
                cont, s = self.new_cont("list", node, fr, st)
                out = [s]
                for el, s2 in self.elements(c.args[1], s, fr, node, exc):
                    extra = [("elem", a) for a in c.args[2:]]
                    for v, s3 in self.call(node, c.args[0], [el] + extra, {}, fr, s2, exc):
                        s4 = self.add(cont, v, fr, s3, node)
                        out.append(s4)
                return [(cont, x) for x in self._merge_cont(out, cont)]
            if n == "filter" and len(c.args) == 2:
                cont, s = self.new_cont("list", node, fr, st)
                out = [s]
                for el, s2 in self.elements(c.args[1], s, fr, node, exc):
                    if c.args[0] == NONE:
                        res = [(el, s2)]
                    else:
                        res = self.call(node, c.args[0], [el], {}, fr, s2, exc)
                    for v, s3 in res:
                        a, b = self.assume(s3, v, True), self.assume(s3, v, False)
                        if a is not None:
                            out.append(self.add(cont, el, fr, a, node))
                        if b is not None:
                            out.append(b)
                return [(cont, x) for x in self._merge_cont(out, cont)]
            if n in ("any", "all") and len(c.args) == 1:
                return self._any_all(n, c, st, exc)
            if n == "next" and c.args:
                out = []
                if len(c.args) > 1:
                    out.append((c.args[1], st))
                else:
                    exc.append((("exc", "StopIteration", None), st))
                for el, s in self.elements(c.args[0], st, fr, node, exc):
                    out.append((el, s))
                return out
            if n in ("min", "max") and len(c.args) == 1:
                out = []
                if "default" in c.kwargs:
                    out.append((c.kwargs["default"], st))
                elif self.rule.can_raise(c):
                    exc.append((("exc", "ValueError", None), st))
                k = c.kwargs.get("key")
                ss = [st]
                if k is not None and k[0] == "clos":
                    ss = self._maybe_call(k, [("unk", "key")], c, st, exc)
                for x in ss:
                    out += self.elements(c.args[0], x, fr, node, exc)
                return out
            if n == "enumerate" and c.args:
                cont, s = self.new_cont("list", node, fr, st)
                out = [s]
                for el, s2 in self.elements(c.args[0], s, fr, node, exc):
                    out.append(self.add(cont, ("tup", (("unk", ("idx", fr.func.qual, node.lineno, c.args[0], c.arg(1, "start") or ("c", 0))), el)), fr, s2, node))
                return [(cont, x) for x in self._merge_cont(out, cont)]
            if n == "zip" and c.args:
                cont, s = self.new_cont("list", node, fr, st)
                cur = [([], s)]
                for a in c.args:
                    nx = []
                    for ts, x in cur:
                        for el, x2 in self.elements(a if a[0] != "star" else ("elem", a[1]), x, fr, node, exc):
                            nx.append((ts + [el], x2))
                    cur = nx[:12]
                out = [s] + [self.add(cont, ("tup", tuple(ts)), fr, x, node) for ts, x in cur]
                return [(cont, x) for x in self._merge_cont(out, cont)]
            if n == "functools.partial" and c.args:
                return [(("partial", c.args[0], tuple(c.args[1:]), tuple(sorted(c.kwargs.items()))), st)]
            if n == "typing.cast" and len(c.args) == 2:
                if c.args[0][0] == "g" and c.args[0][1] in self.p.classes:
                    self.hint(c.args[1], ("cls", c.args[0][1]), st)
                return [(c.args[1], st)]
            if n == "bool" and len(c.args) == 1:
                a, b = self.assume(st, c.args[0], True), self.assume(st, c.args[0], False)
                return [x for x in ((TRUE, a), (FALSE, b)) if x[1] is not None]
            if n == "getattr" and len(c.args) >= 2 and c.args[1][0] == "c":
                r = self.get_attr(c.args[0], c.args[1][2], node, fr, st, exc)
                if len(c.args) == 3:
                    r = r + [(c.args[2], st)]
                return r
            if n == "setattr" and len(c.args) == 3 and c.args[1][0] == "c":
                r = self.rule.on_store("attr", c.args[0], c.args[1][2], c.args[2], st, node, fr, self)
                s = self.kill(r if r is not None else st, ("a", c.args[0], c.args[1][2])).copy()
                s.heap[("fld", c.args[0], c.args[1][2])] = c.args[2]
                return [(NONE, s)]
            if n == "dataclasses.replace" and c.args:
                b = c.args[0]
                ty = self.type_of(b, st)
                if ty and ty[0] == "cls":
                    t = ("new", ty[1], (fr.fid, node.lineno, node.col_offset))
                    s = self.kill(st, t).copy()
                    for k in [k for k in s.heap if isinstance(k, tuple) and len(k) > 1 and k[1] == t]:
                        del s.heap[k]
                    for k in self.p.mro(self.p.classes[ty[1]]):
                        for f in k.fields:
                            if f not in c.kwargs:
                                r = s.heap.get(("fld", b, f), ("a", b, f))
                                s.heap[("fld", t, f)] = r
                    for k, v in c.kwargs.items():
                        s.heap[("fld", t, k)] = v
                    return [(t, s)]
                return None
            if n == "isinstance" and len(c.args) == 2:
                t = c.term()
                v = self.lit_value(("isinst", c.args[0], c.args[1]), st)
                return [(const(v) if v is not None else t, st)]
            if n in ("copy.copy",):
                return None
            return None
        # methods of builtin containers
        if c.recv is not None and c.func is None:
            r, name = c.recv, c.name
            ty = self.type_of(r, st)
            if ty and ty[0] == "cls":
                return None
            if name in ADDERS and len(c.args) == ADDERS[name] + 1:
                s = self.add(r, c.args[-1], fr, st, node)
                s = self._demote_cont(s, r)
                return [(NONE, s)]
            if name in ("extend", "update") and len(c.args) == 1 and not c.kwargs:
                if name == "update" and (ty and ty[0] == "dict" or r[0] == "cont" and r[1] == "dict"):
                    a = c.args[0]
                    ss = self.extend(r, a, fr, st, node, exc, kv=True) if isinstance(st.heap.get(a), frozenset) else None
                    if ss is None:
                        x = st.copy()
                        cur = x.heap.get(r)
                        x.heap[r] = (cur if isinstance(cur, frozenset) else frozenset()) | {
                            (("kv", ("elem", a), ("s", a, ("elem", a))), frozenset())}
                        rr = self.rule.on_add(r, ("all", a), x, node, fr, self)
                        ss = [rr if rr is not None else x]
                    return [(NONE, self._demote_cont(x, r)) for x in ss]
                return [(NONE, self._demote_cont(x, r)) for x in self.extend(r, c.args[0], fr, st, node, exc)]
            if name == "items" and not c.args and (r[0] != "g"):
                recs = st.heap.get(r)
                cont, s = self.new_cont("list", node, fr, st)
                rs = set()
                if isinstance(recs, frozenset):
                    for el, facts in recs:
                        if el[0] == "kv":
                            rs.add((("tup", (el[1], el[2])), facts))
                if r[0] != "cont":
                    k = ("elem", r)
                    s = self.kill(s, k)
                    s = s.copy()
                    rs.add((("tup", (k, ("s", r, k))), frozenset()))
                    self.generic[cont] = k
                s.heap[cont] = frozenset(rs)
                return [(cont, s)]
            if name == "values" and not c.args and (r[0] == "cont" or ty and ty[0] == "dict"):
                recs = st.heap.get(r)
                cont, s = self.new_cont("list", node, fr, st)
                rs = set()
                if isinstance(recs, frozenset):
                    for el, facts in recs:
                        if el[0] == "kv":
                            rs.add((el[2], facts))
                if r[0] != "cont":
                    k = ("elem", r)
                    s = self.kill(s, k).copy()
                    rs.add((("s", r, k), frozenset()))
                    self.generic[cont] = k
                s.heap[cont] = frozenset(rs)
                if ty and ty[0] == "dict":
                    self.tmap.setdefault(cont, ("list", ty[2]))
                return [(cont, s)]
            if name == "keys" and not c.args and (r[0] == "cont" or ty and ty[0] == "dict"):
                return [(r, st)]
            if name == "copy" and not c.args and (r[0] == "cont" or ty and ty[0] in ("list", "set", "dict")):
                kind = r[1] if r[0] == "cont" else ty[0]
                cont, s = self.new_cont(kind, node, fr, st)
                ss = self.extend(cont, r, fr, s, node, exc, kv=(kind == "dict" and isinstance(st.heap.get(r), frozenset)))
                if ty:
                    self.tmap.setdefault(cont, ty)
                return [(cont, x) for x in ss]
            if name == "get" and c.args and (r[0] == "cont" or ty and ty[0] == "dict" or ty is None):
                s = st
                v = s.heap.get(("item", r, c.args[0]))
                if isinstance(v, tuple) and v[0] != "phi":
                    return [(v, s)]
                d = c.args[1] if len(c.args) > 1 else None
                t = ("s", r, c.args[0])
                out = []
                recs = st.heap.get(r)
                if r[0] == "cont" and isinstance(recs, frozenset) and r[1] == "dict":
                    kv = [el for el, _ in recs if el[0] == "kv"]
                    if c.args[0][0] == "c" and all(k[1][0] == "c" for k in kv):
                        return [(d or NONE, s)]   # an entry with this key would be in the heap
                    for k in kv:
                        vt = self.type_of(k[2], st)
                        if vt is not None:
                            self.tmap.setdefault(t, vt)
                if d is not None and d != NONE:
                    return [(t, s), (d, s)]
                return [(t, s)]
            if name == "setdefault" and len(c.args) == 2:
                t = ("s", r, c.args[0])
                s = st.copy()
                rr = self.rule.on_store("sub", r, c.args[0], c.args[1], s, node, fr, self)
                s = (rr if rr is not None else s).copy()
                self._record(s, r, ("tup", (c.args[0], c.args[1])), kv=True)
                return [(t, st), (c.args[1], s)]
            if name == "pop" and (r[0] == "cont" or ty and ty[0] in ("dict", "list", "set") or ty is None):
                rr = self.rule.on_store("delsub", r, c.args[0] if c.args else None, None, st, node, fr, self)
                s = self.shrunk(rr if rr is not None else st, r)
                if len(c.args) < 2 and self.rule.can_raise(c):
                    exc.append((("exc", "KeyError" if c.args else "IndexError", None), st))
                if c.args and (r[0] == "cont" and r[1] == "dict" or ty and ty[0] == "dict" or len(c.args) == 2):
                    s2 = s.copy()
                    v = s2.heap.pop(("item", r, c.args[0]), None)
                    if isinstance(v, tuple):
                        return [(v, s2)]
                    out = [(("s", r, c.args[0]), s2)]
                    if len(c.args) > 1:
                        d = c.args[1]
                        out.append((d, self.with_facts(s2, frozenset({(("isnone", out[0][0]), True)})) if d == NONE else s2))
                    return out
                if r[0] == "cont":
                    els = self.elements(r, s, fr, node, exc)
                    if els:
                        return els
                return [(("call", ("m", "pop"), r, tuple(c.args), ()), self.kill(s, ("call", ("m", "pop"), r, tuple(c.args), ())))]
            if name == "clear" and not c.args and r[0] == "cont":
                rr = self.rule.on_store("clear", r, None, None, st, node, fr, self)
                s = self.shrunk(rr if rr is not None else st, r).copy()
                s.heap[r] = frozenset()
                return [(NONE, s)]
            if name in ("remove", "discard") and len(c.args) == 1:
                rr = self.rule.on_store("remove", r, c.args[0], None, st, node, fr, self)
                if name == "remove" and self.rule.can_raise(c):
                    exc.append((("exc", "ValueError", None), st))
                return [(NONE, self.shrunk(rr if rr is not None else st, r))]
            if name in ("union", "intersection", "difference") and r[0] == "cont":
                cont, s = self.new_cont("set", node, fr, st)
                ss = self.extend(cont, r, fr, s, node, exc)
                if name == "union":
                    for a in c.args:
                        ss = [y for x in ss for y in self.extend(cont, a, fr, x, node, exc)]
                return [(cont, x) for x in ss]
        return None

    def _demote_cont(self, s, r):
        return self.demote(s, [r]) if r[0] != "cont" else s

    def _maybe_call(self, clos, args, c, st, exc) -> List[State]:
        if clos not in self.closures:
            return [st]
        fi, lex = self.closures[clos]
        if not self.relevant(fi) or fi.qual in c.fr.chain:
            return [st]
        return self.compact([st] + [s for _, s in self.call(c.node, clos, args, {}, c.fr, st, exc)])

    def _merge_cont(self, states: List[State], cont) -> List[State]:
        """union of the element records over the given states, grouped by property state"""
        groups: Dict[Any, State] = {}
        for s in states:
            g = (s.ps, s.pend)
            groups[g] = self.join(groups[g], s) if g in groups else s
        allr = frozenset().union(*[s.heap.get(cont) or frozenset() for s in states])
        out = []
        for s in groups.values():
            s = s.copy()
            s.heap[cont] = allr
            out.append(s)
        return out

    def _any_all(self, n, c: Call, st: State, exc):
        out = []
        is_any = n == "any"
        # empty / no decisive element
        none_decisive = st
        els = self.elements(c.args[0], st, c.fr, c.node, exc)
        for el, s in els:
            a = self.assume(s, el, is_any)
            if a is not None:
                out.append((const(is_any), a))
            if none_decisive is not None:
                b = none_decisive
                # for all elements the opposite holds
                cur = s.facts
                nb = b.copy()
                for l, v in cur.items():
                    if l not in nb.facts and self._relevant_fact(l, el):
                        pass
                nd = self.assume(nb, el, not is_any)
                none_decisive = nd if nd is not None else nb
        if none_decisive is not None:
            out.append((const(not is_any), none_decisive))
        return out


class _CompScope:
    """pseudo function for comprehension scopes"""

    def __init__(self, func, names):
        self._f = func
        self.locals = names
        self.nested = {}
        self.local_imports = {}

    def __getattr__(self, item):
        return getattr(self._f, item)


COMMON_METHODS = set(dir(str)) | set(dir(dict)) | set(dir(list)) | set(dir(set)) | set(dir(tuple)) | set(dir(bytes)) | {
    "open", "close", "read", "write", "exists", "mkdir", "run", "start", "join", "get", "load", "save", "parse", "match",
    "group", "release", "acquire", "wait", "result", "submit", "name", "flush", "readline", "unlink", "rmdir", "touch",
    "symlink_to", "resolve", "absolute", "iterdir", "glob", "rglob", "is_dir", "is_file", "stat", "relative_to", "send",
    "recv", "request", "getresponse", "put", "poll", "kill", "terminate", "communicate", "cancel", "shutdown", "search",
    "fullmatch", "sub", "finditer", "findall", "hexdigest", "digest", "update", "notify", "notify_all", "with_suffix",
    "seek", "tell", "writelines", "readlines", "readinto", "extract", "extractall", "namelist", "getmembers", "is_set",
    "set", "is_alive", "register", "unregister", "print", "add_argument", "parse_args", "__init__", "__enter__", "__exit__",
    "render", "loads", "dumps", "dump", "from_config", "to_config", "path", "is_relative_to", "joinpath", "chmod", "rename",
    "replace", "read_text", "write_text", "read_bytes", "write_bytes", "expanduser", "execute", "build", "help", "is_prefix", "parents",
}

_OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
        ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}
_CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
        ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}


def _copy_expr(e):
    import copy
    par = getattr(e, "_parent", None)
    n = copy.copy(e)
    return n
