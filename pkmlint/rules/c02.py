"""C02: lock sets.  For every lock of the program the state it protects is inferred (state of the same object, or globals of
the same module, that is changed under it); then every access of that state must be made with the lock held: changes
always, reads always when the state is a table that is changed in place.  Which locks are held at a node is computed
lexically, plus - for helpers - what all their callers hold."""
from ..common import *

MUTATORS = {"append", "appendleft", "extend", "insert", "add", "update", "setdefault", "pop", "popleft", "popitem", "remove", "discard",
            "clear", "sort", "reverse", "__setitem__", "__delitem__", "move_to_end"}
REMOVERS = {"pop", "popleft", "popitem", "remove", "discard", "clear", "__delitem__"}
CONTAINERS = ("dict", "list", "set", "deque", "Dict", "List", "Set", "Deque", "OrderedDict", "defaultdict", "DefaultDict", "MutableMapping", "Counter")


class Access:
    def __init__(self, func, node, key, kind, held, section):
        self.func, self.node, self.key, self.kind, self.held, self.section = func, node, key, kind, held, section

    @property
    def where(self):
        return f"{self.func.module.rel}:{self.node.lineno}"


class Locks:
    def __init__(self, ctx):
        self.ctx = ctx
        self.p = program()
        self.attr_locks: Dict[str, Set[str]] = {}
        for c in self.p.classes.values():
            la = lock_attrs(c)
            # a lock handed in from outside
            init = c.methods.get("__init__")
            if init is not None:
                for n in walk_own(init.node):
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in init.params:
                        ann = init.annotations.get(n.value.id)
                        if ann is not None and any(isinstance(x, (ast.Name, ast.Attribute)) and (dotted(x) or "").split(".")[-1] in LOCKS
                                                   for x in ast.walk(ann)):
                            la |= {t.attr for t in n.targets if isinstance(t, ast.Attribute)}
            if c.is_dataclass:
                la |= {k for k, v in c.fields.items() if v is not None and (dotted(v) or "").split(".")[-1] in LOCKS}
            if la:
                self.attr_locks[c.qual] = la
        self.global_locks: Set[str] = set()
        for m in self.p.modules.values():
            for n in m.tree.body:
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Call) and (dotted(n.value.func) or "").split(".")[-1] in LOCKS:
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        if isinstance(t, ast.Name):
                            self.global_locks.add(f"{m.name}.{t.id}")
        self.accesses: List[Access] = []
        self.calls: List[tuple] = []     # (caller, call node, callee, held, section, base)
        self.unreleased: List[tuple] = []
        self.sections = 0
        self.values_of = set()

    # ------------------------------------------------------------------ naming
    def self_of(self, f):
        """(class, name of self) visible in f, through closures"""
        while f is not None:
            if f.cls is not None and f.parent is None and f.params and "staticmethod" not in f.decorators:
                return f.cls, f.params[0]
            f = f.parent
        return None, None

    def owner(self, f, base):
        """(class, base text) of the object an attribute is taken of"""
        cls, slf = self.self_of(f)
        if isinstance(base, ast.Name) and base.id == slf:
            return cls, "self"
        d = dotted(base)
        ty = types().expr_type(base, f)
        if ty and ty[0] == "cls" and ty[1] in self.p.classes:
            return self.p.classes[ty[1]], d or ast.dump(base)
        return None, d

    def state_key(self, f, node):
        """key of the shared state an expression stands for: ("attr", class, name, base) / ("glob", name)"""
        if isinstance(node, ast.Attribute):
            c, b = self.owner(f, node.value)
            if c is not None:
                return ("attr", self.root(c), node.attr, b)
            return None
        if isinstance(node, ast.Name) and not self.is_local(f, node.id):
            return ("glob", f"{f.module.name}.{node.id}")
        return None

    def is_local(self, f, name):
        while f is not None:
            if name in f.globals_declared() if hasattr(f, "globals_declared") else False:
                return False
            if name in self.locals_of(f):
                return True
            f = f.parent
        return False

    def locals_of(self, f):
        if not hasattr(self, "_loc"):
            self._loc = {}
        if f.qual not in self._loc:
            glob = {x for n in walk_own(f.node) if isinstance(n, ast.Global) for x in n.names}
            out = set(f.params) | set(f.kwonly) | {f.vararg, f.kwarg}
            for n in walk_own(f.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)
            self._loc[f.qual] = out - glob
        return self._loc[f.qual]

    def root(self, c):
        """the topmost class that shares the locks"""
        for b in self.p.mro(c)[::-1]:
            if b.qual in self.attr_locks:
                return b.qual
        return c.qual

    def lock_key(self, f, node, alias):
        if isinstance(node, ast.Name) and node.id in alias:
            return alias[node.id]
        if isinstance(node, ast.Attribute):
            c, b = self.owner(f, node.value)
            if c is not None and any(node.attr in self.attr_locks.get(x.qual, ()) for x in self.p.mro(c)):
                return ("attr", self.root(c), node.attr, b)
        d = dotted(node)
        if d:
            r = resolve_name(f, node)
            q = self.p.canonical(r) if r else None
            for x in (q, r, f"{f.module.name}.{d}"):
                if x in self.global_locks:
                    return ("glob", x)
        return None

    # ------------------------------------------------------------------ walking
    def scan(self, f):
        self.alias_locks = {}
        self.alias_state = {}
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                k = self.lock_key(f, n.value, {})
                if k is not None:
                    self.alias_locks[n.targets[0].id] = k
                elif isinstance(n.value, ast.Attribute) and len([x for x in walk_own(f.node) if isinstance(x, ast.Name) and
                                                                 x.id == n.targets[0].id and isinstance(x.ctx, ast.Store)]) == 1:
                    self.alias_state[n.targets[0].id] = n.value
        self.fresh = set()
        if isinstance(f.node, ast.Lambda):
            self.expr(f, f.node.body, frozenset(), ())
        else:
            self.block(f, f.node.body, frozenset(), ())

    def block(self, f, stmts, held, section):
        i = 0
        cur, sec = held, section
        while i < len(stmts):
            s = stmts[i]
            k = self.bare(f, s, "acquire")
            if k is not None:
                nxt = stmts[i + 1] if i + 1 < len(stmts) else None
                ok = isinstance(nxt, ast.Try) and any(self.bare(f, x, "release") == k for x in nxt.finalbody)
                if not ok:
                    # released without anything in between that can fail is fine as well
                    rest = stmts[i + 1:]
                    j = next((n for n, x in enumerate(rest) if self.bare(f, x, "release") == k), None)
                    calm = j is not None and not any(isinstance(x, (ast.Call, ast.Raise, ast.Return, ast.Yield, ast.YieldFrom, ast.Subscript))
                                                     for y in rest[:j] for x in ast.walk(y))
                    if not calm:
                        self.unreleased.append((f, s, k))
                self.sections += 1
                cur, sec = cur | {k}, sec + ((k, id(s)),)
            elif self.bare(f, s, "release") is not None:
                k = self.bare(f, s, "release")
                cur, sec = cur - {k}, tuple(x for x in sec if x[0] != k)
            else:
                self.stmt(f, s, cur, sec)
                if isinstance(s, ast.Try):
                    for x in s.finalbody:
                        k = self.bare(f, x, "release")
                        if k is not None:
                            cur, sec = cur - {k}, tuple(y for y in sec if y[0] != k)
            i += 1

    def bare(self, f, s, name):
        if isinstance(s, (ast.Expr, ast.Assign)) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                s.value.func.attr == name:
            return self.lock_key(f, s.value.func.value, self.alias_locks)
        return None

    def stmt(self, f, s, held, section):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            if not isinstance(s, ast.ClassDef):
                # a nested function runs where it is called: handled as a function of its own
                for d in s.args.defaults:
                    self.expr(f, d, held, section)
            return
        if isinstance(s, (ast.With, ast.AsyncWith)):
            h, sec = held, section
            for it in s.items:
                k = self.lock_key(f, it.context_expr, self.alias_locks)
                if k is not None:
                    self.sections += 1
                    h, sec = h | {k}, sec + ((k, id(s)),)
                else:
                    self.expr(f, it.context_expr, h, sec)
            self.block(f, s.body, h, sec)
            return
        if isinstance(s, ast.Try):
            self.block(f, s.body, held, section)
            for hd in s.handlers:
                self.block(f, hd.body, held, section)
            self.block(f, s.orelse, held, section)
            self.block(f, s.finalbody, held, section)
            return
        if isinstance(s, (ast.If, ast.While)):
            self.expr(f, s.test, held, section)
            self.block(f, s.body, held, section)
            self.block(f, s.orelse, held, section)
            return
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.expr(f, s.iter, held, section)
            self.target(f, s.target, held, section)
            self.block(f, s.body, held, section)
            self.block(f, s.orelse, held, section)
            return
        if isinstance(s, ast.Assign):
            if isinstance(s.targets[0], ast.Name) and self.alias_state.get(s.targets[0].id) is s.value:
                self.access(f, s.value, "aliases", held, section)
                return
            self.expr(f, s.value, held, section)
            for t in s.targets:
                self.target(f, t, held, section, s.value)
            return
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.expr(f, s.value, held, section)
                self.target(f, s.target, held, section, s.value)
            return
        if isinstance(s, ast.AugAssign):
            self.expr(f, s.value, held, section)
            b = s.target.value if isinstance(s.target, ast.Subscript) else s.target
            self.access(f, b, "read", held, section)
            self.target(f, s.target, held, section)
            return
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.access(f, t.value, "removes", held, section)
                    self.expr(f, t.slice, held, section)
            return
        if isinstance(s, ast.Match) if hasattr(ast, "Match") else False:
            self.expr(f, s.subject, held, section)
            for c in s.cases:
                self.block(f, c.body, held, section)
            return
        for n in ast.iter_child_nodes(s):
            if isinstance(n, ast.expr):
                self.expr(f, n, held, section)

    def target(self, f, t, held, section, value=None):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(f, x, held, section)
        elif isinstance(t, ast.Starred):
            self.target(f, t.value, held, section)
        elif isinstance(t, ast.Subscript):
            self.access(f, t.value, "changes", held, section)
            self.expr(f, t.slice, held, section)
            self.sub_of_value(f, t.value, held, section)
        elif isinstance(t, ast.Attribute) or isinstance(t, ast.Name):
            self.access(f, t, "sets", held, section)
            k = self.state_key(f, t)
            if k is not None and isinstance(value, ast.Call) and types().static_callee(value, f) is not None or isinstance(value, ast.Call) and \
                    (dotted(value.func) or "x").split(".")[-1][:1].isupper():
                self.fresh.add(k)

    def sub_of_value(self, f, e, held, section):
        if not isinstance(e, (ast.Name, ast.Attribute)):
            self.expr(f, e, held, section)

    def expr(self, f, e, held, section):
        if isinstance(e, ast.Lambda):
            g = next((x for x in f.nested.values() if x.node is e), None)
            if g is None:
                self.expr(f, e.body, held, section)
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(f, e.value, held, section)
            return
        if isinstance(e, ast.Call):
            self.call(f, e, held, section)
            return
        if isinstance(e, ast.Attribute):
            self.access(f, e, "loads", held, section)
            self.property_call(f, e, held, section)
            self.expr(f, e.value, held, section)
            return
        if isinstance(e, ast.Name):
            self.access(f, e, "loads", held, section)
            g = self.visible(f, e.id)
            if g is not None:
                self.values_of.add(g.qual)
            return
        if isinstance(e, ast.Subscript):
            self.access(f, e.value, "reads", held, section)
        if isinstance(e, ast.Compare):
            for op, c in zip(e.ops, e.comparators):
                if isinstance(op, (ast.In, ast.NotIn)):
                    self.access(f, c, "reads", held, section)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in e.generators:
                self.access(f, g.iter, "reads", held, section)
        for n in ast.iter_child_nodes(e):
            if isinstance(n, ast.expr):
                self.expr(f, n, held, section)
            elif isinstance(n, (ast.comprehension, ast.keyword)):
                for m in ast.iter_child_nodes(n):
                    if isinstance(m, ast.expr):
                        self.expr(f, m, held, section)

    def property_call(self, f, e, held, section):
        c, b = self.owner(f, e.value)
        if c is not None:
            m = self.p.find_method(c, e.attr)
            if m is not None:
                if m.is_property:
                    self.calls.append((f, e, m, held, section, b))
                elif isinstance(e.ctx, ast.Load):
                    self.values_of.add(m.qual)

    def visible(self, f, name):
        while f is not None:
            if name in f.nested:
                return f.nested[name]
            f = f.parent
        return None

    def call(self, f, e, held, section):
        fn = e.func
        callee = types().static_callee(e, f)
        base = None
        if isinstance(fn, ast.Attribute):
            c, base = self.owner(f, fn.value)
            if callee is None and c is not None:
                callee = self.p.find_method(c, fn.attr)
            kind = "removes" if fn.attr in REMOVERS else "changes" if fn.attr in MUTATORS else "reads"
            self.access(f, fn.value, kind, held, section, method=fn.attr)
            self.expr(f, fn.value, held, section)
        elif isinstance(fn, ast.Name):
            g = self.visible(f, fn.id)
            if g is not None:
                callee = g
        else:
            self.expr(f, fn, held, section)
        if isinstance(callee, FuncInfo):
            self.calls.append((f, e, callee, held, section, base))
        for a in list(e.args) + [k.value for k in e.keywords]:
            x = a.value if isinstance(a, ast.Starred) else a
            if isinstance(x, (ast.Attribute, ast.Name)):
                self.access(f, x, "changes" if self.changes_argument(callee, fn, e, x, f) else "reads", held, section)
            self.expr(f, x, held, section)

    def changes_argument(self, callee, fn, call, arg, f):
        d = (dotted(fn) or "").split(".")
        if d[-1] == "dump" and d[0] in ("pickle", "json", "marshal"):
            return True
        if isinstance(callee, FuncInfo):
            for i, a in enumerate(call.args):
                if a is arg and i < len(callee.params) - (1 if callee.cls is not None else 0):
                    pn = callee.params[i + (1 if callee.cls is not None and "staticmethod" not in callee.decorators else 0)]
                    for n in walk_own(callee.node):
                        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == pn:
                            return True
                        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and \
                                isinstance(n.func.value, ast.Name) and n.func.value.id == pn:
                            return True
        return False

    def access(self, f, node, kind, held, section, method=None):
        at = node
        if isinstance(node, ast.Name) and node.id in self.alias_state:
            node = self.alias_state[node.id]
            if kind in ("loads", "sets"):
                return
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ("values", "keys", "items"):
            node = node.func.value
        k = self.state_key(f, node)
        if k is None:
            return
        if k in self.fresh and kind != "sets":
            return
        a = Access(f, at, k, kind, held, section)
        a.method = method
        self.accesses.append(a)


def same_object(lock, key):
    """is lock the lock of the object that key belongs to"""
    if lock[0] == "glob":
        return True
    return key[0] == "attr" and lock[1] == key[1] and lock[3] == key[3]


def norm(k):
    return k[:3] if k[0] == "attr" else k


def check(ctx):
    L = Locks(ctx)
    p = L.p
    fs = library_functions(p)
    for f in fs:
        L.scan(f)
    ctx.count("functions_scanned", len(fs))
    ctx.count("critical_sections", L.sections)
    ctx.count("lock_objects", sum(len(v) for v in L.attr_locks.values()) + len(L.global_locks))
    # locks that every caller of a helper holds
    by_callee: Dict[str, list] = {}
    for c in L.calls:
        by_callee.setdefault(c[2].qual, []).append(c)
    entry: Dict[str, frozenset] = {}
    TOP = None
    helpers = {f.qual for f in fs if by_callee.get(f.qual) and f.qual not in L.values_of and
               (f.parent is not None or f.name.startswith("_") and not f.name.startswith("__"))}
    state = {q: TOP for q in helpers}
    for _ in range(30):
        changed = False
        for q in helpers:
            acc = TOP
            for caller, node, callee, held, section, base in by_callee[q]:
                h = held
                up = state.get(caller.qual, frozenset()) if caller.qual in helpers else frozenset()
                if up is TOP:
                    if caller.qual in helpers and caller.qual != q:
                        continue
                    up = frozenset()
                h = h | up
                # seen from the callee: the object it is called on is its own self
                seen = set()
                for k in h:
                    if k[0] == "glob" or callee.parent is not None:
                        seen.add(k)
                    elif k[3] == base:
                        seen.add(k[:3] + ("self",))
                acc = frozenset(seen) if acc is TOP else acc & frozenset(seen)
            if acc is not TOP and acc != state[q]:
                state[q] = acc
                changed = True
        if not changed:
            break
    entry = {q: (s or frozenset()) for q, s in state.items()}

    def held_at(a):
        return a.held | entry.get(a.func.qual, frozenset())

    def is_init(f, key):
        o = outermost(f)
        return o.cls is not None and o.name in ("__init__", "__new__", "__post_init__") and f is o and key[0] == "attr"

    def in_global_scope(f):
        return False

    WRITES = ("sets", "changes", "removes")
    lockset_names = {a for v in L.attr_locks.values() for a in v}
    guards: Dict[tuple, Dict[tuple, int]] = {}
    rebound: Dict[tuple, Set[tuple]] = {}
    for a in L.accesses:
        if a.kind in WRITES and not is_init(a.func, a.key):
            if a.key[0] == "attr" and a.key[2] in lockset_names:
                continue
            for k in held_at(a):
                if same_object(k, a.key):
                    g = guards.setdefault(norm(a.key), {})
                    g[norm(k)] = g.get(norm(k), 0) + 1
                    if a.kind == "sets":
                        rebound.setdefault(norm(a.key), set()).add(norm(k))
    # state of an object that is looked at under its lock is protected by that lock when it changes at all
    changed = {norm(a.key) for a in L.accesses if a.kind in WRITES and not is_init(a.func, a.key)}
    for a in L.accesses:
        if a.kind not in WRITES and a.key[0] == "attr" and norm(a.key) in changed and not is_init(a.func, a.key) and a.key[2] not in lockset_names:
            for k in held_at(a):
                if k[0] == "attr" and same_object(k, a.key):
                    g = guards.setdefault(norm(a.key), {})
                    g[norm(k)] = g.get(norm(k), 0) + 1
                    rebound.setdefault(norm(a.key), set()).add(norm(k))
    ctx.need(guards, "state that is protected by a lock")
    ctx.rule("state changed under a lock: every change, and every read of a table that is changed in place, is made with that lock held")
    containers = container_states(p, L)
    rebinds = {norm(a.key) for a in L.accesses if a.kind == "sets" and not is_init(a.func, a.key)}
    in_place = {norm(a.key) for a in L.accesses if a.kind in ("changes", "removes") and norm(a.key) in guards}
    for key in guards:
        ctx.count("protected_states", 1)
    for a in L.accesses:
        g = guards.get(norm(a.key))
        if not g or is_init(a.func, a.key):
            continue
        lock = max(g, key=lambda k: (g[k], str(k)))
        name = a.key[-1] if a.key[0] == "glob" else f"{a.key[1].split('.')[-1]}.{a.key[2]}"
        lname = lock[2] if lock[0] == "attr" else lock[1].split(".")[-1]
        ctx.count("accesses_of_protected_state")
        ok = any(norm(k) == lock and same_object(k, a.key) for k in held_at(a))
        if ok:
            continue
        table = norm(a.key) in containers
        if a.kind == "sets" and not table and lock not in rebound.get(norm(a.key), ()):
            continue    # a new object takes the place of the protected one
        if a.kind in WRITES:
            ctx.finding("unlocked-change", f"{a.func.short}:{name.split('.')[-1]}", f"{name.split('.', 1)[-1] if a.key[0] == 'attr' else name} is changed "
                        f"without holding {lname}, which protects it elsewhere", a.where)
        elif norm(a.key) in in_place and table and (a.kind in ("reads", "loads", "read") or a.kind == "aliases" and norm(a.key) in rebinds):
            ctx.finding("unlocked-read", f"{a.func.short}:{name.split('.')[-1]}", f"{name} is read without holding {lname}, under which it is changed "
                        "in place", a.where)
        elif norm(a.key) in in_place and not table and a.kind == "reads" and getattr(a, "method", None) is not None and streamlike(a):
            ctx.finding("unlocked-use", f"{a.func.short}:{name.split('.')[-1]}", f"{name} is used without holding {lname}, under which it is used elsewhere", a.where)
    check_stale(ctx, L, guards, entry, containers)
    ctx.rule("a lock that is acquired is released however the code after it ends")
    for f, s, k in L.unreleased:
        ctx.finding("lock-kept", f"{f.short}:{s.lineno - f.node.lineno}", "a lock is acquired outside a with statement and not released in a finally "
                    "block right after", f"{f.module.rel}:{s.lineno}")
    check_shared_lock(ctx, L)
    check_once(ctx)
    ctx.at_least("critical_sections", 6)
    ctx.at_least("protected_states", 5)
    ctx.at_least("accesses_of_protected_state", 12)


def streamlike(a):
    return a.method in ("flush", "write", "writelines", "close")


def container_states(p, L):
    """attributes and globals that hold a table (by annotation or by how they are created)"""
    out = set()

    def is_container(value, ann):
        if ann is not None:
            for x in ast.walk(ann):
                if isinstance(x, (ast.Name, ast.Attribute)) and (dotted(x) or "").split(".")[-1] in CONTAINERS:
                    return True
        return isinstance(value, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or \
            isinstance(value, ast.Call) and (dotted(value.func) or "").split(".")[-1] in CONTAINERS
    for f in library_functions(p):
        for n in walk_own(f.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(t, ast.Attribute) and is_container(n.value, getattr(n, "annotation", None)):
                        k = L.state_key(f, t)
                        if k is not None:
                            out.add(norm(k))
    for m in p.modules.values():
        for n in m.tree.body:
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(t, ast.Name) and is_container(n.value, getattr(n, "annotation", None)):
                        out.add(("glob", f"{m.name}.{t.id}"))
    for c in p.classes.values():
        for k, v in c.fields.items():
            if is_container(None, v):
                out.add(("attr", L.root(c), k))
    return out


def check_stale(ctx, L, guards, entry, containers):
    """a decision about protected state and the change it leads to lie in one critical section"""
    ctx.rule("protected state is not changed on the strength of what was read in an earlier critical section")
    groups: Dict[tuple, Set[tuple]] = {}
    for key, g in guards.items():
        lock = max(g, key=lambda k: (g[k], str(k)))
        groups.setdefault(lock, set()).add(key)
    for lock, keys in groups.items():
        per_func: Dict[str, list] = {}
        for a in L.accesses:
            if norm(a.key) in keys:
                per_func.setdefault(a.func.qual, []).append(a)
        for q, accs in per_func.items():
            f = accs[0].func
            # accesses made by helpers on behalf of f
            reads_elsewhere = [(x.node.lineno, x) for x in accs]
            for caller, node, callee, held, section, base in L.calls:
                if caller is f and base in ("self", None) and callee.qual != q:
                    reads_elsewhere += [(node.lineno, x) for x in per_func.get(callee.qual, [])]
            for a in accs:
                if norm(a.key) not in containers or a.kind not in ("sets", "changes") or not a.section and not entry.get(q):
                    continue
                if outermost(f).name in ("__init__",):
                    continue
                sec = [x for x in a.section if norm(x[0]) == lock]
                if not sec:
                    continue
                mine = [x for x in accs if x is not a and norm(x.key) == norm(a.key) and sec[-1] in x.section and
                        (x.kind == "read" or x.kind in ("reads", "loads") and x.node is not a.node)]
                mine += [x for c in L.calls if c[0] is f and sec[-1] in c[4] for x in per_func.get(c[2].qual, []) if
                         x.kind in ("reads", "loads", "read") and norm(x.key) == norm(a.key)]
                other = [x for at, x in reads_elsewhere if at < a.node.lineno and x.kind in ("reads", "loads", "read") and norm(x.key) in keys and sec[-1] not in x.section and
                         norm(x.key) == norm(a.key)]
                ctx.count("changes_checked_for_stale_decisions")
                if other and not mine:
                    ctx.finding("stale-decision", f"{f.short}:{a.key[-2] if a.key[0] == 'attr' else a.key[-1]}", "protected state is changed after it was "
                                "looked at in an earlier critical section only: it may have changed in between", a.where)


def check_shared_lock(ctx, L):
    """objects that write to one stream get one lock"""
    p = program()
    for f in library_functions(p):
        made: Dict[tuple, list] = {}
        for n in walk_own(f.node):
            if isinstance(n, ast.Call):
                c = types().static_callee(n, f)
                c = c if isinstance(c, ClassInfo) else c.cls if isinstance(c, FuncInfo) and c.name == "__init__" else None
                if c is None or c.qual not in L.attr_locks:
                    continue
                init = p.find_method(c, "__init__")
                if init is None:
                    continue
                args = dict(zip(init.params[1:], n.args))
                args.update({k.arg: k.value for k in n.keywords if k.arg})
                # parameter -> attribute, and which of them are locks
                locks, others = {}, {}
                for s in walk_own(init.node):
                    if isinstance(s, ast.Assign) and isinstance(s.value, ast.Name) and s.value.id in args:
                        for t in s.targets:
                            if isinstance(t, ast.Attribute):
                                (locks if t.attr in L.attr_locks[c.qual] else others)[t.attr] = args[s.value.id]
                if locks:
                    streams = protected_params(p, c, L, others)
                    for s_ in streams:
                        made.setdefault((c.qual, ast.dump(others[s_])), []).append((n, tuple(sorted(ast.dump(v) for v in locks.values())), locks))
        for (cq, _), xs in made.items():
            ctx.count("shared_streams")
            fresh = [n for n, _, lk in xs for v in lk.values() if isinstance(v, ast.Call)]
            if len({d for _, d, _ in xs}) > 1 or fresh and len(xs) > 1:
                ctx.finding("different-locks", f"{f.short}:{cq.split('.')[-1]}", "objects that write to the same stream are given different locks",
                            f"{f.module.rel}:{xs[0][0].lineno}")


def protected_params(p, c, L, others):
    out = set()
    for m in c.methods.values():
        if m.name == "__init__":
            continue
        for a in L.accesses:
            if a.func is m and a.key[0] == "attr" and a.key[2] in others and a.kind in ("changes", "reads"):
                out.add(a.key[2])
    return out


class Once(Rule):
    """the value of a cached property.  ps: locks held"""
    max_states = 40
    keep_all_facts = True

    def __init__(self, ctx, cls, m):
        self.ctx, self.cls, self.m = ctx, cls, m
        self.computed = 0

    def start(self):
        return ()

    def force_inline(self, f):
        return f.cls is self.cls

    def on_with(self, node, fr, term, st, eng):
        if lockish(eng, term, st):
            return self.enter(term, st), (lambda kind, x: x.with_ps(x.ps[:-1])), term
        return None

    def enter(self, term, st):
        # what was seen before the lock was taken does not count
        s = st.copy()
        for l in [l for l in s.facts if is_present_test(l) or call_name(l[1]) == "@present"]:
            del s.facts[l]
        return s.with_ps(st.ps + (show(term),))

    def can_raise(self, c):
        return False

    def on_call(self, c, st, eng):
        if c.recv is None and c.name in ("hasattr", "getattr") and len(c.args) >= 2:
            present = ("call", ("x", "@present"), None, (("c", "locks", st.ps),), ())
            lit = ("truthy", present)
            if c.name == "hasattr":
                return Take(normal=[(present, st)])
            yes, no = eng.assume(st, present, True), eng.assume(st, present, False)
            v = ("call", ("x", "@present-value"), None, (), ())
            if len(c.args) == 2:
                return Take(normal=[(v, yes)] if yes else [], raises=[(("exc", "AttributeError", None), no)] if no else [])
            return Take(normal=([(v, yes)] if yes else []) + ([(c.args[2], no)] if no else []))
        if c.fterm[0] == "a" and c.fterm[1] == ("p", self.m.qual, self.m.params[0]) and c.fterm[2] == "_func" or \
                c.recv == ("p", self.m.qual, self.m.params[0]) and c.name == "_func":
            self.computed += 1
            if not st.ps:
                self.ctx.finding("computed-twice", self.m.short, "the value of a cached property is computed without holding the lock of the object", c.where)
            elif not any(is_present_test(l) and v is False for l, (v, _) in st.facts.items()):
                self.ctx.finding("computed-twice", self.m.short, "the value of a cached property is computed without testing under the lock whether "
                                 "another thread has computed it", c.where)
        if c.name == "acquire" and c.recv is not None and lockish(eng, c.recv, st):
            return Take(normal=[(TRUE, self.enter(c.recv, st))])
        if c.name == "release" and c.recv is not None and st.ps:
            return Take(normal=[(NONE, st.with_ps(st.ps[:-1]))])
        return None


def is_present_test(l):
    """a test, made while a lock was held, whether the value is there"""
    if l[0] == "truthy" and call_name(l[1]) == "@present":
        return bool(l[1][3][0][2])
    return any(x[0] == "a" and x[2] == "__dict__" or x[0] == "call" and call_name(x) == "vars" for y in l[1:] for x in subterms(y))


def lockish(eng, term, st):
    ty = eng.type_of(term, st)
    if ty and "Lock" in str(ty):
        return True
    return any("lock" in str(x[2] if x[0] == "a" else x[1]).lower() for x in subterms(term) if x[0] in ("a", "call")) or "lock" in str(term).lower()


def check_once(ctx):
    p = program()
    c = next((c for c in p.classes.values() if c.name == "cached_property" and c.module.name.startswith("pkm.utils")), None)
    ctx.need(c, "the class cached_property")
    ctx.rule("the value of a cached property is computed under the lock of its object after testing, under that lock, that it is missing")
    n = 0
    for m in c.methods.values():
        if any(isinstance(x, ast.Attribute) and x.attr == "_func" for x in walk_own(m.node)) and m.name != "__init__":
            r = Once(ctx, c, m)
            eng = Engine(r)
            eng.run(m, r.start())
            ctx.analysed(eng)
            n += r.computed
    ctx.counts["cached_values_computed"] = n
    ctx.at_least("cached_values_computed", 1)
