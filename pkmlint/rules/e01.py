"""E01: temporary changes of the process environment are undone on every way out.

Per changed key of an environment mapping the analysis knows whether the key was present (and then the term of the value
it had) or absent when it was looked up, and whether the key currently has its original state."""
from ..common import *

SNAP = ("x", "@snapshot")
CWD = ("x", "cwd")
PATHLIST = ("g", "sys.path")
ENVIRON = ("g", "os.environ")
LIST_OPS = {"insert", "append", "remove", "pop", "extend", "clear"}
MAP_OPS = {"pop", "update", "setdefault", "clear", "popitem"}


def environ_params(f: FuncInfo) -> Set[str]:
    a = f.node.args if hasattr(f.node, "args") else None
    if a is None:
        return set()
    out = set()
    pos = a.posonlyargs + a.args
    for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if d is not None and dotted(d) in ("os.environ", "environ"):
            out.add(x.arg)
    return out


def OLD(m, k):
    """the value key k had in mapping m when the function was entered"""
    return ("fstr", (const("@old"), const(show(m)), k))  # a string: never None, maybe empty


class RestoreRule(Rule):
    base_exceptions = True
    yield_raises = True
    unroll_literals = True
    subscript_raises = True
    keep_all_facts = True
    max_states = 60

    def __init__(self, ctx, root, envs, prog, relevant):
        self.relevant = relevant
        self.ctx, self.root, self.envs, self.prog = ctx, root, set(envs) | {ENVIRON}, prog
        self.changes = set()

    # ps: frozenset of (mapping, key, case, original value, now)     case: abs / pres / None    now: orig / new / ok
    def get(self, ps, m, k):
        for x in ps:
            if x[0] == m and x[1] == k:
                return x[2:]
        return (None, None, "orig")

    def put(self, st, m, k, case, sv, now):
        return st.with_ps(frozenset(x for x in st.ps if x[:2] != (m, k)) | {(m, k, case, sv, now)})

    def case_of(self, st, m, k, eng):
        case, sv, now = self.get(st.ps, m, k)
        if case is None:
            for mm in (m,):
                v = eng.lit_value(("in", k, mm), st)
                if v is not None:
                    return ("pres" if v else "abs"), OLD(m, k), now
        return case, sv, now

    def is_map(self, t):
        return t in self.envs

    def mapping(self, c):
        """(mapping, method name) when the call is a method of an environment mapping"""
        if c.recv is not None and self.is_map(c.recv):
            return c.recv, c.name
        if c.ext is not None and c.ext.startswith("os.environ."):
            return ENVIRON, c.ext[len("os.environ."):]
        if c.ext == "os.getenv":
            return ENVIRON, "get"
        if c.ext == "os.unsetenv":
            return ENVIRON, "pop"
        if c.ext == "os.putenv":
            return ENVIRON, "__setitem__"
        return None, None

    def store(self, st, m, k, v, eng):
        self.changes.add((m, k))
        case, sv, now = self.case_of(st, m, k, eng)
        if case == "pres" and v == sv and sv is not None:
            return self.put(st, m, k, case, sv, "ok")
        return self.put(st, m, k, case, sv, "new")

    def remove(self, st, m, k, eng):
        self.changes.add((m, k))
        case, sv, now = self.case_of(st, m, k, eng)
        return self.put(st, m, k, case, sv, "ok" if case == "abs" else "new")

    def lookup(self, c, st, m, k, default, eng):
        case, sv, now = self.case_of(st, m, k, eng)
        if now == "new":
            return None
        out = []
        sv = OLD(m, k)
        if case in (None, "abs"):
            out.append((default, self.put(st, m, k, "abs", None, now)))
        if case in (None, "pres"):
            s = eng.assume_lit(self.put(st, m, k, "pres", sv, now), ("isnone", sv), False)
            if s is not None:
                out.append((sv, s))
        return Take(normal=out)

    def on_call(self, c, st, eng):
        for lit, (pol, _) in list(st.facts.items()):  # `key in mapping` tests are remembered
            if lit[0] == "in" and self.is_map(lit[2]) and self.get(st.ps, lit[2], lit[1])[0] is None:
                st.ps = self.put(st, lit[2], lit[1], "pres" if pol else "abs", OLD(lit[2], lit[1]) if pol else None,
                                 self.get(st.ps, lit[2], lit[1])[2]).ps
        m, name = self.mapping(c)
        if m is not None:
            k = c.arg(0, "key")
            if name == "get" and k is not None:
                return self.lookup(c, st, m, k, c.arg(1, "default") or NONE, eng)
            if name == "pop" and k is not None:
                d = c.arg(1, "default")
                case, sv, now = self.case_of(st, m, k, eng)
                norm, exc = [], []
                if now != "new":
                    t = self.lookup(c, st, m, k, d, eng)
                    for v, s in t.normal:
                        if v is None:
                            exc.append((("exc", "KeyError", None), s))
                        else:
                            norm.append((v, self.remove(s, m, k, eng)))
                    return Take(normal=norm, raises=exc)
                s = self.remove(st, m, k, eng)
                if d is None:
                    exc.append((("exc", "KeyError", None), s))
                return Take(normal=[(c.term(), s)], raises=exc)
            if name == "__setitem__" and k is not None:
                return Take(normal=[(NONE, self.store(st, m, k, c.arg(1), eng))])
            if name == "setdefault" and k is not None:
                t = self.lookup(c, st, m, k, c.arg(1) or NONE, eng)
                if t is None:
                    return Take(normal=[(c.term(), st)])
                return Take(normal=[(v, self.store(s, m, k, v, eng) if self.get(s.ps, m, k)[0] == "abs" else s)
                                    for v, s in t.normal])
            if name == "clear":
                self.changes.add((m, ("all",)))
                return Take(normal=[(NONE, self.put(st, m, ("all",), None, None, "cleared"))])
            if name in ("update", "__ior__"):
                return Take(normal=[(NONE, self.update(st, m, k, c.kwargs, eng))])
            if name == "copy":
                return Take(normal=[(self.snapshot(st, m), st)])
        if c.ext in ("dict", "copy.copy", "list", "copy.deepcopy") and c.args and (self.is_map(c.args[0]) or c.args[0] == PATHLIST):
            return Take(normal=[(self.snapshot(st, c.args[0]), st)])
        if c.recv is not None and c.recv[0] == "call" and c.recv[1] == SNAP and c.name == "get" and c.args:
            return self.lookup(c, st, c.recv[3][0], c.args[0], c.arg(1, "default") or NONE, eng)
        if c.ext in ("os.getcwd", "pathlib.Path.cwd") or c.name == "cwd" and not c.args:
            return Take(normal=[(c.term() if self.get(st.ps, CWD, CWD)[2] == "new" else ("call", ("x", "@cwd"), (), ()), st)])
        if c.ext == "os.chdir":
            self.changes.add((CWD, CWD))  # going back to the saved directory is assumed to succeed
            back = c.args and any(x[0] == "call" and x[1] == ("x", "@cwd") for x in subterms(c.args[0])) and \
                not any(x[0] == "op" for x in subterms(c.args[0]))
            return Take(normal=[(NONE, self.put(st, CWD, CWD, None, None, "ok" if back else "new"))],
                        raises=[] if back else [(("exc", "OSError", None), st)])
        lst = c.recv == PATHLIST or c.ext is not None and c.ext.startswith("sys.path.")
        if lst and c.name.split(".")[-1] in LIST_OPS | {"copy"}:
            op = c.name.split(".")[-1]
            if op == "copy":
                return Take(normal=[(self.snapshot(st, PATHLIST), st)])
            self.changes.add((PATHLIST, PATHLIST))
            now = self.get(st.ps, PATHLIST, PATHLIST)
            if op in ("insert", "append"):
                v = c.args[-1]
                added = now[1] if now[2] == "new" else ()
                return Take(normal=[(NONE, self.put(st, PATHLIST, PATHLIST, None,
                                                    None if added is None or len(added) > 4 else added + (v,), "new"))])
            if op == "remove" and now[2] == "new" and now[1] and c.args[0] in now[1]:
                left = tuple(x for x in now[1] if x != c.args[0])
                s = self.put(st, PATHLIST, PATHLIST, None, left, "new" if left else "ok")
                return Take(normal=[(NONE, s)], raises=[(("exc", "ValueError", None), s)])
            return Take(normal=[(c.term(), self.put(st, PATHLIST, PATHLIST, None, None, "new"))])
        return None

    def snapshot(self, st, m):
        dirty = any(x[0] == m and x[4] in ("new", "cleared") for x in st.ps)
        return ("call", ("x", "@dirty" if dirty else SNAP[1]), (), (m,))

    def update(self, st, m, src, kwargs, eng):
        for k, v in (kwargs or {}).items():
            st = self.store(st, m, const(k), v, eng)
        if src is None:
            return st
        if src == ("call", SNAP, (), (m,)):
            if self.get(st.ps, m, ("all",))[2] == "cleared":
                return st.with_ps(frozenset((a, b, cs, sv, "ok") if a == m else (a, b, cs, sv, now)
                                            for a, b, cs, sv, now in st.ps))
            return st.with_ps(frozenset((a, b, cs, sv, "ok") if a == m and cs == "pres" else (a, b, cs, sv, now)
                                        for a, b, cs, sv, now in st.ps))
        items = [(k[2], v) for k, v in st.heap.items() if isinstance(k, tuple) and k and k[0] == "item" and k[1] == src]
        if items:
            for k, v in items:
                st = self.store(st, m, k, v, eng)
            return st
        self.changes.add((m, ("all",)))
        return self.put(st, m, ("all",), None, None, "new")

    def on_suspend(self, value, st, eng):
        """the code in the scope may change the mapping as it likes"""
        s = st.copy()
        for k in [k for k in s.heap if isinstance(k, tuple) and k and k[0] == "item" and self.is_map(k[1])]:
            del s.heap[k]
        return s

    def on_load(self, base, key, st, node, fr, eng):
        if not self.is_map(base) or key[0] == "op" and key[1] == "slice":
            return None
        case, sv, now = self.case_of(st, base, key, eng)
        if now == "new":
            return None
        norm, exc = [], []
        if case in (None, "pres"):
            norm.append((OLD(base, key), self.put(st, base, key, "pres", OLD(base, key), now)))
        if case in (None, "abs"):
            exc.append((("exc", "KeyError", None), self.put(st, base, key, "abs", None, now)))
        return Take(normal=norm, raises=exc)

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        if kind == "sub" and self.is_map(base):
            return self.store(st, base, key, value, eng)
        if kind == "delsub" and self.is_map(base):
            return self.remove(st, base, key, eng)
        if kind == "delsub!" and self.is_map(base):
            case, sv, now = self.case_of(st, base, key, eng)
            return self.put(st, base, key, "abs" if now == "orig" else case, sv, "ok" if case != "pres" else now)
        if kind in ("sub", "attr", "global") and (kind == "sub" and base == PATHLIST or
                                                  kind == "attr" and base == ("g", "sys") and key == "path"):
            self.changes.add((PATHLIST, PATHLIST))
            ok = value is not None and value[0] == "call" and value[1] == SNAP
            return self.put(st, PATHLIST, PATHLIST, None, None, "ok" if ok else "new")
        return None

    def can_raise(self, c):
        return not (c.recv is not None and self.is_map(c.recv))

    def force_inline(self, f):
        return f.qual in self.relevant

    def opaque(self, f):
        return f.qual not in self.relevant and f.parent is None


def mutated_maps(f: FuncInfo, names: Set[str]) -> Set[str]:
    """names (out of `names`, or os.environ / sys.path / cwd) that the body of f itself changes"""
    out = set()

    def nm(x):
        d = dotted(x)
        if d is None:
            return None
        if d in names:
            return d
        c = f.module and program().resolve_dotted(d, f.module, None) or d
        return c if c in ("os.environ", "sys.path") else None

    for n in walk_own(f.node):
        tg = []
        if isinstance(n, ast.Assign):
            tg = n.targets
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            tg = [n.target]
        elif isinstance(n, ast.Delete):
            tg = n.targets
        for t in tg:
            if isinstance(t, ast.Subscript) and nm(t.value):
                out.add(nm(t.value))
            if isinstance(t, ast.Attribute) and nm(t) == "sys.path":
                out.add("sys.path")
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute):
                b = nm(n.func.value)
                if b and (n.func.attr in MAP_OPS and b != "sys.path" or b == "sys.path" and n.func.attr in LIST_OPS):
                    out.add(b)
            d = dotted(n.func)
            c = d and program().resolve_dotted(d, f.module, None) or d
            li = f.local_imports.get(d.split(".")[0]) if d else None
            if c in ("os.chdir", "os.putenv", "os.unsetenv") or li and li + d[len(d.split(".")[0]):] in ("os.chdir", "os.putenv"):
                out.add("os.environ" if c != "os.chdir" else "cwd")
    return out


def check(ctx):
    p = program()
    ctx.rule("per environment key / import path / working directory: whatever a function changes has its original state "
             "again (present with the value it had, or absent) on every return, error, interruption and abandoned scope")
    roots = {}
    todo = []
    mut = set()
    for f in p.funcs.values():
        if not f.module.name.startswith(("pkm.", "pkm_cli.")) and f.module.name not in ("pkm", "pkm_cli"):
            if "conda" not in f.module.rel:
                continue
        names = environ_params(f)
        ch = mutated_maps(f, names)
        if ch:
            ctx.count("functions_that_change_the_environment")
            todo.append((f, 0))
            mut.add(f.qual)
    # functions that hand an environment mapping to a helper which changes its parameter
    helpers = {f.qual for f in p.funcs.values() if mutated_maps(f, set(f.params)) & set(f.params)}
    ti = types()
    for f in p.funcs.values():
        names = environ_params(f) | {"os.environ"}
        for n in walk_own(f.node):
            if isinstance(n, ast.Call):
                tg = ti.static_callee(n, f)
                if isinstance(tg, FuncInfo) and tg.qual in helpers and \
                        any(dotted(a) in names for a in list(n.args) + [k.value for k in n.keywords]):
                    todo.append((f, 0))
                    hs = [tg]
                    while hs:
                        h = hs.pop()
                        if h.qual in mut:
                            continue
                        mut.add(h.qual)
                        for x in walk_own(h.node):
                            t2 = ti.static_callee(x, h) if isinstance(x, ast.Call) else None
                            if isinstance(t2, FuncInfo) and t2.qual in helpers:
                                hs.append(t2)
    while todo:
        f, d = todo.pop()
        while f.parent is not None:
            f = f.parent
        if f.name.startswith("_") and not f.name.startswith("__") and d < 5:
            cs = [x for x in callers_of(p, f) if x is not f]
            if cs and (d or not f.params or "yield" not in [type(n).__name__.lower() for n in walk_own(f.node)]):
                todo += [(x, d + 1) for x in cs]
                continue
        roots[f.qual] = f
    relevant = reaching(p, set(mut))
    for q, f in sorted(roots.items()):
        envs = {("p", f.qual, n) for n in environ_params(f)}
        r = RestoreRule(ctx, f.short, envs, p, relevant)
        eng = Engine(r)
        out = eng.run(f, frozenset())
        ctx.analysed(eng)
        ctx.count("scopes")
        ctx.count("changed_items", len(r.changes))
        ctx.sample(f"{f.short}: changes {sorted(show(k) for _, k in r.changes)}")
        exits = [("returns", s) for _, s in out.ret] + [("returns", s) for s in out.normal] + \
            [("is interrupted" if e[1] == "@Base" else "raises", s) for e, s in out.exc]
        for how, s in exits:
            ctx.count("exits_checked")
            for m, k, case, sv, now in s.ps:
                if now in ("new", "cleared"):
                    what = "the import path" if m == PATHLIST else "the working directory" if m == CWD else f"{show(m)}[{show(k)}]"
                    was = {"pres": "a variable that was set (maybe to an empty value)", "abs": "a variable that was not set"}.get(case, "")
                    ctx.finding("not-restored", f"{f.short}:{what}",
                                f"{f.short} {how} and leaves {what} changed" + (f" ({was})" if was else ""), f.where, s.trace[-3:])
    ctx.at_least("scopes", 1)
    ctx.at_least("exits_checked", 4)
