"""E04: every place that can interpret text as code (eval / exec / compile, a shell, an unpickler) only gets text that is
built from constants and repr()-quoted values - or, for the unpickler, a pipe between the program and its own workers."""
from ..common import *

EVALUATORS = {"eval", "exec", "compile", "execfile"}
SHELLS = {"os.system", "os.popen", "subprocess.getoutput", "subprocess.getstatusoutput", "asyncio.create_subprocess_shell", "commands.getoutput",
          "popen2.popen2"}
RUNNERS = {"subprocess.run", "subprocess.call", "subprocess.check_call", "subprocess.check_output", "subprocess.Popen"}
UNPICKLERS = {"pickle.load", "pickle.loads", "pickle.Unpickler", "_pickle.load", "_pickle.loads", "cPickle.load", "cPickle.loads", "marshal.load",
              "marshal.loads", "dill.load", "dill.loads", "cloudpickle.load", "cloudpickle.loads", "shelve.open", "jsonpickle.decode",
              "yaml.load", "yaml.unsafe_load", "yaml.full_load", "yaml.load_all", "yaml.unsafe_load_all", "joblib.load"}
QUOTES = {"eval": {"repr", "ascii"}, "shell": {"shlex.quote", "pipes.quote", "shlex.join", "subprocess.list2cmdline"}}
SNIPPETS = {"-c"}
INTERPRETERS = ("python", "sh", "bash", "cmd", "interpreter", "executable")


class Lint:
    def __init__(self, ctx):
        self.ctx = ctx
        self.p = program()
        self.callers: Dict[str, list] = {}
        self.by_name: Dict[str, list] = {}
        self.values: Dict[str, list] = {}
        for f in library_functions(self.p):
            for n in walk_own(f.node):
                if isinstance(n, ast.Call):
                    t = types().static_callee(n, f)
                    t = self.p.find_method(t, "__init__") if isinstance(t, ClassInfo) else t
                    if isinstance(n.func, ast.Name) and t is None:
                        t = visible(f, n.func.id)
                    if isinstance(t, FuncInfo):
                        self.callers.setdefault(t.qual, []).append((f, n))
                    else:
                        nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                        if nm:
                            self.by_name.setdefault(nm, []).append((f, n))

    # ------------------------------------------------------------------ where does text come from
    def safe(self, e, f, how, depth=0, seen=()) -> Optional[str]:
        """None when e is text the program itself made up, else a description of the part that is not"""
        if depth > 12:
            return "text whose origin is too far away"
        rec = lambda x, g=f, s=seen: self.safe(x, g, how, depth + 1, s)
        if isinstance(e, ast.Constant):
            return None
        if isinstance(e, ast.JoinedStr):
            return first(rec(x) for x in e.values)
        if isinstance(e, ast.FormattedValue):
            if how == "eval" and e.conversion in (114, 97):
                return None
            return rec(e.value)
        if isinstance(e, ast.BinOp):
            return rec(e.left) or rec(e.right)
        if isinstance(e, (ast.BoolOp,)):
            return first(rec(x) for x in e.values)
        if isinstance(e, ast.IfExp):
            return rec(e.body) or rec(e.orelse)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            return first(rec(x) for x in e.elts)
        if isinstance(e, ast.Starred):
            return rec(e.value)
        if isinstance(e, ast.Dict):
            return first(rec(x) for x in e.values)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            return rec(e.elt)
        if isinstance(e, ast.NamedExpr):
            return rec(e.value)
        if isinstance(e, ast.Subscript):
            return rec(e.value)
        if isinstance(e, ast.Call):
            d = dotted(e.func) or ""
            r = resolve_name(f, e.func) or d
            if d in QUOTES[how] or r in QUOTES[how]:
                return None
            t = types().static_callee(e, f)
            if t is None and isinstance(e.func, ast.Name):
                t = visible(f, e.func.id)
            if isinstance(t, FuncInfo):
                if t.qual.startswith("pkm.utils.parsers.SimpleParser.match"):
                    # what a match returns is what was to be matched
                    return first(rec(a) for a in e.args)
                if t.qual in seen:
                    return None
                rets = [n.value for n in walk_own(t.node) if isinstance(n, ast.Return) and n.value is not None]
                if isinstance(t.node, ast.Lambda):
                    rets = [t.node.body]
                if rets and not t.is_generator:
                    return first(self.safe(x, t, how, depth + 1, seen + (t.qual,)) for x in rets)
                return f"the result of {t.short}"
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("join", "format", "strip", "replace", "lower", "upper", "get", "lstrip", "rstrip", "encode"):
                return rec(e.func.value) or first(rec(a) for a in list(e.args) + [k.value for k in e.keywords])
            if d in ("dedent", "textwrap.dedent", "str", "next", "iter", "list", "tuple"):
                return first(rec(a) for a in e.args)
            return f"the result of {d or 'a call'}"
        if isinstance(e, ast.Name):
            return self.safe_name(e.id, f, how, depth, seen)
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Attribute) or isinstance(e.value, ast.Name):
                r = resolve_name(f, e)
                if r and self.global_value(r, how, depth, seen) is None:
                    return None
            return f"{dotted(e) or e.attr}"
        return f"an expression at line {getattr(e, 'lineno', '?')}"

    def global_value(self, q, how, depth, seen):
        q = self.p.canonical(q) or q
        mod, _, name = q.rpartition(".")
        m = self.p.modules.get(mod)
        c = self.p.classes.get(mod)
        vals = []
        if m is not None:
            for n in m.tree.body:
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        if isinstance(t, ast.Name) and t.id == name:
                            vals.append(n.value)
        elif c is not None and name in c.class_attrs and isinstance(c.class_attrs[name], ast.AST):
            vals.append(c.class_attrs[name])
        if not vals:
            return q
        bad = first(None if constant(v) else q for v in vals)
        return bad

    def safe_name(self, name, f, how, depth, seen):
        key = (f.qual, name)
        if key in seen:
            return None
        seen = seen + (key,)
        g = f
        while g is not None:
            vals, bound = bindings(g, name)
            if bound:
                bad = None
                for v in vals:
                    bad = bad or (self.safe(v, g, how, depth + 1, seen) if isinstance(v, ast.AST) else v)
                if name in g.params + g.kwonly or name in (g.vararg, g.kwarg):
                    bad = bad or self.safe_param(name, g, how, depth, seen)
                return bad
            g = g.parent
        return self.global_value(f"{f.module.name}.{name}", how, depth, seen) and \
            self.global_value(resolve_name(f, ast.Name(id=name, ctx=ast.Load())) or name, how, depth, seen)

    def safe_param(self, name, g, how, depth, seen):
        sites = list(self.callers.get(g.qual, []))
        nm = g.name
        sites += [s for s in self.by_name.get(nm, [])] if not isinstance(g.node, ast.Lambda) else []
        if not sites or name in (g.vararg, g.kwarg):
            return f"parameter {name} of {g.short}"
        shift = 1 if g.cls is not None and g.parent is None and "staticmethod" not in g.decorators else 0
        for f, n in sites:
            i = g.params.index(name) - shift if name in g.params else None
            a = None
            if i is not None and 0 <= i < len(n.args) and not any(isinstance(x, ast.Starred) for x in n.args[:i + 1]):
                a = n.args[i]
            for k in n.keywords:
                if k.arg == name:
                    a = k.value
            if a is None:
                a = g.defaults.get(name)
                if a is None:
                    return f"parameter {name} of {g.short}"
            bad = self.safe(a, f, how, depth + 1, seen)
            if bad:
                return bad
        return None

    # ------------------------------------------------------------------ the sinks
    def scan(self, f, body_of=None):
        for n in (walk_own(f.node) if body_of is None else ast.walk(body_of)):
            if isinstance(n, ast.Name) and n.id in EVALUATORS and isinstance(n.ctx, ast.Load) and self.builtin(f, n.id):
                self.evaluator(f, n)
            elif isinstance(n, ast.Attribute) and n.attr in ("eval", "exec") and dotted(n.value) in ("builtins", "__builtins__"):
                self.evaluator(f, n)
            elif isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load):
                r = resolve_name(f, n) or ""
                if r in SHELLS:
                    self.shell(f, n)
                elif r in UNPICKLERS or r.split(".")[0] in ("pickle", "_pickle", "marshal") and r.split(".")[-1] in ("load", "loads", "Unpickler"):
                    self.unpickler(f, n, r)
            if isinstance(n, ast.Call):
                self.runner(f, n)
            if isinstance(n, ast.List) or isinstance(n, ast.Tuple):
                self.snippet(f, n)

    def builtin(self, f, name):
        g = f
        while g is not None:
            if bindings(g, name)[1] or name in g.nested:
                return False
            g = g.parent
        r = self.p.resolve_dotted(name, f.module, f)
        return r is None or r == name or r.startswith("builtins.")

    def call_of(self, f, fn):
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and n.func is fn:
                return n
        return None

    def where(self, f, n):
        return f"{f.module.rel}:{n.lineno}"

    def evaluator(self, f, fn):
        self.ctx.count("evaluators_checked")
        c = self.call_of(f, fn)
        name = fn.id if isinstance(fn, ast.Name) else fn.attr
        if c is None or not c.args:
            self.ctx.finding("evaluated", f"{f.short}:{name}", f"{name} is passed on as a function: the text it gets is unknown", self.where(f, fn))
            return
        bad = self.safe(c.args[0], f, "eval")
        if bad:
            self.ctx.finding("evaluated", f"{f.short}:{name}", f"{name} gets text that is not the program's own: {bad}", self.where(f, fn))

    def shell(self, f, fn):
        self.ctx.count("shells_checked")
        c = self.call_of(f, fn)
        bad = "unknown text" if c is None or not c.args else self.safe(c.args[0], f, "shell")
        if bad:
            self.ctx.finding("shell", f"{f.short}:{dotted(fn)}", f"a shell gets text that is not the program's own: {bad}", self.where(f, fn))

    def runner(self, f, n):
        shell = [k.value for k in n.keywords if k.arg == "shell"]
        if not shell or isinstance(shell[0], ast.Constant) and not shell[0].value:
            return
        self.ctx.count("shells_checked")
        # the command is the first list or text given
        bad = first(self.safe(a, f, "shell") for a in list(n.args) + [k.value for k in n.keywords if k.arg == "args"]) if n.args or n.keywords else None
        if bad:
            self.ctx.finding("shell", f"{f.short}:{dotted(n.func)}", f"a shell gets text that is not the program's own: {bad}", self.where(f, n))

    def snippet(self, f, n):
        for i, x in enumerate(n.elts[:-1]):
            if isinstance(x, ast.Constant) and x.value == "-c" and i > 0:
                self.ctx.count("snippets_checked")
                shellish = any(isinstance(y, ast.Constant) and isinstance(y.value, str) and y.value.split("/")[-1] in ("sh", "bash", "zsh", "dash")
                               for y in n.elts[:i])
                bad = self.safe(n.elts[i + 1], f, "shell" if shellish else "eval")
                if bad:
                    self.ctx.finding("evaluated", f"{f.short}:-c", f"an interpreter is started with code that is not the program's own: {bad}",
                                     self.where(f, n))

    def unpickler(self, f, fn, r):
        self.ctx.count("unpicklers_checked")
        c = self.call_of(f, fn)
        if c is None or not c.args:
            self.ctx.finding("unpickled", f"{f.short}:{r}", f"{r} is passed on as a function: the data it gets is unknown", self.where(f, fn))
            return
        if not self.own_pipe(c.args[0], f):
            self.ctx.finding("unpickled", f"{f.short}:{r}", f"{r} reads data that does not come from a pipe between the program and its own worker: "
                             f"{dotted(c.args[0]) or ast.dump(c.args[0])[:40]}", self.where(f, fn))

    def own_pipe(self, e, f, depth=0, seen=()):
        if depth > 8:
            return False
        if isinstance(e, ast.Name):
            g = f
            while g is not None:
                vals, bound = bindings(g, e.id)
                if bound:
                    if e.id in g.params:
                        if (g.qual, e.id) in seen:
                            return True
                        sites = self.callers.get(g.qual, []) + self.by_name.get(g.name, [])
                        shift = 1 if g.cls is not None and g.parent is None and "staticmethod" not in g.decorators else 0
                        i = g.params.index(e.id) - shift
                        ok = [0 <= i < len(n.args) and self.own_pipe(n.args[i], h, depth + 1, seen + ((g.qual, e.id),)) or
                              any(k.arg == e.id and self.own_pipe(k.value, h, depth + 1, seen + ((g.qual, e.id),)) for k in n.keywords) for h, n in sites]
                        return bool(ok) and all(ok)
                    return bool(vals) and all(isinstance(v, ast.AST) and self.own_pipe(v, g, depth + 1) for v in vals)
                g = g.parent
            return False
        if isinstance(e, ast.Attribute):
            d = dotted(e) or ""
            if d in ("sys.stdin.buffer", "sys.__stdin__.buffer"):
                return True
            if e.attr in ("stdin", "stdout", "stderr"):
                # of a process this program started
                b = e.value
                cls = f
                while cls.parent is not None:
                    cls = cls.parent
                if isinstance(b, ast.Attribute) and cls.cls is not None:
                    vals = attribute_values(self.p, cls.cls, b.attr)
                    return bool(vals) and all(is_none(v) or started(v) for v in vals)
                if isinstance(b, ast.Name):
                    vals, bound = bindings(f, b.id)
                    return bool(vals) and all(isinstance(v, ast.AST) and started(v) for v in vals)
                return False
            cls = outermost(f).cls
            if cls is not None and isinstance(e.value, ast.Name):
                vals = [(g, v) for g, v in attribute_values(self.p, cls, e.attr, True) if not is_none(v)]
                return bool(vals) and all(self.own_pipe(v, g, depth + 1) for g, v in vals)
        return False


def is_none(v):
    return isinstance(v, ast.Constant) and v.value is None


def started(v):
    return isinstance(v, ast.Call) and (dotted(v.func) or "").split(".")[-1] == "Popen"


def attribute_values(p, cls, attr, with_func=False):
    out = []
    for c in p.mro(cls):
        for m in c.methods.values():
            for n in walk_own(m.node):
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        if isinstance(t, ast.Attribute) and t.attr == attr:
                            out.append((m, n.value) if with_func else n.value)
    return out


def constant(v):
    if isinstance(v, ast.Constant):
        return True
    if isinstance(v, (ast.Tuple, ast.List, ast.Set)):
        return all(constant(x) for x in v.elts)
    if isinstance(v, ast.Dict):
        return all(constant(x) for x in v.values)
    if isinstance(v, ast.BinOp):
        return constant(v.left) and constant(v.right)
    if isinstance(v, ast.Call) and (dotted(v.func) or "").split(".")[-1] in ("dedent", "frozenset", "set", "tuple", "list"):
        return all(constant(a) for a in v.args)
    if isinstance(v, ast.JoinedStr):
        return all(isinstance(x, ast.Constant) for x in v.values)
    return False


def first(it):
    for x in it:
        if x:
            return x
    return None


def visible(f, name):
    while f is not None:
        if name in f.nested:
            return f.nested[name]
        f = f.parent
    return None


def bindings(f, name):
    """(what is assigned to name in f, is it local to f)"""
    vals, bound = [], name in f.params or name in f.kwonly or name in (f.vararg, f.kwarg)
    for n in walk_own(f.node):
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                if isinstance(t, ast.Name) and t.id == name:
                    bound = True
                    if n.value is not None:
                        vals.append(n.value)
                elif isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(t)):
                    bound = True
                    if isinstance(n.value, (ast.Tuple, ast.List)) and len(n.value.elts) == len(t.elts):
                        vals += [v for x, v in zip(t.elts, n.value.elts) if isinstance(x, ast.Name) and x.id == name]
                    else:
                        vals.append(f"a part of {dotted(n.value) or 'a value'}" if not isinstance(n.value, ast.Name) else n.value)
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
            bound = True
            vals.append(n.value)
        elif isinstance(n, ast.NamedExpr) and n.target.id == name:
            bound = True
            vals.append(n.value)
        elif isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.target)):
            bound = True
            vals.append(n.iter)
        elif isinstance(n, (ast.With,)) and any(i.optional_vars is not None and any(isinstance(x, ast.Name) and x.id == name for x in
                                                                                   ast.walk(i.optional_vars)) for i in n.items):
            bound = True
            vals.append(f"what with binds to {name}")
        elif isinstance(n, ast.ExceptHandler) and n.name == name:
            bound = True
            vals.append(f"the exception {name}")
    return vals, bound


def check(ctx):
    L = Lint(ctx)
    fs = library_functions(L.p)
    ctx.rule("eval, exec, compile, shells and -c snippets get only text made of constants and quoted values; unpicklers read only the "
             "pipes between the program and its own workers")
    for f in fs:
        L.scan(f)
        ctx.functions.add(f.qual) if hasattr(ctx.functions, "add") else None
    ctx.count("functions_scanned", len(fs))
    # code at module level
    for m in L.p.modules.values():
        if m.name.split(".")[0] not in LIBRARY:
            continue
        for s in m.tree.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            for n in ast.walk(s):
                if isinstance(n, ast.Call):
                    d = dotted(n.func) or ""
                    if d in EVALUATORS or d in SHELLS or d in UNPICKLERS:
                        ctx.count("evaluators_checked")
                        if not n.args or not constant(n.args[0]):
                            ctx.finding("evaluated", f"{m.name}:{d}", f"{d} is used at module level on text that is not constant", f"{m.rel}:{n.lineno}")
    ctx.at_least("functions_scanned", 1000)
    ctx.at_least("unpicklers_checked", 1)
