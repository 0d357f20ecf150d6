"""Whole-program model of the analysed sources: modules, classes, functions, light types, name resolution."""
from __future__ import annotations

import ast
import hashlib
import os
from pathlib import Path
from typing import Dict, List, Optional, Tuple, Iterable, Set, Any

REPO = Path(os.environ.get("PKMLINT_REPO", "/repo"))

ROOTS = [
    ("pkm/src", ["pkm"]),
    ("pkm-cli/src", ["pkm_cli", "pkm_templates"]),
    ("repositories/conda-pkm-repo/src", ["conda_pkm_repo"]),
    ("repositories/download-torch-pkm-repo/src", ["download_torch_pkm_repo"]),
]


class AnalysisError(Exception):
    """the analysis cannot give an answer (vanished anchor, unparsable source...)"""


class Module:
    def __init__(self, name: str, path: Path, src: str, is_pkg: bool):
        self.name = name
        self.path = path
        self.src = src
        self.is_pkg = is_pkg
        self.tree = ast.parse(src, str(path))
        self.imports: Dict[str, str] = {}
        self.classes: Dict[str, "ClassInfo"] = {}
        self.funcs: Dict[str, "FuncInfo"] = {}
        self.globals: Dict[str, ast.AST] = {}  # name -> value expr (last assignment)
        self.global_ann: Dict[str, ast.AST] = {}
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                c._parent = n  # type: ignore

    @property
    def rel(self) -> str:
        return str(self.path.relative_to(REPO))


class ClassInfo:
    def __init__(self, qual: str, module: Module, node: ast.ClassDef, outer: Optional[str]):
        self.qual = qual
        self.name = node.name
        self.module = module
        self.node = node
        self.outer = outer
        self.bases: List[str] = []
        self.methods: Dict[str, "FuncInfo"] = {}
        self.fields: Dict[str, ast.AST] = {}        # annotated class level names, in order
        self.field_defaults: Dict[str, ast.AST] = {}
        self.class_attrs: Dict[str, ast.AST] = {}   # plain class level assignments
        self.decorators = [decorator_name(d) for d in node.decorator_list]
        self.subclasses: List["ClassInfo"] = []

    def __repr__(self):
        return f"<class {self.qual}>"

    @property
    def is_dataclass(self):
        return any(d in ("dataclass", "dataclasses.dataclass") for d in self.decorators)

    def dataclass_flags(self) -> Dict[str, Any]:
        for d in self.node.decorator_list:
            if decorator_name(d) in ("dataclass", "dataclasses.dataclass"):
                if isinstance(d, ast.Call):
                    return {k.arg: getattr(k.value, "value", None) for k in d.keywords}
                return {}
        return {}

    @property
    def is_enum(self):
        return any(b.split(".")[-1] in ("Enum", "IntEnum", "Flag") for b in self.bases)


class FuncInfo:
    def __init__(self, qual: str, module: Module, node, cls: Optional[ClassInfo], parent: Optional["FuncInfo"]):
        self.qual = qual
        self.name = getattr(node, "name", "<lambda>")
        self.module = module
        self.node = node
        self.cls = cls
        self.parent = parent
        self.decorators = [decorator_name(d) for d in getattr(node, "decorator_list", [])]
        self.nested: Dict[str, "FuncInfo"] = {}
        self._local_imports: Optional[Dict[str, str]] = None
        self._locals: Optional[Set[str]] = None
        a = node.args
        self.params: List[str] = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly: List[str] = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.annotations: Dict[str, ast.AST] = {
            x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs if x.annotation is not None}
        self.defaults: Dict[str, ast.AST] = {}
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            self.defaults[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                self.defaults[p.arg] = d
        self.is_generator = not isinstance(node, ast.Lambda) and any(
            isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))

    def __repr__(self):
        return f"<func {self.qual}>"

    @property
    def is_static(self):
        return "staticmethod" in self.decorators

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorators

    @property
    def is_property(self):
        return any(d.split(".")[-1] in ("property", "cached_property", "typed_property") for d in self.decorators)

    @property
    def is_contextmanager(self):
        return any(d.split(".")[-1] == "contextmanager" for d in self.decorators)

    @property
    def is_abstract(self):
        if any(d.split(".")[-1] in ("abstractmethod", "overload") for d in self.decorators):
            return True
        if isinstance(self.node, ast.Lambda):
            return False
        b = [s for s in self.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if not b:   # only a docstring or `...`
            return any(isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and s.value.value is Ellipsis
                       for s in self.node.body)
        return len(b) == 1 and isinstance(b[0], ast.Raise) and "NotImplemented" in ast.dump(b[0])

    @property
    def body(self) -> List[ast.stmt]:
        if isinstance(self.node, ast.Lambda):
            r = ast.Return(value=self.node.body)
            ast.copy_location(r, self.node.body)
            return [r]
        return self.node.body

    @property
    def where(self) -> str:
        return f"{self.module.rel}:{self.node.lineno} {self.short}"

    @property
    def short(self):
        return self.qual[len(self.module.name) + 1:]

    @property
    def local_imports(self) -> Dict[str, str]:
        if self._local_imports is None:
            self._local_imports = {}
            if not isinstance(self.node, ast.Lambda):
                for n in walk_own(self.node):
                    if isinstance(n, (ast.Import, ast.ImportFrom)):
                        collect_import(n, self.module, self._local_imports)
        return self._local_imports

    @property
    def locals(self) -> Set[str]:
        if self._locals is None:
            s = set(self.params) | set(self.kwonly)
            if self.vararg:
                s.add(self.vararg)
            if self.kwarg:
                s.add(self.kwarg)
            glob = set()
            for n in walk_own(self.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    s.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    s.add(n.name)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    s.add(n.name)
                elif isinstance(n, (ast.Global, ast.Nonlocal)):
                    glob.update(n.names)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names:
                        s.add((a.asname or a.name).split(".")[0])
            self._locals = s - glob
        return self._locals


def walk_own(node) -> Iterable[ast.AST]:
    """walk the body of a function without descending into nested functions / classes (the nested def itself is
    yielded; comprehension bodies are included)"""
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(reversed(body))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(reversed(list(ast.iter_child_nodes(n))))


def decorator_name(d: ast.AST) -> str:
    if isinstance(d, ast.Call):
        d = d.func
    return dotted(d) or "?"


def dotted(e: ast.AST) -> Optional[str]:
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return f"{b}.{e.attr}" if b else None
    return None


def collect_import(n, module: Module, out: Dict[str, str]):
    if isinstance(n, ast.Import):
        for a in n.names:
            if a.asname:
                out[a.asname] = a.name
            else:
                out[a.name.split(".")[0]] = a.name.split(".")[0]
    else:
        base = n.module or ""
        if n.level:
            parts = module.name.split(".")
            if not module.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (n.level - 1)]
            base = ".".join(parts + ([n.module] if n.module else []))
        for a in n.names:
            out[a.asname or a.name] = f"{base}.{a.name}"


class Program:
    def __init__(self, repo: Path = None):
        self.repo = repo or REPO
        self.modules: Dict[str, Module] = {}
        self.classes: Dict[str, ClassInfo] = {}
        self.funcs: Dict[str, FuncInfo] = {}
        self.func_of_node: Dict[int, FuncInfo] = {}
        self.class_of_node: Dict[int, ClassInfo] = {}
        self.methods_by_name: Dict[str, List[FuncInfo]] = {}
        self._load()
        self._link()

    # ---- loading
    def _load(self):
        h = hashlib.sha256()
        for root, pkgs in ROOTS:
            base = self.repo / root
            for pkg in pkgs:
                pdir = base / pkg
                if not pdir.is_dir():
                    raise AnalysisError(f"source root vanished: {pdir}")
                for f in sorted(pdir.rglob("*.py")):
                    relp = f.relative_to(base)
                    if any("{" in p for p in relp.parts):
                        continue
                    parts = list(relp.with_suffix("").parts)
                    is_pkg = parts[-1] == "__init__"
                    if is_pkg:
                        parts = parts[:-1]
                    name = ".".join(parts)
                    src = f.read_text(encoding="utf-8")
                    h.update(name.encode() + b"\0" + src.encode())
                    try:
                        self.modules[name] = Module(name, f, src, is_pkg)
                    except SyntaxError as e:
                        raise AnalysisError(f"cannot parse {f}: {e}")
        self.digest = h.hexdigest()
        for m in self.modules.values():
            for n in m.tree.body:
                self._top(m, n)

    def _top(self, m: Module, n):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            collect_import(n, m, m.imports)
        elif isinstance(n, ast.ClassDef):
            self._class(m, n, None, m.name)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            m.funcs[n.name] = self._func(m, n, None, None, f"{m.name}.{n.name}")
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        m.globals[x.id] = n.value
            self._lambdas(m, n.value, None, None, m.name)
        elif isinstance(n, ast.AnnAssign):
            if isinstance(n.target, ast.Name):
                m.global_ann[n.target.id] = n.annotation
                if n.value is not None:
                    m.globals[n.target.id] = n.value
            if n.value is not None:
                self._lambdas(m, n.value, None, None, m.name)
        elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
            for f in ("body", "orelse", "finalbody"):
                for c in getattr(n, f, []) or []:
                    self._top(m, c)
            for hnd in getattr(n, "handlers", []):
                for c in hnd.body:
                    self._top(m, c)
        elif isinstance(n, ast.Expr):
            self._lambdas(m, n.value, None, None, m.name)

    def _class(self, m: Module, n: ast.ClassDef, outer, prefix: str) -> ClassInfo:
        qual = f"{prefix}.{n.name}"
        ci = ClassInfo(qual, m, n, outer)
        self.classes[qual] = ci
        self.class_of_node[id(n)] = ci
        if outer is None:
            m.classes[n.name] = ci
        for b in n.body:
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                key = b.name
                fi = self._func(m, b, ci, None, f"{qual}.{b.name}")
                if any(d.endswith(".setter") for d in fi.decorators) or "overload" in fi.decorators:
                    key = b.name + "@setter"
                    fi.qual += "@setter"
                    self.funcs[fi.qual] = fi
                ci.methods[key] = fi
                if key == b.name:
                    self.funcs[f"{qual}.{b.name}"] = fi
            elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                ci.fields[b.target.id] = b.annotation
                if b.value is not None:
                    ci.field_defaults[b.target.id] = b.value
                    self._lambdas(m, b.value, None, ci, qual)
            elif isinstance(b, ast.Assign):
                for t in b.targets:
                    if isinstance(t, ast.Name):
                        ci.class_attrs[t.id] = b.value
                self._lambdas(m, b.value, None, ci, qual)
            elif isinstance(b, ast.ClassDef):
                self._class(m, b, qual, qual)
        return ci

    def _func(self, m, n, cls, parent, qual) -> FuncInfo:
        fi = FuncInfo(qual, m, n, cls, parent)
        self.funcs.setdefault(qual, fi)
        self.func_of_node[id(n)] = fi
        if cls is not None and parent is None:
            self.methods_by_name.setdefault(n.name, []).append(fi)
        for b in walk_own(n):
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                nq, k = f"{qual}.{b.name}", 2
                while nq in self.funcs:    # the same name defined again, on another branch
                    nq, k = f"{qual}.{b.name}#{k}", k + 1
                fi.nested[b.name] = self._func(m, b, cls, fi, nq)
            elif isinstance(b, ast.Lambda):
                self._func_lambda(m, b, cls, fi, qual)
            elif isinstance(b, ast.ClassDef):
                self._class(m, b, qual, qual)
        for d in list(n.args.defaults) + [x for x in n.args.kw_defaults if x is not None]:
            self._lambdas(m, d, parent, cls, qual + ".<default>")
        return fi

    def _func_lambda(self, m, b: ast.Lambda, cls, parent, qual):
        q = f"{qual}.<lambda@{b.lineno}:{b.col_offset}>"
        li = FuncInfo(q, m, b, cls, parent)
        self.func_of_node[id(b)] = li
        self.funcs[q] = li
        for x in walk_own(b):
            if isinstance(x, ast.Lambda):
                self._func_lambda(m, x, cls, li, q)

    def _lambdas(self, m, e, parent, cls, qual):
        stack = [e]
        while stack:
            n = stack.pop()
            if isinstance(n, ast.Lambda):
                if id(n) not in self.func_of_node:
                    self._func_lambda(m, n, cls, parent, qual)
                continue
            stack.extend(ast.iter_child_nodes(n))

    # ---- linking
    def _link(self):
        for c in self.classes.values():
            for b in c.node.bases:
                e = b.value if isinstance(b, ast.Subscript) else b
                d = dotted(e)
                if d:
                    c.bases.append(self.resolve_dotted(d, c.module, None) or d)
        for c in self.classes.values():
            for b in c.bases:
                if b in self.classes:
                    self.classes[b].subclasses.append(c)

    # ---- name resolution
    def resolve_dotted(self, name: str, module: Module, func: Optional[FuncInfo]) -> Optional[str]:
        """resolve a dotted source name to a program wide dotted name (repo object or external)"""
        head, _, rest = name.partition(".")
        base = None
        f = func
        while f is not None:
            if head in f.local_imports:
                base = f.local_imports[head]
                break
            if head in f.nested:
                base = f.nested[head].qual
                break
            lc = f"{f.qual}.{head}"
            if lc in self.classes:
                base = lc
                break
            if head in f.locals:
                return None
            f = f.parent
        if base is None:
            if head in module.classes:
                base = module.classes[head].qual
            elif head in module.funcs:
                base = module.funcs[head].qual
            elif head in module.imports:
                base = module.imports[head]
            elif head in module.globals or head in module.global_ann:
                base = f"{module.name}.{head}"
            else:
                # class scope names (nested classes)
                base = None
                for cq in self.classes:
                    if cq.startswith(module.name + ".") and cq.split(".")[-1] == head and \
                            func is not None and func.cls is not None and cq == f"{func.cls.qual}.{head}":
                        base = cq
                if base is None:
                    base = head if head in BUILTINS else None
        if base is None:
            return None
        full = f"{base}.{rest}" if rest else base
        return self.canonical(full)

    def canonical(self, full: str, depth=0) -> str:
        """follow re-exports"""
        if depth > 8 or full in self.classes or full in self.funcs or full in self.modules:
            return full
        parts = full.split(".")
        for i in range(len(parts) - 1, 0, -1):
            mn = ".".join(parts[:i])
            if mn in self.modules:
                m = self.modules[mn]
                h = parts[i]
                rest = ".".join(parts[i + 1:])
                if h in m.classes or h in m.funcs:
                    return full
                if h in m.globals:
                    v = m.globals[h]
                    if not rest and isinstance(v, (ast.Name, ast.Attribute)) and (d := dotted(v)) and d != h:
                        t = self.resolve_dotted(d, m, None)     # another name of a function
                        if t is not None and depth < 8 and (t in self.funcs or t.split(".")[0] not in self.modules and t != full
                                                            and t.split(".")[0] in ("shutil", "os", "subprocess", "pathlib", "hashlib")):
                            return t
                    return full
                if h in m.imports:
                    t = m.imports[h] + (("." + rest) if rest else "")
                    return self.canonical(t, depth + 1)
                return full
        return full

    # ---- classes
    def mro(self, cls: ClassInfo) -> List[ClassInfo]:
        out, seen = [], set()

        def go(c):
            if c.qual in seen:
                return
            seen.add(c.qual)
            out.append(c)
            for b in c.bases:
                if b in self.classes:
                    go(self.classes[b])

        go(cls)
        return out

    def ext_bases(self, cls: ClassInfo) -> List[str]:
        return [b for c in self.mro(cls) for b in c.bases if b not in self.classes]

    def find_method(self, cls: ClassInfo, name: str) -> Optional[FuncInfo]:
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
        return None

    def find_after(self, cls: ClassInfo, owner: ClassInfo, name: str) -> Optional[FuncInfo]:
        m = self.mro(cls)
        idx = m.index(owner) if owner in m else -1
        for c in m[idx + 1:]:
            if name in c.methods:
                return c.methods[name]
        return None

    def all_subclasses(self, cls: ClassInfo) -> List[ClassInfo]:
        out, seen, st = [], set(), list(cls.subclasses)
        while st:
            c = st.pop(0)
            if c.qual in seen:
                continue
            seen.add(c.qual)
            out.append(c)
            st.extend(c.subclasses)
        return out

    def implementations(self, cls: ClassInfo, name: str) -> List[FuncInfo]:
        """the methods a call of `name` on a value of static type `cls` may reach"""
        out = []
        m = self.find_method(cls, name)
        if m is not None and not m.is_abstract:
            out.append(m)
        for s in self.all_subclasses(cls):
            x = s.methods.get(name)
            if x is not None and not x.is_abstract and x not in out:
                out.append(x)
        return out

    def cls(self, qual_or_name: str) -> ClassInfo:
        if qual_or_name in self.classes:
            return self.classes[qual_or_name]
        c = [x for q, x in self.classes.items() if q.endswith("." + qual_or_name)]
        if len(c) == 1:
            return c[0]
        raise AnalysisError(f"anchor vanished: class {qual_or_name} ({len(c)} candidates)")

    def func(self, qual: str) -> FuncInfo:
        if qual in self.funcs:
            return self.funcs[qual]
        c = [f for q, f in self.funcs.items() if q.endswith("." + qual) and "<lambda" not in q]
        if len(c) == 1:
            return c[0]
        raise AnalysisError(f"anchor vanished: function {qual} ({len(c)} candidates)")

    def is_subclass(self, name: str, of: str) -> Optional[bool]:
        """exception/class hierarchy test by dotted name; None when unknown"""
        if name == of:
            return True
        if name in self.classes:
            res: Optional[bool] = False
            for b in self.classes[name].bases or ["object"]:
                r = self.is_subclass(b, of)
                if r:
                    return True
                if r is None:
                    res = None
            return res
        a, b = BUILTIN_EXC.get(name.split(".")[-1]), BUILTIN_EXC.get(of.split(".")[-1])
        if a is not None and b is not None:
            return issubclass(a, b)
        if a is not None and of in self.classes:
            return False
        if name == "object" or name in ("abc.ABC", "ABC", "typing.Generic"):
            return of == "object"
        return None


import builtins as _b

BUILTINS = set(dir(_b))
BUILTIN_EXC = {k: v for k, v in vars(_b).items() if isinstance(v, type) and issubclass(v, BaseException)}
for _alias in ("IOError", "EnvironmentError"):
    BUILTIN_EXC[_alias] = OSError


# --------------------------------------------------------------------------------------------- types

class TypeInfo:
    """types: ('cls', qual) ('type', qual) ('ext', dotted) ('list'|'set'|'iter', T) ('dict', K, V) ('tuple', (T..)) or None"""

    def __init__(self, prog: Program):
        self.p = prog
        self._attr_cache: Dict[Tuple[str, str], Any] = {}
        self._busy: Set[Tuple[str, str]] = set()

    def from_ann(self, a: Optional[ast.AST], module: Module, func: Optional[FuncInfo], cls: Optional[ClassInfo] = None):
        if a is None:
            return None
        if isinstance(a, ast.Constant):
            if isinstance(a.value, str):
                try:
                    return self.from_ann(ast.parse(a.value, mode="eval").body, module, func, cls)
                except SyntaxError:
                    return None
            return None
        if isinstance(a, (ast.Name, ast.Attribute)):
            d = dotted(a)
            if d is None:
                return None
            r = self.p.resolve_dotted(d, module, func)
            if r is None:
                # maybe a TYPE_CHECKING name or class-level name
                r = d
            r2 = r.split(".")[-1]
            if r in self.p.classes:
                return ("cls", r)
            if r2 in ("Self",) and cls is not None:
                return ("cls", cls.qual)
            return ("ext", r)
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            l, r = self.from_ann(a.left, module, func, cls), self.from_ann(a.right, module, func, cls)
            return l or r
        if isinstance(a, ast.Subscript):
            h = (dotted(a.value) or "").split(".")[-1]
            args = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
            if h == "Optional":
                return self.from_ann(args[0], module, func, cls)
            if h == "Union":
                for x in args:
                    t = self.from_ann(x, module, func, cls)
                    if t is not None and t[0] == "cls":
                        return t
                return self.from_ann(args[0], module, func, cls)
            if h in ("List", "list", "Sequence", "Deque", "deque", "MutableSequence"):
                return ("list", self.from_ann(args[0], module, func, cls))
            if h in ("Set", "set", "FrozenSet", "frozenset", "AbstractSet"):
                return ("set", self.from_ann(args[0], module, func, cls))
            if h in ("Iterable", "Iterator", "Generator", "Collection"):
                return ("iter", self.from_ann(args[0], module, func, cls))
            if h in ("ContextManager",):
                return ("ctx", self.from_ann(args[0], module, func, cls))
            if h in ("Dict", "dict", "Mapping", "MutableMapping", "defaultdict", "DefaultDict", "WeakKeyDictionary"):
                return ("dict", self.from_ann(args[0], module, func, cls),
                        self.from_ann(args[1], module, func, cls) if len(args) > 1 else None)
            if h in ("Tuple", "tuple"):
                if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis:
                    return ("list", self.from_ann(args[0], module, func, cls))
                return ("tuple", tuple(self.from_ann(x, module, func, cls) for x in args))
            if h in ("Type", "type"):
                t = self.from_ann(args[0], module, func, cls)
                return ("type", t[1]) if t and t[0] == "cls" else None
            if h in ("Annotated", "Final", "ClassVar"):
                return self.from_ann(args[0], module, func, cls)
            return self.from_ann(a.value, module, func, cls)
        return None

    def ret_type(self, f: FuncInfo):
        n = f.node
        if isinstance(n, ast.Lambda):
            return None
        t = self.from_ann(n.returns, f.module, f, f.cls)
        if t is not None and t[0] == "ctx" and f.is_contextmanager:
            return t
        return t

    def attr_type(self, cls: ClassInfo, name: str):
        key = (cls.qual, name)
        if key in self._attr_cache:
            return self._attr_cache[key]
        if key in self._busy:
            return None
        self._busy.add(key)
        try:
            r = self._attr_type(cls, name)
        finally:
            self._busy.discard(key)
        self._attr_cache[key] = r
        return r

    def _attr_type(self, cls: ClassInfo, name: str):
        for c in self.p.mro(cls):
            if name in c.fields:
                return self.from_ann(c.fields[name], c.module, None, c)
            if name in c.methods and c.methods[name].is_property:
                return self.ret_type(c.methods[name])
        for c in self.p.mro(cls):
            # self.x: T = ... / self.x = param / self.x = Class(...)
            for m in c.methods.values():
                for n in walk_own(m.node):
                    tgt = val = ann = None
                    if isinstance(n, ast.AnnAssign):
                        tgt, val, ann = n.target, n.value, n.annotation
                    elif isinstance(n, ast.Assign) and len(n.targets) == 1:
                        tgt, val = n.targets[0], n.value
                    if isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and m.params and \
                            tgt.value.id == m.params[0] and tgt.attr == name:
                        if ann is not None:
                            t = self.from_ann(ann, c.module, m, c)
                        else:
                            t = self.expr_type(val, m)
                        if t is not None:
                            return t
        return None

    def local_types(self, f: FuncInfo) -> Dict[str, Any]:
        """flow-insensitive types of local variables"""
        if hasattr(f, "_ltypes"):
            return f._ltypes
        f._ltypes = env = {}
        for p in f.params + f.kwonly:
            t = self.from_ann(f.annotations.get(p), f.module, f, f.cls)
            if t is not None:
                env[p] = t
        if f.cls is not None and f.params and not f.is_static and f.parent is None:
            env.setdefault(f.params[0], ("type", f.cls.qual) if f.is_classmethod else ("cls", f.cls.qual))
        for n in walk_own(f.node):
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                t = self.from_ann(n.annotation, f.module, f, f.cls)
                if t:
                    env.setdefault(n.target.id, t)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                t = self.expr_type(n.value, f)
                if t:
                    env.setdefault(n.targets[0].id, t)
            elif isinstance(n, ast.NamedExpr):
                t = self.expr_type(n.value, f)
                if t:
                    env.setdefault(n.target.id, t)
            elif isinstance(n, (ast.For, ast.comprehension)):
                t = self.expr_type(n.iter, f)
                e = elem_type(t)
                if isinstance(n.target, ast.Name) and e:
                    env.setdefault(n.target.id, e)
                elif isinstance(n.target, ast.Tuple) and e and e[0] == "tuple":
                    for x, xt in zip(n.target.elts, e[1]):
                        if isinstance(x, ast.Name) and xt:
                            env.setdefault(x.id, xt)
            elif isinstance(n, ast.With):
                for it in n.items:
                    if isinstance(it.optional_vars, ast.Name):
                        t = self.expr_type(it.context_expr, f)
                        if t and t[0] == "ctx":
                            t = t[1]
                        if t:
                            env.setdefault(it.optional_vars.id, t)
        return env

    def var_type(self, name: str, f: Optional[FuncInfo]):
        while f is not None:
            if name in f.locals or name in f.params:
                return self.local_types(f).get(name)
            f = f.parent
        return None

    def global_type(self, qual: str):
        mn, _, v = qual.rpartition(".")
        m = self.p.modules.get(mn)
        if m is None:
            # class attribute / enum member
            c = self.p.classes.get(mn)
            if c is not None and c.is_enum:
                return ("cls", c.qual)
            if c is not None:
                return self.attr_type(c, v)
            return None
        if v in m.global_ann:
            return self.from_ann(m.global_ann[v], m, None)
        if v in m.globals:
            return self.expr_type(m.globals[v], None, m)
        return None

    def expr_type(self, e: Optional[ast.AST], f: Optional[FuncInfo], module: Optional[Module] = None):
        if e is None:
            return None
        module = module or (f.module if f else None)
        if isinstance(e, ast.Name):
            t = self.var_type(e.id, f)
            if t is not None:
                return t
            r = self.p.resolve_dotted(e.id, module, f)
            if r in self.p.classes:
                return ("type", r)
            if r:
                return self.global_type(r)
            return None
        if isinstance(e, ast.Attribute):
            d = dotted(e)
            if d:
                r = self.p.resolve_dotted(d, module, f)
                if r in self.p.classes:
                    return ("type", r)
                if r and self.var_type(d.split(".")[0], f) is None:
                    t = self.global_type(r)
                    if t is not None:
                        return t
            bt = self.expr_type(e.value, f, module)
            if bt and bt[0] == "cls":
                return self.attr_type(self.p.classes[bt[1]], e.attr)
            if bt and bt[0] == "type":
                c = self.p.classes[bt[1]]
                if c.is_enum:
                    return ("cls", c.qual)
                return self.attr_type(c, e.attr)
            return None
        if isinstance(e, ast.Call):
            tg = self.static_callee(e, f, module)
            if isinstance(tg, ClassInfo):
                return ("cls", tg.qual)
            if isinstance(tg, FuncInfo):
                t = self.ret_type(tg)
                if tg.is_contextmanager and t and t[0] in ("iter", "list"):
                    return ("ctx", t[1])
                return t
            if isinstance(e.func, ast.Name) and e.func.id in ("list", "sorted", "set", "tuple", "iter", "reversed") and e.args:
                t = elem_type(self.expr_type(e.args[0], f, module))
                return ("list", t) if t else None
            if isinstance(e.func, ast.Name) and e.func.id in ("next", "max", "min") and e.args:
                return elem_type(self.expr_type(e.args[0], f, module))
            if isinstance(e.func, ast.Name) and e.func.id == "cast" and len(e.args) == 2:
                return self.from_ann(e.args[0], module, f)
            if isinstance(e.func, ast.Attribute):
                bt = self.expr_type(e.func.value, f, module)
                if bt and bt[0] == "dict":
                    if e.func.attr in ("get", "pop", "setdefault"):
                        return bt[2]
                    if e.func.attr == "values":
                        return ("iter", bt[2])
                    if e.func.attr == "keys":
                        return ("iter", bt[1])
                    if e.func.attr == "items":
                        return ("iter", ("tuple", (bt[1], bt[2])))
                if bt and bt[0] in ("list", "set") and e.func.attr in ("pop", "popleft"):
                    return bt[1]
                if bt and bt[0] in ("list", "set", "dict") and e.func.attr == "copy":
                    return bt
            d = dotted(e.func)
            if d:
                r = self.p.resolve_dotted(d, module, f)
                if r and r[:1].isalpha() and r not in self.p.funcs:
                    return ("ext", r)
            return None
        if isinstance(e, ast.Subscript):
            bt = self.expr_type(e.value, f, module)
            if bt and bt[0] == "dict":
                return bt[2]
            if bt and bt[0] == "list":
                return bt if isinstance(e.slice, ast.Slice) else bt[1]
            if bt and bt[0] == "tuple" and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) \
                    and -len(bt[1]) <= e.slice.value < len(bt[1]):
                return bt[1][e.slice.value]
            return None
        if isinstance(e, ast.BoolOp):
            for v in e.values:
                t = self.expr_type(v, f, module)
                if t:
                    return t
            return None
        if isinstance(e, ast.IfExp):
            return self.expr_type(e.body, f, module) or self.expr_type(e.orelse, f, module)
        if isinstance(e, ast.NamedExpr):
            return self.expr_type(e.value, f, module)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            t = self.expr_type(e.elt, f, module)
            return ("list", t)
        if isinstance(e, ast.SetComp):
            return ("set", self.expr_type(e.elt, f, module))
        if isinstance(e, ast.DictComp):
            return ("dict", self.expr_type(e.key, f, module), self.expr_type(e.value, f, module))
        if isinstance(e, (ast.List, ast.Set)):
            t = self.expr_type(e.elts[0], f, module) if e.elts else None
            return ("list" if isinstance(e, ast.List) else "set", t)
        if isinstance(e, ast.Tuple):
            return ("tuple", tuple(self.expr_type(x, f, module) for x in e.elts))
        if isinstance(e, ast.Dict):
            return ("dict", None, self.expr_type(e.values[0], f, module) if e.values else None)
        if isinstance(e, (ast.JoinedStr,)):
            return ("ext", "str")
        if isinstance(e, ast.Constant):
            return ("ext", type(e.value).__name__) if e.value is not None else None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Div):
            lt = self.expr_type(e.left, f, module)
            if lt and lt[0] == "ext" and lt[1].endswith("Path"):
                return lt
        return None

    def static_callee(self, call: ast.Call, f: Optional[FuncInfo], module: Optional[Module] = None):
        """statically resolved callee: FuncInfo / ClassInfo / None"""
        module = module or (f.module if f else None)
        fn = call.func
        if isinstance(fn, ast.Name):
            ff = f
            while ff is not None:
                if fn.id in ff.nested:
                    return ff.nested[fn.id]
                ff = ff.parent
            t = self.var_type(fn.id, f)
            if t and t[0] == "type":
                return self.p.classes[t[1]]
            r = self.p.resolve_dotted(fn.id, module, f)
            if r in self.p.funcs:
                return self.p.funcs[r]
            if r in self.p.classes:
                return self.p.classes[r]
            return None
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" \
                    and f is not None and f.cls is not None:
                return self.p.find_after(f.cls, f.cls, fn.attr)
            d = dotted(fn)
            if d and self.var_type(d.split(".")[0], f) is None:
                r = self.p.resolve_dotted(d, module, f)
                if r in self.p.funcs:
                    return self.p.funcs[r]
                if r in self.p.classes:
                    return self.p.classes[r]
                if r:
                    cq, _, mn = r.rpartition(".")
                    if cq in self.p.classes:
                        return self.p.find_method(self.p.classes[cq], mn)
            bt = self.expr_type(fn.value, f, module)
            if bt and bt[0] in ("cls", "type"):
                return self.p.find_method(self.p.classes[bt[1]], fn.attr)
            return None
        return None


def elem_type(t):
    if t is None:
        return None
    if t[0] in ("list", "set", "iter"):
        return t[1]
    if t[0] == "dict":
        return t[1]
    return None


_program: Optional[Program] = None
_types: Optional[TypeInfo] = None


def program() -> Program:
    global _program, _types
    if _program is None:
        _program = Program()
        _types = TypeInfo(_program)
    return _program


def types() -> TypeInfo:
    program()
    return _types
