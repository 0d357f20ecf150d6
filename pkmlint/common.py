"""shared vocabulary of the rules"""
from __future__ import annotations

import ast
from typing import List, Set, Optional, Iterable

from .flow import (Rule, Engine, State, Call, Take, Frame, Out, NONE, TRUE, FALSE, DEAD, const, mentions, subterms, show, depth)
from .model import (program, types, FuncInfo, ClassInfo, Program, AnalysisError, walk_own, dotted, elem_type, decorator_name)

# file system writes: attribute name -> which operand is written (recv / index of the argument)
PATH_WRITES = {
    "write_text": "recv", "write_bytes": "recv", "mkdir": "recv", "touch": "recv", "unlink": "recv", "rmdir": "recv",
    "symlink_to": "recv", "hardlink_to": "recv", "rename": "recv", "replace": "recv", "chmod": "recv",
}
EXT_WRITES = {
    "shutil.copy": 1, "shutil.copy2": 1, "shutil.copyfile": 1, "shutil.copytree": 1, "shutil.move": 1,
    "shutil.rmtree": 0, "os.remove": 0, "os.unlink": 0, "os.rename": 1, "os.replace": 1, "os.mkdir": 0,
    "os.makedirs": 0, "os.symlink": 1, "os.rmdir": 0, "os.chmod": 0, "shutil.copyfileobj": 1,
}
DESTROY_EXT = {"shutil.rmtree": 0, "os.remove": 0, "os.unlink": 0, "os.rmdir": 0, "os.removedirs": 0}


def written_path(c: Call):
    """the path term a call writes to (or None)"""
    if c.ext in EXT_WRITES:
        i = EXT_WRITES[c.ext]
        return c.arg(i, ["src", "dst"][min(i, 1)]) or (c.args[-1] if c.args else None)
    if c.ext in ("open", "io.open"):
        m = c.arg(1, "mode")
        if m is not None and m[0] == "c" and isinstance(m[2], str) and set(m[2]) & set("wax+"):
            return c.arg(0, "file")
        return None
    if c.func is None and c.recv is not None:
        if c.name in PATH_WRITES:
            return c.recv
        if c.name == "open":
            m = c.arg(0, "mode")
            if m is not None and m[0] == "c" and isinstance(m[2], str) and set(m[2]) & set("wax+"):
                return c.recv
        if c.name in ("extractall", "extract"):
            return c.args[-1] if c.args else c.kwargs.get("path", c.recv)
    return None


def facts_true(st: State):
    return [l for l, (p, _) in st.facts.items() if p]


def has_call(t, name) -> bool:
    return any(x[0] == "call" and isinstance(x[1][1], str) and x[1][1].split(".")[-1] == name for x in subterms(t))


def calls_in(t, name) -> list:
    return [x for x in subterms(t) if x[0] == "call" and isinstance(x[1][1], str) and x[1][1].split(".")[-1] == name]


def call_name(t) -> Optional[str]:
    if t[0] == "call" and isinstance(t[1][1], str):
        return t[1][1].split(".")[-1]
    return None


def attrs_in(t) -> Set[str]:
    return {x[2] for x in subterms(t) if x[0] == "a"}


def consts_in(t) -> list:
    return [x[2] for x in subterms(t) if x[0] == "c"]


def callers_of(prog: Program, target: FuncInfo) -> List[FuncInfo]:
    ti = types()
    out = []
    for f in prog.funcs.values():
        for n in walk_own(f.node):
            if isinstance(n, ast.Call):
                tg = ti.static_callee(n, f)
                if tg is target or isinstance(n.func, ast.Attribute) and n.func.attr == target.name and tg is None or \
                        isinstance(n.func, ast.Name) and n.func.id == target.name and tg is None:
                    r = f
                    while r.parent is not None:
                        r = r.parent
                    if r not in out:
                        out.append(r)
    return out


def in_modules(f: FuncInfo, *prefixes: str) -> bool:
    return any(f.module.name == p or f.module.name.startswith(p + ".") for p in prefixes)


def reaching(p, targets: Set[str]) -> Set[str]:
    """the targets and every function that may call one of them (resolved statically)"""
    ti = types()
    calls = {}
    for f in p.funcs.values():
        out = set(n.qual for n in f.nested.values())
        for n in walk_own(f.node):
            if isinstance(n, ast.Call):
                tg = ti.static_callee(n, f)
                if isinstance(tg, FuncInfo):
                    out.add(tg.qual)
                elif isinstance(tg, ClassInfo):
                    i = p.find_method(tg, "__init__")
                    if i is not None:
                        out.add(i.qual)
        calls[f.qual] = out
    res = set(targets)
    while True:
        new = {q for q, o in calls.items() if q not in res and o & res}
        if not new:
            return res
        res |= new


def resolve_name(f: FuncInfo, node) -> Optional[str]:
    """the global a name / dotted expression in f stands for"""
    d = dotted(node)
    if d is None:
        return None
    return program().resolve_dotted(d, f.module, f) or d


def library_functions(prog: Program) -> List[FuncInfo]:
    """functions of the library and its command line tool (no test scripts, no templates)"""
    return [f for f in prog.funcs.values() if f.module.name.split(".")[0] in LIBRARY]


LIBRARY = ("pkm", "pkm_cli", "conda_pkm_repo", "download_torch_pkm_repo")


def outermost(f: FuncInfo) -> FuncInfo:
    while f.parent is not None:
        f = f.parent
    return f


LOCKS = ("Lock", "RLock", "Condition", "Semaphore", "BoundedSemaphore")


def lock_attrs(cls: ClassInfo) -> Set[str]:
    """attributes of cls (and its bases) that are assigned a lock"""
    out = set()
    for c in program().mro(cls):
        for m in c.methods.values():
            for n in walk_own(m.node):
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                    made = any(isinstance(x, ast.Call) and (dotted(x.func) or "").split(".")[-1] in LOCKS for x in ast.walk(n.value))
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        if made and isinstance(t, ast.Attribute):
                            out.add(t.attr)
        for k, v in c.class_attrs.items():
            if isinstance(v, ast.AST) and any(isinstance(x, ast.Call) and (dotted(x.func) or "").split(".")[-1] in LOCKS for x in ast.walk(v)):
                out.add(k)
    return out
