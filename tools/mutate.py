"""Mutation survey: mutate the given functions and list the mutants a check stays quiet on (development aid, no check uses it).
usage: mutate.py PROP file:func[,func] ... [-j N] [-o op,op] ; file relative to pkm/src/pkm, func 'Class.name' or 'name' or '*'"""
import ast, copy, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
from queue import Queue

REPO = Path("/repo")


def funcs(tree):
    def walk(node, pre):
        for n in getattr(node, "body", []):
            if isinstance(n, ast.ClassDef):
                yield from walk(n, pre + n.name + ".")
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield pre + n.name, n
    return list(walk(tree, ""))


def blocks(f):
    for n in ast.walk(f):
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, fld, b


def variants(f):
    """(description, mutated copy)"""
    n_nodes = len(list(ast.walk(f)))

    def mut(i, fn):
        g = copy.deepcopy(f)
        return g, fn(list(ast.walk(g))[i])
    for i, n in enumerate(ast.walk(f)):
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            g = copy.deepcopy(f); m = list(ast.walk(g))[i]
            m.test = ast.UnaryOp(ast.Not(), m.test)
            yield "negate", n, g
            if isinstance(n, ast.If):
                for v in (True, False):
                    g = copy.deepcopy(f); m = list(ast.walk(g))[i]
                    m.test = ast.Constant(v)
                    yield f"if-{v}", n, g
        if isinstance(n, ast.BoolOp):
            for k in range(len(n.values)):
                g = copy.deepcopy(f); m = list(ast.walk(g))[i]
                del m.values[k]
                if len(m.values) == 1:
                    m.values.append(m.values[0])
                yield f"drop-operand{k}", n, g
            g = copy.deepcopy(f); m = list(ast.walk(g))[i]
            m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
            yield "and-or", n, g
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn,
                  ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
            g = copy.deepcopy(f); m = list(ast.walk(g))[i]
            m.ops[0] = sw[type(m.ops[0])]()
            yield "cmp", n, g
        if isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                if n.keywords[k].arg:
                    g = copy.deepcopy(f); m = list(ast.walk(g))[i]
                    del m.keywords[k]
                    yield "drop-kw", n, g
            if len(n.args) >= 2:
                for k in range(len(n.args) - 1):
                    g = copy.deepcopy(f); m = list(ast.walk(g))[i]
                    m.args[k], m.args[k + 1] = m.args[k + 1], m.args[k]
                    yield "swap-args", n, g
                g = copy.deepcopy(f); m = list(ast.walk(g))[i]
                m.args.pop()
                yield "drop-arg", n, g
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for k, c in enumerate(n.generators):
                for x in range(len(c.ifs)):
                    g = copy.deepcopy(f); m = list(ast.walk(g))[i]
                    del m.generators[k].ifs[x]
                    yield "drop-filter", n, g
    for bi, (n, fld, b) in enumerate(list(blocks(f))):
        for k, s in enumerate(b):
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue

            def at():
                g = copy.deepcopy(f)
                return g, list(blocks(g))[bi][2]
            if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete, ast.Continue, ast.Break, ast.Return)) and not (
                    isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets)):
                g, bb = at(); bb[k] = ast.Pass()
                yield "delete", s, g
            if isinstance(s, (ast.With,)):
                g, bb = at(); bb[k:k + 1] = [ast.Expr(w.context_expr) if w.optional_vars is None else ast.Assign([w.optional_vars], ast.Call(ast.Attribute(
                    w.context_expr, "__enter__", ast.Load()), [], []), lineno=0) for w in bb[k].items] + bb[k].body
                yield "no-with", s, g
                g, bb = at(); bb[k:k + 1] = bb[k].body
                yield "no-with-at-all", s, g
            if isinstance(s, ast.Try):
                if s.finalbody:
                    g, bb = at(); t = bb[k]; fin = t.finalbody; t.finalbody = []
                    bb[k:k + 1] = ([t] if t.handlers else t.body) + fin
                    yield "no-finally", s, g
                for h in range(len(s.handlers)):
                    g, bb = at(); t = bb[k]; del t.handlers[h]
                    if not t.handlers and not t.finalbody:
                        bb[k:k + 1] = t.body
                    yield "no-handler", s, g
                    g, bb = at(); bb[k].handlers[h].body = [ast.Pass()]
                    yield "empty-handler", s, g
            if isinstance(s, (ast.For, ast.While)):
                g, bb = at(); bb[k].body.append(ast.Break())
                yield "break", s, g
                g, bb = at(); bb[k] = ast.Pass()
                yield "no-loop", s, g
            if k + 1 < len(b) and isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.With, ast.If, ast.For)) and not isinstance(b[k + 1], (ast.Return, ast.Raise)):
                g, bb = at(); bb[k], bb[k + 1] = bb[k + 1], bb[k]
                yield "swap", s, g


def main():
    args, jobs, only = [], 7, None
    it = iter(sys.argv[1:])
    for a in it:
        if a == "-j":
            jobs = int(next(it))
        elif a == "-o":
            only = next(it).split(",")
        else:
            args.append(a)
    prop, specs = args[0], args[1:]
    work = []
    for sp in specs:
        file, names = sp.split(":")
        path = REPO / "pkm/src/pkm" / file
        if not path.exists():
            path = REPO / file
        src = path.read_text()
        tree = ast.parse(src)
        lines = src.splitlines(keepends=True)
        fs = funcs(tree)
        for nm in names.split(","):
            hit = [(q, f) for q, f in fs if nm == "*" or q == nm or nm.endswith(".*") and q.startswith(nm[:-1])]
            if not hit:
                print("no such function", sp, nm)
            for q, f in hit:
                start = min([f.lineno] + [d.lineno for d in f.decorator_list]) - 1
                seen = {ast.unparse(f)}
                for op, node, g in variants(f):
                    if only and op not in only:
                        continue
                    try:
                        text = ast.unparse(ast.fix_missing_locations(g))
                    except Exception:
                        continue
                    if text in seen:
                        continue
                    seen.add(text)
                    pad = " " * f.col_offset
                    new = "".join(lines[:start]) + "".join(pad + l + "\n" if l else "\n" for l in text.splitlines()) + "".join(lines[f.end_lineno:])
                    try:
                        compile(new, file, "exec")
                    except SyntaxError:
                        continue
                    what = ast.unparse(node).splitlines()[0][:110]
                    work.append((path.relative_to(REPO), q, op, node.lineno, what, new))
    pool = Queue()
    for i in range(jobs):
        d = Path(f"/tmp/mt/{prop}_{i}")
        subprocess.run(["rsync", "-a", "--delete", "--exclude", ".git", "/repo/", str(d) + "/"], check=True)
        pool.put(d)

    def one(w):
        rel, q, op, line, what, new = w
        d = pool.get()
        try:
            p = d / rel
            old = p.read_text()
            p.write_text(new)
            try:
                r = subprocess.run(["/verif/check.sh", prop], env={**os.environ, "PKMLINT_REPO": str(d), "PKMLINT_NO_EVIDENCE": "1"}, capture_output=True, text=True,
                                   timeout=300)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
            p.write_text(old)
            return rc, w
        finally:
            pool.put(d)
    n = {0: 0, 1: 0}
    with ThreadPoolExecutor(jobs) as ex:
        for rc, w in ex.map(one, work):
            n[rc] = n.get(rc, 0) + 1
            if rc != 1:
                print(f"{'ERR ' if rc != 0 else ''}{w[0].name}:{w[3]} {w[1]} [{w[2]}] {w[4]}", flush=True)
    print(prop, n)
    for i in range(jobs):
        shutil.rmtree(f"/tmp/mt/{prop}_{i}", ignore_errors=True)


main()
