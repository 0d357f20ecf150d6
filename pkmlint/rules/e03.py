"""E03: the exit status of every external program is looked at.

Every start of a program is split into a run that succeeds (status 0) and one that fails. On the failing side the enclosing
function must raise, or hand the status (or a constant that it never returns on success) to its caller, who is then judged
the same way."""
from ..common import *

CHECKED = {"subprocess.check_call", "subprocess.check_output"}
RUN = {"subprocess.run"}
STATUS = {"subprocess.call", "os.system", "os.spawnl", "os.spawnle", "os.spawnlp", "os.spawnlpe", "os.spawnv", "os.spawnve", "os.spawnvp",
          "os.spawnvpe", "os.waitstatus_to_exitcode"}
POPEN = {"subprocess.Popen"}
LOSES_STATUS = {"subprocess.getoutput", "os.popen", "os.startfile"}
TUPLE = {"subprocess.getstatusoutput"}
STARTERS = CHECKED | RUN | STATUS | POPEN | LOSES_STATUS | TUPLE
COMPLETED = "subprocess.CompletedProcess"
EXITS = {"sys.exit", "exit", "quit", "os._exit"}
RC = 8686
FAIL = const(RC)
KILLED = const(-RC)    # ended by a signal
ERROR = ("exc", "CalledProcessError", None)


class ProcRule(Rule):
    keep_all_facts = True
    max_states = 120

    def __init__(self, ctx, root, inline, prog):
        self.ctx, self.root, self.inline, self.prog = ctx, root, inline, prog
        self.sites, self.reported = set(), set()

    # ps: frozenset of (process term, captured: output is read by the program, contributed: since the failure something was
    #     collected or changed) for failed programs whose failure has not been settled, + ("known", term, rc) entries
    def opaque(self, f):
        return not self.force_inline(f)

    def force_inline(self, f):
        return f.qual in self.inline or f.parent is not None and self.force_inline(f.parent)

    def proc(self, c, kind):
        return ("call", ("x", "@" + kind), None, (const(c.loc),), ())

    def fork(self, c, st, kind, result=None, raises=False, captured=False):
        """the two outcomes of running a program"""
        self.sites.add(c.loc)
        t = self.proc(c, kind)
        ok, bad, sig = st.copy(), st.copy(), st.copy()
        ok.ps = frozenset(x for x in ok.ps if x[0] != t)
        bad.ps = frozenset(x for x in bad.ps if x[0] != t) | {(t, captured, False)}
        ok.heap[("fld", t, "returncode")] = const(0)
        sig.ps = bad.ps
        bad.heap[("fld", t, "returncode")] = FAIL
        sig.heap[("fld", t, "returncode")] = KILLED
        a, b, k = result or (t, t, t)
        rs = [(("exc", "OSError", None), st)]
        if raises:
            return Take(normal=[(a, ok)], raises=rs + [(ERROR, bad)])
        return Take(normal=[(a, ok), (b, bad), (k, sig)], raises=rs)

    def on_call(self, c, st, eng):
        if c.ext in STARTERS:
            cap = any(k in c.kwargs and c.kwargs[k] not in (NONE, FALSE, ("g", "subprocess.DEVNULL")) for k in ("capture_output", "stdout", "stderr"))
            if self.loader_banner(c):
                self.sites.add(c.loc)
                return None
            if c.ext in CHECKED:
                return self.fork(c, st, "out", raises=True, captured=c.ext.endswith("output"))
            if c.ext in RUN:
                chk = c.kwargs.get("check")
                return self.fork(c, st, "run", raises=chk is not None and (eng.lit_value(("truthy", chk), st) is True or chk == TRUE), captured=cap)
            if c.ext in STATUS:
                return self.fork(c, st, "status", result=(const(0), FAIL, KILLED))
            if c.ext in TUPLE:
                out = ("unk", ("output", c.loc))
                return self.fork(c, st, "pair", result=tuple(("tup", (x, out)) for x in (const(0), FAIL, KILLED)), captured=True)
            if c.ext in LOSES_STATUS:
                self.sites.add(c.loc)
                self.ctx.finding("status-lost", f"{c.fr.func.short}:{c.ext}", f"{c.fr.func.short} runs a program through {c.ext}, which does "
                                 "not tell whether it failed", c.where)
                return None
            # Popen: the outcome is fixed here, wait / poll tell it
            return self.fork(c, st, "popen")
        if c.recv is not None and ("fld", c.recv, "returncode") in st.heap:
            rc = st.heap[("fld", c.recv, "returncode")]
            if c.name == "check_returncode":
                if rc in (FAIL, KILLED):
                    return Take(raises=[(ERROR, st)])
                return Take(normal=[(NONE, st)], raises=[] if rc == const(0) else [(ERROR, st)])
            if c.name == "wait":
                return Take(normal=[(rc, st)], raises=[(("exc", "TimeoutExpired", None), st)])
            if c.name == "poll":
                return Take(normal=[(rc, st), (NONE, st)])
        if c.ext == COMPLETED:
            t = ("call", ("x", "@completed"), None, tuple(c.args[:2]), tuple(sorted(c.kwargs.items())))
            s = st.copy()
            s.heap[("fld", t, "returncode")] = c.arg(1, "returncode") or NONE
            return Take(normal=[(t, s)])
        if c.ext in EXITS:
            a = c.arg(0) or const(0)
            if a in (const(0), NONE):
                for x in st.ps:
                    self.bad(x, "exits the program with a success status", c.where, st)
            return Take(raises=[(("exc", "SystemExit", None), st)])
        if c.name in ("append", "add", "extend", "update", "insert") and c.recv is not None and c.func is None:
            return self.contribute(st, c, eng)
        return None

    def contribute(self, st, c=None, eng=None):
        if any(x[1] and not x[2] for x in st.ps):
            s = st.with_ps(frozenset((x[0], x[1], True) for x in st.ps))
            if c is None:
                return s
            st.ps = s.ps
        return None

    def loader_banner(self, c):
        """the system loader called without arguments prints its version and always fails"""
        a = c.arg(0, "args")
        n = c.node.args[0] if c.node.args else next((k.value for k in c.node.keywords if k.arg == "args"), None)
        return isinstance(n, ast.List) and len(n.elts) == 1 and not isinstance(n.elts[0], ast.Starred) and "stderr" in c.kwargs and \
            any(isinstance(x, ast.Attribute) and x.attr == "stderr" and isinstance(x.ctx, ast.Load) for x in ast.walk(c.fr.func.node))

    def on_add(self, cont, value, st, node, fr, eng):
        return self.contribute(st)

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        if kind == "attr" and value is not None and any(x[0] == value and x[0][1][1] == "@popen" for x in st.ps):
            # a long running helper kept by an object
            return st.with_ps(frozenset(x for x in st.ps if x[0] != value))
        if kind in ("sub", "attr", "global"):
            return self.contribute(st)
        return None

    def on_iter_end(self, iterable, el, st, node, fr, eng, filtered):
        return self.settle(st)

    def on_iter_break(self, iterable, el, st, node, fr, eng):
        return None

    def settle(self, st):
        """a probe of one of several candidates failed and this candidate left no trace"""
        keep = frozenset(x for x in st.ps if not (x[1] and not x[2]))
        return st.with_ps(keep) if keep != st.ps else None

    def bad(self, x, what, where, st):
        loc = x[0][3][0][2]
        self.ctx.finding("ignored-failure", f"{self.root}:{x[0][1][1][1:]}", f"{self.root} {what} although the program started at {loc} failed",
                         where, st.trace[-3:])

    def can_raise(self, c):
        return False


def exposes(v, t) -> bool:
    """v contains t itself (its output alone does not tell that the program failed)"""
    if v == t:
        return True
    if not isinstance(v, tuple) or v[:1] == ("a",) and v[1] == t and v[2] in ("stdout", "stderr", "args", "pid"):
        return False
    return any(exposes(x, t) for x in v if isinstance(x, tuple))


def starter_sites(f):
    return [n for n in walk_own(f.node) if isinstance(n, ast.Call) and resolve_name(f, n.func) in STARTERS]


def check(ctx):
    p = program()
    ctx.rule("every start of an external program is followed into its failing outcome: the function that runs it does not return "
             "normally then, unless it hands the status to its caller, who is judged the same way; a failed probe of one of several "
             "candidates may be skipped when it contributes nothing")
    makers = {}
    uses = set()
    for f in library_functions(p):
        s = starter_sites(f)
        if s:
            ctx.count("program_starts", len(s))
            makers[f.qual] = f
        if any(isinstance(n, ast.Attribute) and n.attr in ("returncode", "check_returncode") for n in walk_own(f.node)):
            uses.add(f.qual)
    leaky = set()
    todo = [(f, 0) for f in makers.values()]
    judged = {}
    followed = set()
    while todo:
        f, d = todo.pop(0)
        if f.qual in judged:
            continue
        helpers = {g.qual for g in p.funcs.values() if g.parent is None and g.module is f.module and (g.cls is None or g.cls is f.cls)
                   and not (g.qual in judged and not judged[g.qual] and g.qual in makers)}
        r = ProcRule(ctx, f.short, (leaky | uses | helpers) - {q for q, l in judged.items() if not l and q in makers}, p)
        eng = Engine(r)
        out = eng.run(f, frozenset())
        ctx.analysed(eng)
        ctx.count("functions_judged")
        followed |= r.sites
        good = [v for v, s in out.ret if not s.ps]
        leak = False
        for v, s in out.ret:
            ctx.count("exits_checked")
            for x in s.ps:
                told = exposes(v, x[0]) or mentions(v, FAIL) or mentions(v, KILLED) or \
                    v[0] == "c" and v not in good and (good or v != NONE)
                if told:
                    leak = True
                else:
                    r.bad(x, "returns normally", f.where, s)
        judged[f.qual] = leak
        if leak and d < 6:
            leaky.add(f.qual)
            # a property or function that nobody calls hands the status to the user of the library
            for g in sorted(direct_callers(p, f), key=lambda g: g.qual):
                if judged.get(g.qual) is None or g.qual not in makers:
                    judged.pop(g.qual, None) if not judged.get(g.qual) else None
                    todo.append((g, d + 1))
                else:
                    del judged[g.qual]
                    todo.append((g, d + 1))
        ctx.sample(f"{f.short}: {len(r.sites)} program starts followed, failure {'handed to callers' if leak else 'settled'}")
    ctx.count("starts_followed", len(followed))
    ctx.at_least("program_starts", 3)
    ctx.at_least("exits_checked", 3)


def direct_callers(p, target):
    ti = types()
    out = []
    for f in library_functions(p):
        if f is target:
            continue
        for n in walk_own(f.node):
            if isinstance(n, ast.Call):
                tg = ti.static_callee(n, f)
                if tg is target:
                    out.append(f)
                    break
                if tg is None and isinstance(n.func, ast.Name) and n.func.id == target.name and target.cls is None and \
                        visible(f, target):
                    out.append(f)
                    break
                if tg is None and isinstance(n.func, ast.Attribute) and n.func.attr == target.name and unique(p, target):
                    out.append(f)
                    break
    return out


def visible(f, target):
    if target.parent is not None:
        g = f
        while g is not None:
            if g is target.parent:
                return True
            g = g.parent
        return False
    return resolve_name(f, ast.Name(id=target.name, ctx=ast.Load())) == target.qual


def unique(p, target):
    return len([g for g in p.funcs.values() if g.name == target.name and g.parent is None]) == 1
