"""I03: atomicity of a wheel installation.  (1) every method of the copy transaction registers what it writes, and puts
replaced content aside, before it writes; (2) leaving the transaction with an error removes what was created, restores
what was replaced and lets the error through; (3) every write of the wheel installer that goes to the installation
target is made through the transaction, or to a path the transaction has prepared for it."""
from ..common import *
from . import txn

WHEEL = "pkm.api.distributions.wheel_distribution"


def target_terms(f):
    ti = types()
    out = []
    for prm in f.params:
        t = ti.from_ann(f.annotations.get(prm), f.module, f, f.cls)
        if t and t[0] == "cls" and t[1].endswith("PackageInstallationTarget"):
            out.append(("p", f.qual, prm))
    return out


def wheel_entries(ctx):
    """functions that unpack or receive a wheel and own an installation target"""
    p = program()
    wd = p.cls(WHEEL + ".WheelDistribution")
    ctx.need(wd and wd.methods.get("install_to"), "WheelDistribution.install_to")
    entries = [wd.methods["install_to"]]
    for f in p.funcs.values():
        if f.module.name == WHEEL and f.parent is None and f not in entries and target_terms(f) and \
                any(isinstance(n, ast.Call) and (dotted(n.func) or "").split(".")[-1] == txn.transaction_class().name
                    for n in ast.walk(f.node)):
            entries.append(f)
    return entries


def find_loaded_path(t):
    """the path a configuration object was loaded from"""
    if call_name(t) in ("load", "from_config") and t[3]:
        return t[3][0] if call_name(t) == "load" else t[3][-1]
    return None


def strip(t):
    """the path behind a conversion"""
    while call_name(t) in ("str", "Path", "fspath", "absolute") and (t[3] or t[2] is not None):
        t = t[3][0] if t[3] else t[2]
    return t


def as_paths(t):
    """path / "x" and DistInfo-like wrappers in a comparable form"""
    return strip(t)


class InstallRule(Rule):
    interesting = {"copy_tree", "copy", "copyfile", "write_text", "write_bytes", "move", "mkdir", "touch", "save",
                   "compile_file", "open", "CopyTransaction", "prepare", "unlink", "rmtree", "chmod", "copied_files",
                   "sign_files", "touch_all", "touch_tree", "generate_for_entrypoint", "generate", "symlink_to"}
    fact_names = {"is_script", "is_dir", "suffix", "name"}
    max_states = 12
    term_depth = 24

    def __init__(self, ctx, targets, summaries):
        self.ctx, self.targets, self.summaries = ctx, targets, summaries
        self.writes = self.tx_calls = 0
        self.checked = set()
        self.cls = txn.transaction_class()
        self.config_file = program().cls("pkm.config.configclass.ConfigFile")

    def is_config(self, f):
        return f is not None and f.cls is not None and self.config_file is not None and \
            program().is_subclass(f.cls.qual, self.config_file.qual)

    def opaque(self, f):
        return f.cls is self.cls and f.name != "__enter__" or \
            self.is_config(f) and f.name in ("load", "save", "from_config", "sign_files", "reload") or \
            in_modules(f, "pkm.api.environments", "pkm.utils.monitors", "pkm.api.versions", "pkm.api.dependencies", "pkm.utils.hashes",
                       "pkm.utils.archives", "pkm.config", "pkm.utils.processes") or f.name in ("_verify_records",)

    def can_raise(self, c):
        return False

    def under_target(self, t):
        # reading an attribute of the environment (its interpreter ...) for content does not make a path
        return any(mentions(t, x) for x in self.targets)

    # ps: (unused, prepared paths)
    def on_with(self, node, fr, term, st, eng):
        ty = eng.type_of(term, st)
        if ty and ty[0] == "cls" and ty[1] == self.cls.qual:
            return st, lambda kind, s: s.with_ps((0, frozenset())), term
        return None

    def on_call(self, c, st, eng):
        open_, prep = st.ps
        if c.func is not None and c.func.cls is self.cls:
            self.tx_calls += 1
            safe, tracked, _ = self.summaries.get(c.name, (set(), set(), 0))
            bound = self.bind(c)
            new = set()
            for prm in safe:
                if prm in bound:
                    new |= {strip(bound[prm])}
            for a in c.all_args():
                if a[0] == "clos" and a in eng.closures:
                    self.check_callback(a, c, st, eng)
            st2 = st.with_ps((open_, prep | frozenset(new))) if new else st
            term = self.returned(c.func, bound)
            if term is not None:
                return Take(normal=[(term, st2)])
            if c.func.is_property:
                return None
            return Take(normal=[(c.term(), st2)])
        w = None
        if c.func is not None and self.is_config(c.func) and c.name == "save":
            w = c.arg(0, "path") or (find_loaded_path(c.recv) if c.recv is not None else None)
        elif c.ext in ("compileall.compile_file", "py_compile.compile"):
            src = c.arg(0, "fullname") or c.arg(0, "file")
            if src is None or not self.below_transaction(src, st, eng):
                return None
            self.writes += 1
            ok = any(call_name(x) == "cache_from_source" and x[3] and strip(x[3][0]) == strip(src) for x in prep) or \
                ("cfile" in c.kwargs and strip(c.kwargs["cfile"]) in prep)
            if not ok:
                self.report(c, f"the byte code file of {show(src)}")
            return None
        elif c.func is None:
            w = written_path(c)
        if w is None or not self.under_target(w):
            return None
        self.writes += 1
        w = strip(w)
        if w in prep:
            return None
        if c.name in ("chmod", "mkdir", "touch") and self.parent_of_prepared(w, prep):
            return None    # the transaction created the directories of the prepared path
        self.report(c, show(w))
        return None

    def parent_of_prepared(self, w, prep):
        return any(x == ("a", y, "parent") or (y[0] == "op" and w in y[2:]) for y in prep for x in (w,))

    def below_transaction(self, src, st, eng):
        return self.under_target(src) or "copied_files" in attrs_in(src) or has_call(src, "copied_files") or \
            any(x[0] == "elem" for x in subterms(src))

    def join_ps(self, a, b):
        return (a[0], a[1] & b[1])

    def report(self, c, what):
        self.ctx.finding("write-outside-transaction", f"{c.fr.func.short}:{c.name}",
                         f"{c.name} writes {what} in the installation target although the copy transaction does not know "
                         "this path: a failure later on leaves it behind (or leaves the overwritten content lost)", c.where)

    def bind(self, c):
        prms = c.func.params[1:] if c.func.params and c.func.params[0] in ("self",) else c.func.params
        out = dict(zip(prms, c.args))
        out.update({k: v for k, v in c.kwargs.items()})
        return out

    _ret = {}

    def returned(self, f, bound):
        """the parameter a transaction method hands back"""
        if f.qual not in self._ret:
            names = set()
            for n in walk_own(f.node):
                if isinstance(n, ast.Return):
                    names.add(n.value.id if isinstance(n.value, ast.Name) and n.value.id in f.params else None)
            self._ret[f.qual] = names.pop() if len(names) == 1 else None
        r = self._ret[f.qual]
        return bound.get(r) if r else None

    def check_callback(self, clos, c, st, eng):
        """a copy function handed to the transaction may only write the (prepared) path it is given"""
        fi, lex = eng.closures[clos]
        if not fi.params or len(fi.params) < 2 or fi.qual in self.checked:
            return
        self.checked.add(fi.qual)
        sub = CallbackRule(self.ctx, fi)
        e = Engine(sub)
        e.run(fi, None)
        self.ctx.analysed(e)
        self.ctx.count("copy_callbacks")


class CallbackRule(Rule):
    interesting = {"open", "write_text", "write_bytes", "copy", "copyfile", "move", "chmod", "touch", "mkdir"}

    def __init__(self, ctx, fi):
        self.ctx, self.fi = ctx, fi
        self.dst = ("p", fi.qual, fi.params[-1] if len(fi.params) < 3 else fi.params[1])

    def on_call(self, c, st, eng):
        w = written_path(c) if c.func is None else None
        if w is not None and strip(w) != self.dst and not (
                w[0] == "call" and call_name(w) in ("mkdtemp", "temp_dir")):
            self.ctx.finding("write-outside-transaction", f"{self.fi.short}:{c.name}",
                             f"the copy function writes {show(w)}, not the path the transaction has prepared for it", c.where)
        return None


def check(ctx):
    ctx.rule("methods of the copy transaction: a write is preceded, on every path, by registering the written path, and "
             "by putting its content aside unless it is known to be absent or created by this transaction")
    own = []
    sums = txn.method_summaries(ctx, own_content=own)
    ctx.at_least("transaction_methods", 3)
    ctx.at_least("transaction_writes", 4)
    ctx.rule("roll back: on every way out of a failed transaction the created files are removed, then the created "
             "directories (deepest first), then the content put aside is moved back; the error is not swallowed; "
             "a successful transaction undoes nothing")
    txn.check_rollback(ctx, own)
    ctx.rule("wheel installer: every write below the installation target is a transaction method or goes to a path "
             "that a transaction method has prepared on every path to the write")
    for f in wheel_entries(ctx):
        slf = [("p", f.qual, f.params[0])] if f.params and f.params[0] == "self" else []
        r = InstallRule(ctx, target_terms(f), sums)
        eng = Engine(r)
        eng.run(f, (0, frozenset()))
        ctx.analysed(eng)
        ctx.count("entry_points")
        ctx.count("target_writes_checked", r.writes)
        ctx.count("transaction_calls", r.tx_calls)
    ctx.at_least("transaction_calls", 4)
    ctx.at_least("target_writes_checked", 2)
