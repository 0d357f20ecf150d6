"""I08: pruning the store of shared packages.  (1) The packages an environment links to: every site of every environment the
pruning was given (its package containers' sites included) is visited to the end, every installed package of it either has
no mark or its mark is put in the collection of used packages.  (2) Every deletion in the store is made under the fact that
the path is not in that collection, after the visit ended, and both sides of that comparison are brought to the same form.
(3) The pruning is given all environments of the zoo.  (4) Linking a stored package leaves the mark that (1) looks for, and
records for uninstall nothing that lies in the store."""
from ..common import *

STORE = "pkm.repositories.shared_pacakges_repo.SharedPackagesRepository"
ZOO = "pkm.api.environments.environments_zoo.EnvironmentsZoo"
PACKAGE, SITE, TARGET, ENV, CONTAINER = "InstalledPackage", "SitePackages", "PackageInstallationTarget", "Environment", "PackageContainer"
NEUTRAL = {"str", "Path", "fspath", "as_posix", "strip", "expanduser", "PurePath", "rstrip", "normcase"}
SHAPING = {"absolute", "resolve", "realpath", "abspath"}


def peel(t):
    """(what a path term is made from, how it was brought into shape)"""
    shape = set()
    while t[0] == "call":
        n = call_name(t)
        if n in NEUTRAL or n in SHAPING:
            if n in SHAPING:
                shape.add(n)
            nxt = t[2] if t[2] is not None and not (t[1][0] == "x" and t[3]) else (t[3][0] if t[3] else None)
            if nxt is None:
                break
            t = nxt
        else:
            break
    return t, normal(shape)


def normal(shape):
    if shape & {"resolve", "realpath"}:
        return "resolved"
    return "absolute" if shape else "plain"


def compose(a, b):
    order = ["plain", "absolute", "resolved"]
    return order[max(order.index(a), order.index(b))]


class Prune(Rule):
    max_states = 80
    term_depth = 22
    keep_all_facts = True

    def __init__(self, ctx, entry, users, written):
        self.ctx, self.entry, self.users, self.written = ctx, entry, users, written
        self.marks, self.deletions, self.forms, self.pending = set(), 0, {}, []
        self.handed, self.iterated, self.into = {}, set(), set()

    # ps: (the elements being visited with what was done with each of them so far, innermost last; all environments visited?)
    def start(self):
        return ((), False)

    def opaque(self, f):
        return f.cls is not None and f.cls.name in (SITE, "DistInfo", ENV, "PackageContainers", CONTAINER, PACKAGE, TARGET)

    def force_inline(self, f):
        return f.module is self.entry.module

    def can_raise(self, c):
        return False

    def kind(self, el, st, eng):
        t = eng.type_of(el, st)
        return t[1].split(".")[-1] if t and t[0] == "cls" else None

    def where(self, node, fr):
        return f"{fr.func.module.rel}:{getattr(node, 'lineno', 0)}"

    def tracked(self, el):
        return el is not None and mentions(el, self.users) and el != self.users

    def touch(self, st, *terms):
        stack, seen = st.ps
        new = tuple((el, done | frozenset(t for t in terms if t != el and mentions(t, el) or t == ("mark", el)), k) for el, done, k in stack)
        return st.with_ps((new, seen))

    def on_iter(self, it, el, st, node, fr, eng):
        self.iterated |= {it, el}
        if not self.tracked(el):
            return None
        k = self.kind(el, st, eng)
        if k == PACKAGE:
            self.ctx.count("packages_followed")
            src = it
            while src[0] == "call" and src[1][0] == "x" and src[3]:
                src = src[3][0]
            if src[0] == "call" and call_name(src) not in ("installed_packages", "values", "filter", "map"):
                self.ctx.finding("partial-listing", self.entry.short, f"{self.entry.short} follows the links of {show(src)} only, which need not be "
                                 "all installed packages", self.where(node, fr), st.trace[-3:])
        return st.with_ps((st.ps[0] + ((el, frozenset(), k),), st.ps[1]))

    def is_mark(self, v):
        """a path read from a file of an installed package"""
        return v is not None and any(call_name(x) in ("read_text", "read_bytes", "read", "readline") for x in subterms(v)) and self.tracked(v)

    def on_add(self, cont, value, st, node, fr, eng):
        if self.is_mark(value):
            for x in subterms(value):
                if x[0] == "call" and call_name(x) in ("read_text", "read_bytes") and x[2] is not None:
                    self.marks |= last_part(x[2], self.entry)
            self.forms.setdefault(cont, set()).add(peel(value)[1])
        elif self.tracked(value):
            self.handed.setdefault(value, set()).add(cont)
        else:
            return None
        return self.touch(st, value)

    def unmarked(self, el, st):
        for l, (pol, _) in st.facts.items():
            if l[0] == "truthy" and not pol and call_name(l[1]) in ("exists", "is_file") and mentions(l[1], el):
                return True
            if l[0] == "isnone" and pol and self.is_mark(l[1]) and mentions(l[1], el):
                return True
        return False

    def on_iter_end(self, it, el, st, node, fr, eng, filtered):
        if not self.tracked(el):
            return None
        stack, seen = st.ps
        i = max((i for i, x in enumerate(stack) if x[0] == el), default=None)
        if i is None:
            return None
        done, k, f = stack[i][1], stack[i][2], self.entry.short
        stack = stack[:i]
        if k == ENV:
            if not any(not has_call(d, "containers") for d in done):
                self.ctx.finding("environment-overlooked", f, f"{f} does not visit every package of an environment", self.where(node, fr), st.trace[-3:])
            if not any(has_call(d, "containers") for d in done):
                self.ctx.finding("containers-overlooked", f, f"{f} does not visit the package containers of an environment, whose packages may "
                                 "link to the store as well", self.where(node, fr), st.trace[-3:])
        elif not done and not self.unmarked(el, st):
            what = {PACKAGE: "an installed package without noting which stored package it links to", CONTAINER: "the packages inside a package container",
                    SITE: "a site", TARGET: "a site"}.get(k, f"{show(el)}")
            self.ctx.finding("link-overlooked", f, f"{f} can pass over {what}", self.where(node, fr), st.trace[-3:])
        return st.with_ps((stack, seen))

    def on_iter_break(self, it, el, st, node, fr, eng):
        if self.tracked(el):
            self.ctx.finding("visit-cut-short", self.entry.short, f"{self.entry.short} stops before every link was seen", self.where(node, fr), st.trace[-3:])
        return None

    def on_loop_done(self, it, st, node, fr, eng):
        self.iterated.add(it)
        all_ = it == self.users or it[0] == "call" and it[1][0] == "x" and self.users in it[3] or \
            isinstance(st.heap.get(it), frozenset) and ("elem", self.users) in {e for e, _ in st.heap[it]}
        if all_:
            return st.with_ps((st.ps[0], True))
        return self.touch(st, it)

    def on_call(self, c, st, eng):
        if c.ext in DESTROY_EXT and c.ext not in ("os.rmdir", "os.removedirs") or c.func is None and c.name == "unlink" and c.recv is not None:
            x = c.recv if c.name == "unlink" and c.recv is not None and c.ext is None else c.all_args()[0]
            self.deletions += 1
            f = self.entry.short
            if not st.ps[1]:
                self.ctx.finding("deleted-early", f, f"{f} deletes a stored package before all environments were visited", c.where, st.trace[-3:])
            base = peel(x)[0]
            found = frozenset((l[2], peel(l[1])[1]) for l, (pol, _) in st.facts.items() if l[0] == "in" and not pol and peel(l[1])[0] == base)
            self.pending.append((found, c.name, x, c.where, tuple(st.trace[-3:])))
        return None

    def finish(self):
        """which collections hold the marks, and which were visited, is known now"""
        for v, conts in self.handed.items():
            if v not in self.iterated and not conts & self.iterated:
                self.ctx.finding("collected-not-visited", self.entry.short, f"{self.entry.short} collects {show(v)} without visiting the packages there",
                                 self.entry.where)
        for found, name, x, where, trace in self.pending:
            found = [(c, f) for c, f in found if c in self.forms]
            if not found:
                self.ctx.finding("used-package-deleted", self.entry.short, f"{name}({show(x)}) deletes something in the store without having found "
                                 "that no environment links to it", where, trace)
            for c, f in found:
                for m in {compose(self.written, m) for m in self.forms[c]}:
                    if m != f or m != "resolved":
                        self.ctx.finding("other-form", self.entry.short, f"the links are compared with stored packages in different forms or in a form that "
                                         f"is not unique ({m} and {f} paths): a used package can seem unused when the zoo is reached through another path",
                                         where, trace)


def last_part(t, f):
    """the names a path may end in"""
    t = peel(t)[0]
    if t[0] == "phi":
        return {n for x in t[1] for n in last_part(x, f)}
    if t[0] == "op" and t[1] == "/":
        t = t[3]
    elif t[0] == "call" and call_name(t) in ("joinpath", "join", "with_name") and t[3]:
        t = t[3][-1]
    if t[0] == "g":
        mod, _, name = t[1].rpartition(".")
        m = program().modules.get(mod)
        v = m.globals.get(name) if m is not None else None
        if isinstance(v, ast.Constant):
            t = ("c", "str", v.value)
    return {t[2].split("/")[-1]} if t[0] == "c" and isinstance(t[2], str) else set()


def has_attr(t, name):
    return any(x[0] == "a" and x[2] == name for x in subterms(t))


class Listed(Rule):
    """every path is yielded unless it is no environment"""
    keep_all_facts = True
    max_states = 40

    def __init__(self, ctx, f):
        self.ctx, self.f, self.seen = ctx, f, 0

    def can_raise(self, c):
        return False

    def opaque(self, f):
        return f.cls is not None and f.cls.name == ENV

    def listing(self, it):
        return call_name(it) in ("iterdir", "glob", "scandir", "listdir")

    def on_iter(self, it, el, st, node, fr, eng):
        if self.listing(it):
            self.seen += 1
            return st.with_ps(False)

    def on_suspend(self, value, st, eng):
        return st.with_ps(True)

    def on_add(self, cont, value, st, node, fr, eng):
        return st.with_ps(True)

    def on_iter_end(self, it, el, st, node, fr, eng, filtered):
        if self.listing(it):
            no_env = any(l[0] == "truthy" and not pol and call_name(l[1]) == "is_venv_path" and mentions(l[1], el)
                         for l, (pol, _) in st.facts.items())
            if st.ps is not True and not no_env:
                self.ctx.finding("environment-unlisted", self.f.short, f"{self.f.short} leaves out an environment of the zoo, whose links the pruning of "
                                 "the store then does not see", self.f.where, st.trace[-3:])

    def on_iter_break(self, it, el, st, node, fr, eng):
        if self.listing(it):
            self.ctx.finding("environment-unlisted", self.f.short, f"{self.f.short} stops before the last environment of the zoo", self.f.where)


class Given(Rule):
    """what the pruning is called with"""
    keep_all_facts = True

    def __init__(self, ctx, prune, listed):
        self.ctx, self.prune, self.listed, self.calls = ctx, prune, listed, 0

    def opaque(self, f):
        return f is self.prune or f is self.listed

    def can_raise(self, c):
        return False

    def on_loop_done(self, it, st, node, fr, eng):
        return st.with_ps(True) if call_name(it) == self.listed.name else None

    def on_call(self, c, st, eng):
        if c.func is self.prune or c.func is None and c.name == self.prune.name:
            self.calls += 1
            a = c.arg(0, self.prune.params[1])
            while a is not None and a[0] == "call" and a[1][0] == "x" and a[3] and call_name(a) in ("list", "tuple", "iter", "sorted"):
                a = a[3][0]
            r = st.heap.get(a) if a is not None else None
            if isinstance(r, frozenset):
                if not r and st.ps:
                    return None     # there was nothing to list
                if len(r) == 1:
                    e, facts = list(r)[0]
                    if e[0] == "elem" and (st.ps or not isinstance((c.node.args or [None])[0], (ast.List, ast.Tuple, ast.Set))) and not any(mentions(l, e) for l, _ in facts):
                        a = e[1]
            if a is None or call_name(a) != self.listed.name or self.listed.cls.name not in str(a[1]) and self.listed.qual not in str(a[1]):
                self.ctx.finding("not-all-environments", f"{c.fr.func.short}", f"{c.fr.func.short} prunes the store by the links of {show(a) if a else 'nothing'}, "
                                 "which need not be all environments of the zoo", c.where, st.trace[-3:])


class Link(Rule):
    """linking a stored package leaves the mark"""
    keep_all_facts = True
    max_states = 60

    def __init__(self, ctx, f, stored):
        self.ctx, self.f, self.stored = ctx, f, stored
        self.forms, self.names, self.records = {}, set(), 0

    def start(self):
        return frozenset()

    def opaque(self, f):
        return f.cls is not None and f.cls.name in ("Executables", "DistInfo", "PthLink", "CopyTransaction", "RecordsFileConfiguration", "EntryPointsConfiguration") \
            or f.module.name.startswith("pkm.config")

    def can_raise(self, c):
        return False

    def on_call(self, c, st, eng):
        if c.func is None and c.name in ("write_text", "write_bytes") and c.recv is not None or c.name == "write" and c.func is None and c.recv is not None:
            v = c.arg(0, "data")
            base, form = peel(v) if v is not None else (None, None)
            if base is not None and base[0] == "a" and base[1] == self.stored:
                self.forms[form] = c.where
                return Take(normal=[(c.term(), st.with_ps(st.ps | {(n, base[2]) for n in last_part(c.recv, self.f)}))])
        if c.name in ("touch", "touch_tree", "copy_tree", "copy", "mkdir") and c.func is not None and c.func.cls is not None and c.func.cls.name == "CopyTransaction":
            x = c.arg(1, "dst") if c.name in ("copy_tree", "copy") else (c.all_args() or [None])[0]
            self.records += 1
            if x is not None and self.in_store(x):
                self.ctx.finding("store-recorded", self.f.short, f"{self.f.short} records {show(x)}, which lies in the store, as a file of the "
                                 "environment: uninstalling there would delete it for everybody", c.where, st.trace[-3:])
        return None

    def in_store(self, x):
        x = peel(x)[0]
        while True:
            if x == self.stored or x == ("a", self.stored, "path"):
                return True
            if x[0] == "op" and x[1] == "/":
                x = x[2]
            elif x[0] == "elem" and call_name(x[1]) in ("iterdir", "glob", "rglob") and x[1][2] is not None:
                x = x[1][2]
            elif x[0] == "a":
                x = x[1]
            else:
                return False


def check(ctx):
    p = program()
    ctx.rule("a stored package is deleted only when it is found in no link of any environment, all of which were visited to the end")
    ctx.rule("linking a stored package leaves the mark that the pruning reads, and records nothing of the store for uninstall")
    cls = p.cls(STORE)
    ctx.need(cls, STORE)
    prune = [m for m in cls.methods.values() if reaching_rmtree(m)]
    prune = [m for m in prune if len(m.params) > 1 and not any(
        isinstance(n, ast.Attribute) and n.attr == m.name for o in prune if o is not m for n in ast.walk(o.node))]
    ctx.need(len(prune) == 1 or ctx.findings, "the method that prunes the store")
    prune = prune[0]
    # (4) linking
    links = [f for f in p.funcs.values() if f.module is cls.module and f.parent is None and any(
        isinstance(n, ast.Call) and dotted(n.func) == "PthLink" for n in walk_own(f.node))]
    ctx.need(links, "the function that links a stored package")
    written, names = "plain", set()
    for f in links:
        stored = [q for q in f.params if any(isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == q and n.attr == "path"
                                             for n in walk_own(f.node))]
        ctx.need(stored, f"{f.short}: the stored package it links")
        r = Link(ctx, f, ("p", f.qual, stored[0]))
        eng = Engine(r)
        out = eng.run(f, r.start())
        ctx.analysed(eng)
        for t, st in out.ret:
            ctx.count("ways_to_link")
            if not any(n and a == "path" for n, a in st.ps):
                ctx.finding("link-unmarked", f.short, f"{f.short} can end without having marked the package as linked to the store: pruning then takes "
                            "the stored package for unused", f.where, st.trace[-3:])
            names |= {n for n, a in st.ps if a == "path"}
        ctx.count("recorded_paths", r.records)
        ctx.need(r.forms or ctx.findings, "the mark of a link")
        written = min(r.forms or ["plain"], key=["plain", "absolute", "resolved"].index)
        if written == "plain":
            ctx.finding("relative-mark", f.short, f"{f.short} marks the link with a path that may be relative", f.where)
    # (1), (2) pruning
    r = Prune(ctx, prune, ("p", prune.qual, prune.params[1]), written)
    eng = Engine(r)
    eng.run(prune, r.start())
    r.finish()
    ctx.analysed(eng)
    ctx.need(r.deletions or ctx.findings, "a deletion in the store")
    if r.marks and names and not names & r.marks:
        ctx.finding("other-mark", prune.short, f"{prune.short} looks for a mark ({', '.join(sorted(r.marks))}) that linking does not leave "
                    f"({', '.join(sorted(names))})", prune.where)
    ctx.count("deletions_checked", r.deletions)
    # (3) what it is given
    zoo = p.cls(ZOO)
    ctx.need(zoo, ZOO)
    listed = zoo.methods.get("list")
    ctx.need(listed, "the listing of a zoo's environments")
    lr = Listed(ctx, listed)
    eng = Engine(lr)
    eng.run(listed, False)
    ctx.analysed(eng)
    ctx.need(lr.seen or ctx.findings, "the visit of the zoo's directory")
    total = 0
    for f in p.funcs.values():
        if f.parent is None and any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == prune.name for n in ast.walk(f.node)):
            g = Given(ctx, prune, listed)
            eng = Engine(g)
            eng.run(f, False)
            ctx.analysed(eng)
            total += g.calls
    ctx.need(total or ctx.findings, "a call that prunes the store")
    ctx.count("pruning_calls", total)
    ctx.sample(f"{prune.short} deletes under 'not linked'; marks {sorted(r.marks)} = {sorted(names)}, form {written}")


def reaching_rmtree(m):
    p, seen, todo = program(), set(), [m]
    while todo:
        f = todo.pop()
        if f.qual in seen:
            continue
        seen.add(f.qual)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                if dotted(n.func) in ("shutil.rmtree", "rmtree"):
                    return True
                t = types().static_callee(n, f)
                if isinstance(t, FuncInfo) and t.module is m.module:
                    todo.append(t)
    return False
