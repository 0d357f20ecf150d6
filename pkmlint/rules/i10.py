"""I10: every file of a wheel arrives where its scheme says.  The installer is followed with the extracted wheel as a symbolic
directory: every entry of its root, of the .data directory and every script entry point must reach a copy whose destination is
computed from the directory that the wheel's metadata, or the name of the scheme, selects.  `CopyTransaction.copy_tree` and
`copy` are followed on their own with an arbitrary directory: every entry reaches the same place below the target, entries that
are directories with everything below them."""
import ast

from ..common import *
from .b02 import Flow, falsy

CT = "pkm.utils.files.CopyTransaction"
WHEEL = "pkm.api.distributions.wheel_distribution.WheelDistribution"
LISTING = ("iterdir", "listdir", "scandir", "glob", "rglob")
SCHEMES = ("purelib", "platlib", "headers", "scripts", "data")
JOIN = ("Path", "PurePath", "join", "joinpath")


def strip(t):
    """the path without conversions around it"""
    while call_name(t) in ("Path", "PurePath", "str", "fspath", "resolve", "absolute") and len(t[3]) + (t[2] is not None and t[2][0] != "g") == 1:
        t = t[3][0] if t[3] else t[2]
    return t


def split(t):
    """directory / last component of a path"""
    t = strip(t)
    if t[0] == "op" and t[1] == "/":
        return strip(t[2]), t[3]
    if call_name(t) in JOIN and len(t[3]) >= 1:
        args = ([t[2]] if t[2] is not None and t[2][0] != "g" else []) + list(t[3])
        if len(args) == 2:
            return strip(args[0]), args[1]
    return None, None


def name_of(t, el):
    return t == ("a", el, "name") or call_name(t) in ("basename", "relative_to", "path_to") and mentions(t, el)


def listed(el):
    """the directory that el was listed from"""
    if el[0] == "elem":
        t = el[1]
        while call_name(t) in ("list", "sorted", "tuple", "set", "iter") and t[3]:
            t = t[3][0]
        if call_name(t) in LISTING and not (call_name(t) in ("glob", "rglob") and t[3] and t[3][-1] != const("*")):
            return strip(t[2] if t[2] is not None and t[2][0] != "g" else t[3][0])
    return None


class Visits(Flow):
    """an entry that is put aside in a list counts as dealt with where the list is gone through"""

    def __init__(self, ctx, f):
        super().__init__(ctx, f)
        self.aside, self.iterated = {}, set()

    def on_iter(self, it, el, st, node, fr, eng):
        self.iterated |= {x for x in subterms(it) if x[0] == "cont"}
        return super().on_iter(it, el, st, node, fr, eng)

    def on_add(self, cont, value, st, node, fr, eng):
        ps = tuple((e, ok or (("list", cont) if value == e else ok)) for e, ok in st.ps)
        return st.with_ps(ps) if ps != st.ps else None

    def on_iter_end(self, it, el, st, node, fr, eng, filtered):
        if st.ps and st.ps[-1][0] == el and isinstance(st.ps[-1][1], tuple) and self.relevant(it, el, st):
            self.aside.setdefault(st.ps[-1][1][1], (self.place(node, fr), el, tuple(st.trace[-3:])))
        return super().on_iter_end(it, el, st, node, fr, eng, filtered)

    def report(self, kind, what):
        for cont, (where, el, trace) in self.aside.items():
            if cont not in self.iterated:
                self.skips.setdefault(where, (el, trace))
        super().report(kind, what)


class Tree(Visits):
    """copy_tree: every entry of the source that is accepted is copied to its place"""

    def __init__(self, ctx, f):
        super().__init__(ctx, f)
        self.src, self.dst = (("p", f.qual, n) for n in f.params[1:3])
        self.accept, self.copier = (("p", f.qual, n) if n in f.params + f.kwonly else None for n in ("accept", "file_copy"))
        self.slf = ("p", f.qual, f.params[0])
        self.copies = 0

    def opaque(self, f):
        return f.name in ("copy_tree", "copy", "prepare", "mkdir", "rm")

    def mark(self, st, *values):
        return st

    def on_loop_done(self, it, st, node, fr, eng):
        return None

    def arrived(self, st, el):
        ps = tuple((e, True if e == el else ok) for e, ok in st.ps)
        return st.with_ps(ps)

    def relevant(self, it, el, st):
        return listed(el) == self.src

    def exempt(self, it, el, st):
        for l, (pol, _) in st.facts.items():
            if l[0] == "truthy" and not pol and l[1][0] == "call" and l[1][1] == ("t", self.accept) and el in l[1][3]:
                return True
            if l[0] == "truthy" and not pol and l[1][0] == "call" and mentions(l[1], self.accept) and mentions(l[1], el):
                return True
        return False

    def on_call(self, c, st, eng):
        el = src = dst = None
        if c.name == "copy_tree":
            src, dst = c.arg(0, "source"), c.arg(1, "target")
            for par, i, n in ((self.accept, 2, "accept"), (self.copier, 3, "file_copy")):
                v = c.arg(i, n)
                if par is not None and v != par and not (v is None and n == "file_copy" and falsy(par, st)):
                    self.ctx.finding("not-passed-on", f"{self.f.short}:{n}", f"{self.f.short} does not pass {n} on to the directories below", c.where, st.trace[-3:])
        elif c.name == "copy" and c.recv == self.slf:
            src, dst = c.arg(0, "source"), c.arg(1, "target")
            if self.copier is not None and not falsy(self.copier, st):
                self.ctx.finding("not-passed-on", f"{self.f.short}:used", f"{self.f.short} copies files without the given copy function", c.where, st.trace[-3:])
        elif c.fterm is not None and c.fterm == self.copier and len(c.args) == 2:
            src, dst = c.args
            if call_name(dst) != "prepare":
                self.ctx.finding("unprepared", self.f.short, f"{self.f.short} lets a file be written that the transaction does not know of", c.where, st.trace[-3:])
            else:
                dst = dst[3][0] if dst[3] else dst
        if src is None or dst is None:
            return None
        src = strip(src)
        if src[0] not in ("elem", "other") or listed(src) != self.src:
            return None
        self.copies += 1
        self.ctx.count("tree_copies")
        d, n = split(dst)
        if d == self.dst and n is not None and name_of(n, src):
            return Take(normal=[(c.term(), self.arrived(st, src))])
        self.ctx.finding("misplaced", self.f.short, f"{self.f.short} does not copy an entry to the same place below the target", c.where, st.trace[-3:])
        return Take(normal=[(c.term(), self.arrived(st, src))])


class Copy(Rule):
    """copy: the source arrives at the target"""
    keep_all_facts = True
    max_states = 100

    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f
        self.src, self.dst = (("p", f.qual, n) for n in f.params[1:3])

    def can_raise(self, c):
        return False

    def on_call(self, c, st, eng):
        if c.ext in ("shutil.copy", "shutil.copy2", "shutil.copyfile"):
            if strip(c.arg(0, "src")) == self.src and strip(c.arg(1, "dst")) == self.dst:
                return Take(normal=[(c.term(), st.with_ps(True))])
        if c.func is None and c.name in ("write_bytes", "write") and any(mentions(a, self.src) for a in c.args) and c.recv is not None and mentions(c.recv, self.dst):
            return Take(normal=[(c.term(), st.with_ps(True))])
        if c.ext == "shutil.copyfileobj" and mentions(c.args[0], self.src) and mentions(c.args[1], self.dst):
            return Take(normal=[(c.term(), st.with_ps(True))])

    def judge(self, out):
        for t, st in out.ret:
            self.ctx.count("copies")
            if not st.ps:
                self.ctx.finding("not-copied", self.f.short, f"{self.f.short} can return without having copied the source to the target", self.f.where, st.trace[-3:])


class Install(Visits):
    """the installer: every part of the wheel is copied, to the directory of its scheme"""
    max_states = 200

    def __init__(self, ctx, f):
        super().__init__(ctx, f)
        self.content = ("p", f.qual, "content")
        self.target = ("p", f.qual, "target")
        cls = program().cls("pkm.api.packages.package_installation.PackageInstallationTarget")
        self.places = set(cls.fields) | set(cls.methods) if cls is not None else set(SCHEMES)

    def opaque(self, f):
        return f.cls is not None and f.cls.name in ("CopyTransaction", "Executables", "DistInfo", "RecordsFileConfiguration", "WheelFileConfiguration", "EntryPoint", "EntrypointsConfiguration") \
            or f.name in ("_verify_records", "_remove_empty_directories", "prepare", "temp_dir")

    def invoke_callbacks(self, c):
        return "no" if c.name == "copy_tree" else "once"

    def force_inline(self, f):
        return f.name == "_find_dist_info" or f.module is self.f.module and f.name not in ("_verify_records", "_remove_empty_directories")

    def mark(self, st, *values):
        return st

    def on_loop_done(self, it, st, node, fr, eng):
        d = listed(("elem", it))
        return self.arrived(st, d) if d is not None and not self.walked(it) else None      # every entry of d was dealt with

    def arrived(self, st, el):
        ps = tuple((e, True if e == el or mentions(el, e) else ok) for e, ok in st.ps)
        return st.with_ps(ps)

    def within(self, el):
        """el is an entry at some depth of the extracted wheel: 1 for the root, 2 below an entry of the root, …"""
        n = 0
        while True:
            d = listed(el)
            if d is None:
                return n if el == self.content else 0
            n, el = n + 1, d
            if el == self.content:
                return n

    def is_entrypoint(self, el):
        return el[0] == "elem" and el[1][0] == "a" and el[1][2] == "entrypoints"

    def relevant(self, it, el, st):
        return self.within(el) > 0 and not self.walked(it) or self.is_entrypoint(el)

    def walked(self, it):
        return call_name(it) in ("glob", "rglob") or any(call_name(x) in ("glob", "rglob") for x in subterms(it))

    def exempt(self, it, el, st):
        if self.is_entrypoint(el):
            return any(l[0] == "truthy" and not pol and call_name(l[1]) == "is_script" and mentions(l[1], el) or
                       l[0] == "in" and not pol and l[1] == ("a", el, "group") for l, (pol, _) in st.facts.items())
        if falsy(el, st):
            return True
        return any(l[0] == "eq" and pol and el in l[1:] and self.is_record(next(x for x in l[1:] if x != el)) for l, (pol, _) in st.facts.items())

    def is_record(self, t):
        t = strip(t)
        return t[0] == "a" and t[2].lstrip("_") in ("path", "record_path") and any(call_name(x) == "load_record_cfg" for x in subterms(t)) or call_name(t) == "record_path" or \
            split(t)[1] == const("RECORD")

    def data_dir(self, el, st):
        """el is the .data directory (True / False / unknown)"""
        for l, (pol, _) in st.facts.items():
            if l[0] == "eq" and el in l[1:]:
                o = next((x for x in l[1:] if x != el), el)
                if any(x == const(".data") for x in subterms(o)):
                    return pol
            if l[0] == "eq" and any(x == ("a", el, "suffix") for x in l[1:]) and const(".data") in l[1:]:
                return pol
            if l[0] == "eq" and ("a", el, "name") in l[1:] and any(isinstance(x[2], str) and x[2].endswith(".data") for t in l[1:] for x in subterms(t) if x[0] == "c"):
                return pol
            if l[0] == "truthy" and call_name(l[1]) == "endswith" and mentions(l[1], el) and any(isinstance(x[2], str) and x[2].endswith(".data") for x in subterms(l[1]) if x[0] == "c"):
                return pol
        return None

    def on_call(self, c, st, eng):
        if c.name in ("copy", "copy_tree") and c.recv is not None and len(c.args) + len(c.kwargs) >= 2 and c.ext is None:
            src, dst = c.arg(0, "source"), c.arg(1, "target")
            if src is None or dst is None:
                return None
            self.copied(c, strip(src), dst, st)
            s = self.arrived(st, strip(src))
            for el, _ in st.ps:
                if self.is_entrypoint(el) and mentions(src, el):
                    s = self.arrived(s, el)
            if c.name == "copy_tree":
                self.filtered(c, strip(src), c.arg(2, "accept"), st, eng)
            return Take(normal=[(c.term(), s)])
        return None

    def filtered(self, c, src, accept, st, eng):
        """what copy_tree is asked to leave out"""
        if accept is None or accept[0] in ("p", "unk", "c"):
            return
        listing = ("call", ("m", "iterdir"), src, (), ())
        el = ("elem", listing)
        self.ctx.count("filters")
        for t, s in eng.call(c.node, accept, [el], {}, c.fr, st, []):
            s = eng.assume(s, t, False)
            if s is not None and not self.exempt(listing, el, s):
                self.ctx.finding("left-out", f"{self.f.short}:filter", f"{self.f.short} can leave out a part of the wheel (an entry that the predicate given to copy_tree does not accept)", c.where, s.trace[-3:])

    # -- destinations
    def copied(self, c, src, dst, st):
        n = self.within(src)
        d, name = split(dst)
        bad = None
        if n == 1 and self.data_dir(src, st) is not True:
            self.ctx.count("root_copies")
            if name is None or not name_of(name, src):
                bad = "does not copy an entry of the wheel's root to a place of the same name"
            else:
                bad = self.site(d, st)
        elif n == 1:
            bad = "copies the .data directory as if it was content"
        elif n == 2 and self.data_dir(listed(src), st) is False:
            return
        elif n == 2:
            self.ctx.count("scheme_copies")
            bad = self.scheme(src, dst, st)
        elif any(self.is_entrypoint(el) and mentions(src, el) for el, _ in st.ps):
            self.ctx.count("script_copies")
            if not (strip(d) == ("a", self.target, "scripts") if d is not None else False) or not mentions(name, src):
                bad = "does not put the script of an entry point into the scripts directory"
        if bad:
            self.ctx.finding("misplaced", f"{self.f.short}:{n}", f"{self.f.short} {bad}", c.where, st.trace[-3:])

    def site(self, d, st):
        pure = next((pol for l, (pol, _) in st.facts.items() if l[0] == "truthy" and l[1][0] == "a" and l[1][2] == "root_is_purelib"), None)
        opts = d[1] if d[0] == "phi" else (d,)
        attrs = {strip(x)[2] for x in opts if strip(x)[0] == "a" and strip(x)[1] == self.target}
        if len(attrs) == len(opts) == 1 and pure is not None:
            if attrs == {"purelib" if pure else "platlib"}:
                return None
            return f"puts the content of a wheel whose root is {'pure' if pure else 'platform specific'} python into another directory"
        if attrs == {"purelib", "platlib"}:
            return None
        return "does not put the content of the wheel below the site directory"

    def scheme(self, k, dst, st):
        nm = ("a", k, "name")
        known = {x[2] for l, (pol, _) in st.facts.items() if l[0] == "eq" and pol and nm in l[1:] for x in l[1:] if x[0] == "c"}
        t = strip(dst)
        alts = t[1] if t[0] == "phi" else (t,)
        for t in alts:
            t = strip(t)
            d, last = split(t)
            attr = t[2] if t[0] == "a" and t[1] == self.target else d[2] if d is not None and d[0] == "a" and d[1] == self.target else None
            want = next(iter(known), None)
            if call_name(t) == "getattr" or t[0] == "s" and mentions(t[2], nm) or call_name(t) == "get" and mentions(t, nm):
                if not mentions(t, nm):
                    return "does not choose the directory by the name of the scheme"
                if call_name(t) == "getattr" and len(t[3]) == 2 and t[3][0] == self.target and not known:
                    excluded = {x[2] for l, (pol, _) in st.facts.items() if l[0] == "eq" and not pol and nm in l[1:] for x in l[1:] if x[0] == "c"}
                    lost = [n for n in SCHEMES if n not in self.places and n not in excluded]
                    if lost and not self.checked(nm, st):
                        return f"fails on the scheme '{lost[0]}', for which the target has no directory of that name"
                continue
            if want is not None and attr is not None:
                if attr != {"headers": "include"}.get(want, want) and not (attr == "data" and mentions(t, nm) and self.unknown(nm, st)):
                    return f"puts the files of the scheme '{want}' into the directory for '{attr}'"
                if attr == "include" or d is None or last is None or mentions(last, nm):
                    continue
                continue
            if attr == "data" and last == nm and self.unknown(nm, st):
                continue
            if mentions(t, self.target) and want is not None:
                continue
            if not mentions(t, self.target):
                return "does not put the files of a scheme below a directory of the target"
            if mentions(t, nm) and self.unknown(nm, st):
                continue
            return "puts the files of every scheme into the same directory"
        return None

    def checked(self, nm, st):
        """the place is known to exist before it is looked up"""
        return any(l[0] == "truthy" and pol and call_name(l[1]) == "hasattr" and mentions(l[1], nm) or l[0] == "in" and mentions(l, nm) for l, (pol, _) in st.facts.items())

    def unknown(self, nm, st):
        """it is known that the target has no directory for the scheme"""
        return any(l[0] in ("truthy", "isnone") and pol == (l[0] == "isnone") and mentions(l[1], nm) or l[0] == "in" and not pol and mentions(l[1], nm) or
                   l[0] == "truthy" and not pol and call_name(l[1]) == "hasattr" and mentions(l[1], nm)
                   for l, (pol, _) in st.facts.items())


class Patched(Rule):
    """a script that is given another interpreter is written whole"""
    keep_all_facts = True
    max_states = 100

    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f
        self.src, self.dst = (("p", f.qual, n) for n in f.params[:2])

    def can_raise(self, c):
        return False

    def on_call(self, c, st, eng):
        if c.name in ("write", "write_bytes", "writelines", "copyfileobj") and (c.recv is not None and mentions(c.recv, self.dst) or any(mentions(a, self.dst) for a in c.args)):
            rest = any(call_name(x) in ("read", "read_bytes", "readlines") and mentions(x, self.src) for a in c.args for x in subterms(a)) or \
                c.name == "copyfileobj" and mentions(c.args[0], self.src)
            return Take(normal=[(c.term(), st.with_ps(st.ps | {"rest" if rest else "head"}))])
        if c.ext in ("shutil.copy", "shutil.copy2", "shutil.copyfile") and c.args[0] == self.src and mentions(c.args[1], self.dst):
            return Take(normal=[(c.term(), st.with_ps(st.ps | {"rest", "head"}))])

    def judge(self, out):
        for t, st in out.ret:
            self.ctx.count("scripts_written")
            if "rest" not in st.ps:
                self.ctx.finding("not-copied", self.f.short, f"{self.f.short} can return without having written the script", self.f.where, st.trace[-3:])


class IsScript(Rule):
    """what counts as a script: the entry points of both script groups"""
    keep_all_facts = True
    max_states = 100

    def __init__(self, p, group, value):
        self.p, self.group, self.value = p, group, value

    def can_raise(self, c):
        return False

    def constant(self, t):
        if t == self.group:
            return self.value
        if t[0] == "g":
            cls, _, n = t[1].rpartition(".")
            for x in self.p.cls(cls).node.body if self.p.cls(cls) is not None else ():
                if isinstance(x, (ast.Assign, ast.AnnAssign)) and isinstance(x.value, ast.Constant) and \
                        n in [getattr(y, "id", None) for y in (x.targets if isinstance(x, ast.Assign) else [x.target])]:
                    return x.value.value
        return t[2] if t[0] == "c" else None

    def decide(self, t):
        """the truth of t, None if unknown"""
        if t[0] == "c":
            return bool(t[2])
        if t[0] == "op" and len(t) == 3 and t[1] == "not":
            v = self.decide(t[2])
            return None if v is None else not v
        if t[0] in ("eq", "in") or t[0] == "op" and t[1] in ("==", "!=", "in", "notin", "not in", "and", "or"):
            o, a, b = (t[0], t[1], t[2]) if t[0] in ("eq", "in") else t[1:4]
            if o in ("and", "or"):
                v = [self.decide(a), self.decide(b)]
                return (o == "or") if (o == "or") in v else None if None in v else o == "and"
            neg = o in ("!=", "notin", "not in")
            if o in ("eq", "==", "!="):
                a, b = self.constant(a), self.constant(b)
                return None if a is None or b is None else (a == b) != neg
            if b[0] == "tup":
                items, a = [self.constant(x) for x in b[1]], self.constant(a)
                return None if a is None or None in items and a not in items else (a in items) != neg
        return None

    def possible(self, st):
        return all(self.decide(l) in (None, pol) for l, (pol, _) in st.facts.items() if l[0] in ("eq", "in"))


def check(ctx):
    p = program()
    ctx.rule("every entry of the wheel reaches a copy: the root below the site directory, .data by scheme, script entry points in the scripts directory; "
             "trees are copied whole and to the same relative place")
    ct = p.cls(CT)
    ctx.need(ct, "CopyTransaction")
    f = ct.methods.get("copy_tree")
    ctx.need(f, "CopyTransaction.copy_tree")
    r = Tree(ctx, f)
    eng = Engine(r)
    out = eng.run(f, ())
    ctx.analysed(eng)
    r.report("left-out", "an entry of the directory")
    if not r.seen:
        ctx.finding("left-out", f.short, f"{f.short} does not visit the entries of the directory", f.where)
    g = ct.methods.get("copy")
    ctx.need(g, "CopyTransaction.copy")
    c = Copy(ctx, g)
    eng = Engine(c)
    c.judge(eng.run(g, False))
    ctx.analysed(eng)
    w = p.cls(WHEEL)
    h = w.methods.get("install_extracted_wheel") if w is not None else None
    ctx.need(h, "WheelDistribution.install_extracted_wheel")
    i = Install(ctx, h)
    eng = Engine(i)
    eng.run(h, ())
    ctx.analysed(eng)
    i.report("left-out", "a part of the wheel")
    depths = {i.within(e) for e in i.seen}
    if 1 not in depths or 2 not in depths:
        ctx.finding("left-out", h.short, f"{h.short} does not visit the entries of the wheel's {'root' if 1 not in depths else '.data directory'}", h.where)
    if not any(i.is_entrypoint(e) for e in i.seen):
        ctx.finding("left-out", f"{h.short}:scripts", f"{h.short} does not visit the entry points of the wheel", h.where)
    x = p.cls("pkm.launchers.executables.Executables")
    q = x.methods.get("patch_shabang_for_interpreter") if x is not None else None
    if q is not None:
        s = Patched(ctx, q)
        eng = Engine(s)
        s.judge(eng.run(q, frozenset()))
        ctx.analysed(eng)
    ep = p.cls("pkm.utils.entrypoints.EntryPoint")
    k = ep.methods.get("is_script") if ep is not None else None
    if k is not None:
        for g in ("console_scripts", "gui_scripts"):
            r2 = IsScript(p, ("a", ("p", k.qual, k.params[0]), "group"), g)
            eng = Engine(r2)
            out = eng.run(k, (), self_cls="pkm.utils.entrypoints.EntryPoint")
            ctx.analysed(eng)
            for t, st in out.ret:
                ctx.count("script_groups")
                if r2.possible(st) and r2.decide(t) is False:
                    ctx.finding("left-out", f"{k.short}:{g}", f"{k.short} does not count the entry points of {g} as scripts", k.where, st.trace[-3:])
    ctx.sample(f"{h.short}: visited depths {sorted(depths)}; {f.short}: {r.copies} copies")
    ctx.at_least("root_copies", 1)
    ctx.at_least("scheme_copies", 1)
    ctx.at_least("script_copies", 1)
    ctx.at_least("tree_copies", 1)
