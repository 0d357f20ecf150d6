"""B02: built metadata says what the project configuration says.  (1) Every metadata item is computed from its own item of the
configuration and from nothing else; lists are taken over whole.  (2) The dependencies written are all dependencies and all
optional dependencies, the latter bound to their extra in addition to their own marker.  (3) The entry points written are
those of all groups, each under its own group, name and reference.  (4) What is written to METADATA and entry_points.txt
of a build is that, item by item, in a form that is not folded or encoded."""
import re

from ..common import *

PC = "pkm.api.projects.pyproject_configuration.ProjectConfig"
PM = "pkm.api.packages.package_metadata"
EC = "pkm.api.distributions.distinfo.EntrypointsConfiguration"
EP = "pkm.utils.entrypoints.EntryPoint"
SOURCES = {
    "Name": {"name"}, "Version": {"version"}, "Summary": {"description"}, "Description": {"readme"}, "Keywords": {"keywords"},
    "Author": {"authors"}, "Author-email": {"authors"}, "Maintainer": {"maintainers"}, "Maintainer-email": {"maintainers"},
    "License": {"license"}, "Classifier": {"classifiers"}, "Requires-Dist": {"dependencies", "optional_dependencies"},
    "Requires-Python": {"requires_python"}, "Provides-Extra": {"optional_dependencies"}, "Project-URL": {"urls"},
}
LISTS = {"authors", "maintainers", "keywords", "classifiers", "dependencies", "all_dependencies", "optional_dependencies", "urls"}
PART = {"Author-email": {"email"}, "Maintainer-email": {"email"}, "Author": {"name"}, "Maintainer": {"name"}}
MEMBERS = {"readme_content": {"readme"}, "license_content": {"license"}, "all_dependencies": {"dependencies", "optional_dependencies"},
           "package_descriptor": {"name", "version"}, "formatted_name": {"name"}}


def parts(el):
    return [x for x in el[1] if isinstance(x, tuple)] if el[0] == "tup" else list(el[1:]) if el[0] == "kv" else [el]


class Flow(Rule):
    """follows one arbitrary element of every collection to what becomes of it"""
    keep_all_facts = True
    term_depth = 24
    max_states = 150

    def __init__(self, ctx, f):
        self.ctx, self.f, self.skips, self.seen = ctx, f, {}, set()

    def can_raise(self, c):
        return False

    def relevant(self, it, el, st):
        return False

    def exempt(self, it, el, st):
        return False

    def mark(self, st, *values):
        """the elements that are part of the given values are taken over"""
        ts = list(values)
        for v in values:
            if v is not None and v[0] == "new":
                ts += [x for k, x in st.heap.items() if k[0] == "fld" and k[1] == v]
        ps = tuple((el, ok or any(t is not None and any(mentions(t, x) for x in parts(el)) for t in ts)) for el, ok in st.ps)
        return st.with_ps(ps) if ps != st.ps else st

    def on_iter(self, it, el, st, node, fr, eng):
        return st.with_ps(st.ps + ((el, False),))

    def on_loop_done(self, it, st, node, fr, eng):
        return self.mark(st, it, *(e for e, _ in (st.heap.get(it) if isinstance(st.heap.get(it), frozenset) else ())))

    def on_add(self, cont, value, st, node, fr, eng):
        return self.mark(st, value)

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        if kind == "sub":
            return self.mark(st, value)
        return None

    def place(self, node, fr):
        return f"{fr.func.module.rel}:{getattr(node, 'lineno', None) or getattr(getattr(node, 'iter', None), 'lineno', 0)}"

    def on_iter_end(self, it, el, st, node, fr, eng, filtered):
        if not st.ps or st.ps[-1][0] != el:
            return None
        ok = st.ps[-1][1]
        if self.relevant(it, el, st):
            self.seen.add(el)
            if not ok and not self.exempt(it, el, st):
                self.skips.setdefault(self.place(node, fr), (el, tuple(st.trace[-3:])))
        return st.with_ps(st.ps[:-1])

    def on_iter_break(self, it, el, st, node, fr, eng):
        if self.relevant(it, el, st):
            self.skips.setdefault(self.place(node, fr), (el, tuple(st.trace[-3:])))
        if st.ps and st.ps[-1][0] == el:
            return st.with_ps(st.ps[:-1])
        return None

    def report(self, kind, what):
        for where, (el, trace) in self.skips.items():
            self.ctx.finding(kind, self.f.short, f"{self.f.short} can leave out {what} ({show(el)})", where, trace)


def falsy(t, st):
    """known to be empty or missing"""
    return any(l[0] == "isnone" and pol and l[1] == t or l[0] == "truthy" and not pol and l[1] == t for l, (pol, _) in st.facts.items())


class Mapping(Rule):
    keep_all_facts = True
    term_depth = 24
    max_states = 300

    def __init__(self, ctx, f, cfg):
        self.ctx, self.f, self.cfg = ctx, f, cfg
        self.prjc = ("p", f.qual, f.params[1] if f.cls is not None and not f.is_static else f.params[0])
        self.values = {}

    def can_raise(self, c):
        return False

    def opaque(self, f):
        return f.cls is not None and f.cls.name in ("ProjectConfig", "ContactInfo") or f.name in ("remove_none_values", "from_config")

    def force_inline(self, f):
        return f.module.name == PM

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        if kind == "sub" and key is not None and key[0] == "c" and key[2] in SOURCES and value is not None:
            self.values.setdefault(key[2], []).append((value, st, f"{fr.func.module.rel}:{getattr(node, 'lineno', 0)}"))

    def fields(self, t, st, out, seen):
        """the items of the configuration a value is computed from"""
        if t in seen:
            return
        seen.add(t)
        for x in subterms(t):
            if x[0] == "a" and x[1] == self.prjc:
                out |= MEMBERS.get(x[2], {x[2]})
            elif x[0] == "call" and x[2] == self.prjc:
                out |= MEMBERS.get(call_name(x), {call_name(x)})
            elif x[0] == "cont":
                items = st.heap.get(x)
                for e, _ in items if isinstance(items, frozenset) else ():
                    self.fields(e, st, out, seen)

    def details(self, t, st, out, seen):
        """what is used of the elements, and under which conditions"""
        for x in subterms(t):
            if x[0] == "a" and x[1][0] == "elem":
                out[0].add(x[2])
            elif x[0] == "call" and x[2] is not None and x[2][0] == "elem":
                out[0].update(MEMBERS.get(call_name(x), ()))
            elif x[0] == "cont" and x not in seen:
                seen.add(x)
                items = st.heap.get(x)
                for e, facts in items if isinstance(items, frozenset) else ():
                    out[1].extend((e, l, pol) for l, pol in facts)
                    self.details(e, st, out, seen)

    def judge(self):
        f = self.f.short
        for key, want in SOURCES.items():
            if key not in self.values:
                self.ctx.finding("item-dropped", f, f"{f} writes no {key}, although the configuration has the item {'/'.join(sorted(want))}", self.f.where)
                continue
            union, used = set(), set()
            for v, st, where in self.values[key]:
                self.ctx.count("metadata_values")
                got = set()
                self.fields(v, st, got, set())
                union |= got
                if got - want:
                    self.ctx.finding("wrong-item", f, f"{f} computes {key} from {'/'.join(sorted(got - want))} instead of {'/'.join(sorted(want))}", where,
                                     st.trace[-3:])
                    continue
                if not got and not any(falsy(("a", self.prjc, w), st) for w in want) and not any(
                        x[0] == "cont" for x in subterms(v)) and not any(falsy(x, st) for x in self.asked(st)):
                    self.ctx.finding("wrong-item", f, f"{f} writes {show(v)} as {key} whatever the configuration says", where, st.trace[-3:])
                cut = self.part_of(v, st, set())
                if cut is not None:
                    self.ctx.finding("item-dropped", f, f"{f} takes only a part of the {'/'.join(sorted(want))} ({show(cut)}) for {key}", where, st.trace[-3:])
                out = (set(), [])
                self.details(v, st, out, set())
                used |= out[0]
                for e, l, pol in out[1]:
                    els = {x for x in subterms(e) if x[0] == "elem"}
                    if not any(mentions(l, x) for x in els) or l[0] == "isnone":
                        continue
                    ok = l[0] == "truthy" and pol and l[1][0] == "a" and PART.get(key) and {l[1][2]} <= PART[key]
                    if not ok and not (l[0] == "truthy" and pol and l[1] in els):
                        self.ctx.finding("item-dropped", f, f"{f} leaves out some of the {'/'.join(sorted(want))} for {key}", where, st.trace[-3:])
            if want - union:
                self.ctx.finding("item-dropped", f, f"{f} does not take the {'/'.join(sorted(want - union))} of the configuration into {key}", self.values[key][0][2])
            elif key in PART and used and not PART[key] & used:
                self.ctx.finding("wrong-item", f, f"{f} takes the {'/'.join(sorted(used))} of contacts for {key}", self.values[key][0][2])

    def part_of(self, t, st, seen):
        """a slice of a list of the configuration that the value is computed from"""
        for x in subterms(t):
            if x[0] == "call" and x[1] == ("x", "@slice") and x[3][1][2:] not in ((NONE, NONE, NONE), (NONE, NONE, ("c", "int", 1))) and any(
                    y[0] == "a" and y[1] == self.prjc and y[2] in LISTS for y in [x[3][0]] + list(x[3][0][1:]) if isinstance(y, tuple)):
                return x
            items = st.heap.get(x) if x not in seen else None
            seen.add(x)
            for e, _ in items if isinstance(items, frozenset) else ():
                r = self.part_of(e, st, seen)
                if r is not None:
                    return r
        return None

    def asked(self, st):
        return [l[1] for l in st.facts if l[0] in ("truthy", "isnone") and len(l) > 1 and isinstance(l[1], tuple) and mentions(l[1], self.prjc)]


def text(t, names):
    """t as a text with named holes"""
    for test, name in names:
        if test(t):
            return name
    if t[0] == "c":
        return str(t[2])
    if t[0] == "fstr":
        return "".join(text(x, names) for x in t[1])
    if t[0] == "op" and t[1] in ("+", "Add"):
        return text(t[2], names) + text(t[3], names)
    if t[0] == "call" and call_name(t) == "str" and t[3]:
        return text(t[3][0], names)
    if t[0] == "call" and t[2] is not None and call_name(t) in ("strip", "rstrip", "lstrip"):
        return text(t[2], names)
    return "?"


class Dependencies(Flow):
    def __init__(self, ctx, f):
        super().__init__(ctx, f)
        s = ("p", f.qual, f.params[0])
        self.deps, self.opts = ("a", s, "dependencies"), ("a", s, "optional_dependencies")
        self.plain = self.bound = self.given = 0

    def force_inline(self, f):
        return f.module is self.f.module

    def opaque(self, f):
        return f.cls is not None and f.cls.name in ("EnvironmentMarker", "VersionSpecifier")

    def relevant(self, it, el, st):
        return any(x in (self.deps, self.opts) for p in parts(el) for x in subterms(p))

    def group_of(self, el):
        return el[1][2] if el[0] == "elem" and el[1][0] == "s" else None

    def on_add(self, cont, value, st, node, fr, eng):
        st = self.mark(st, value)
        where = self.place(node, fr)
        for el, _ in st.ps:
            if el[0] == "elem" and mentions(el, self.opts) and el[1] != self.opts and value is not None:
                self.optional(value, el, st, where)
            elif el == ("elem", self.deps) and value == el:
                self.plain += 1
        return st

    def has_marker(self, el, st):
        m = ("a", el, "env_marker")
        for l, (pol, _) in st.facts.items():
            if l[0] == "truthy" and l[1] == m:
                return pol
            if l[0] == "isnone" and l[1] == m:
                return not pol
        return None

    def names_extra(self, l, pol, m, g, st):
        """the marker m is known to be bound to the extra g"""
        ts = [x for x in l[1:] if isinstance(x, tuple)]
        if not any(mentions(x, m) for x in ts):
            return False
        if not (pol and l[0] in ("truthy", "in", "eq") and (l[0] != "truthy" or call_name(l[1]) in ("match", "search", "fullmatch", "any", "startswith")) or
                not pol and l[0] == "isnone" and call_name(l[1]) in ("match", "search", "fullmatch")):
            return False
        said = [str(y[2]) for x in ts for y in subterms(x) if y[0] == "c"]
        return any("extra" in y for y in said) and any("==" in y or "*=" in y for y in said) and any(
            mentions(x, g) or any(y[0] == "elem" and y[1] == self.opts for y in subterms(x)) for x in ts)

    def optional(self, value, el, st, where):
        f, m = self.f.short, ("a", el, "env_marker")
        if value[0] == "tup" or value == el[1] or not (mentions(value, el) or value[0] == "new"):
            return
        if value == el:
            self.given += 1
            if not any(self.names_extra(l, pol, m, self.group_of(el), st) for l, (pol, _) in st.facts.items()):
                self.ctx.finding("extra-lost", f, f"{f} takes over an optional dependency without binding it to its extra", where, st.trace[-3:])
            return
        flds = {k[2]: v for k, v in st.heap.items() if k[0] == "fld" and k[1] == value}
        if value[0] != "new" or not value[1].endswith(".Dependency") or "env_marker" not in flds:
            return
        self.bound += 1
        for n in ("package_name", "version_spec", "extras"):
            v = flds.get(n)
            if v is not None and ("a", el, n) not in ([v] + list(v[1] if v[0] == "phi" else ())):
                self.ctx.finding("dependency-changed", f, f"{f} writes another {n} than that of the optional dependency", where, st.trace[-3:])
        g = self.group_of(el)
        marker = flds["env_marker"]
        names = [(lambda t: t == m, "M"), (lambda t: t == g or t[0] == "elem" and t[1] == self.opts, "G")]
        arg = marker[3][0] if marker[0] == "call" and marker[3] else None
        if arg is None:
            self.ctx.finding("extra-lost", f, f"{f} binds an optional dependency to {show(marker)}", where, st.trace[-3:])
            return
        s = text(arg, names)
        extra = r"extra\s*==\s*(['\"])G\1"
        if self.has_marker(el, st) is False:
            ok = re.fullmatch(r"\s*\(?\s*" + extra + r"\s*\)?\s*", s)
        else:
            ok = re.fullmatch(r"\s*\(\s*M\s*\)\s*and\s*\(?\s*" + extra + r"\s*\)?\s*", s) or re.fullmatch(r"\s*\(?\s*" + extra + r"\s*\)?\s*and\s*\(\s*M\s*\)\s*", s)
        if not ok:
            self.ctx.finding("extra-lost", f, f"{f} binds an optional dependency to the marker '{s}' (M: its own marker, G: its extra), which is not its own marker "
                             "together with its extra", where, st.trace[-3:])


class EntryPoints(Flow):
    GROUPS = {"_scripts": "console_scripts", "_gui_scripts": "gui_scripts"}

    def __init__(self, ctx, f):
        super().__init__(ctx, f)
        self.slf = s = ("p", f.qual, f.params[0])
        self.fields = {n: ("a", s, n) for n in ("_entry_points", "_scripts", "_gui_scripts")}
        self.made, self.taken, self.homes = set(), set(), {}

    def groups(self, t):
        """t is made of the entry points by group that the configuration computes"""
        return any(x[0] == "a" and x[1] == self.slf and x[2] == "entry_points" or x[0] == "call" and x[2] == self.slf and call_name(x) == "entry_points"
                   for x in subterms(t))

    def origins(self, t, st):
        n = st.heap.get(("fld", t, "name")) if t is not None and t[0] == "new" and t[1] == EP else None
        return {self.source(x) for x in ([n] + list(n[1] if n[0] == "phi" else ())) if x is not None} - {None} if n is not None else set()

    def on_add(self, cont, value, st, node, fr, eng):
        for n in self.origins(value, st):
            homes = self.homes.setdefault(n, set())
            homes.add(cont[2][1:] if cont[0] == "cont" else cont)
            if len(homes) > 1:  # not only collected, but handed on
                self.taken.add(n)
        return self.mark(st, value)

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        if kind == "sub" and value is not None:
            for e, _ in st.heap.get(value) if isinstance(st.heap.get(value), frozenset) else ():
                self.taken |= self.origins(e, st)
            return self.mark(st, value)
        return None

    def force_inline(self, f):
        return f.module is self.f.module

    def opaque(self, f):
        return f.cls is not None and (f.cls.name == "ObjectReference" or f.cls is self.f.cls and f.name == "entry_points" and f is not self.f)

    def relevant(self, it, el, st):
        return el[0] == "new" and el[1] == EP or self.groups(el) or any(x in self.fields.values() or x[0] == "new" and x[1] == EP for p in parts(el) for x in subterms(p))

    def source(self, t):
        for n, x in self.fields.items():
            if any(y == x for y in subterms(t)):
                return n
        return None

    def on_call(self, c, st, eng):
        if c.cls is not None and c.cls.qual == EP:
            group, name, ref = c.arg(0, "group"), c.arg(1, "name"), c.arg(2, "ref")
            n = self.source(name) if name is not None else None
            if n is None:
                return None
            self.ctx.count("entry_points_made")
            self.made.add(n)
            entries = ("a", self.fields[n][1], n)
            src = name[1] if name[0] == "elem" else None
            want = self.GROUPS.get(n)
            if n == "_entry_points":
                ok = src is not None and group == ("elem", entries) and src == ("s", entries, group)
            else:
                ok = src == entries and self.const(group) == want
            if not ok:
                self.bad(f"puts the entries of {n.lstrip('_')} under the group or name {show(group)}/{show(name)}", c, st)
            if ref is None or src is None or not mentions(ref, ("s", src, name)):
                self.bad(f"makes an entry point refer to {show(ref) if ref else 'nothing'}", c, st)
        return None

    def const(self, t):
        if t is None:
            return None
        if t[0] == "c":
            return t[2]
        if t[0] == "g":
            v = program().cls(t[1].rpartition(".")[0])
            name = t[1].rpartition(".")[2]
            for n in v.node.body if v is not None else ():
                if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == name for x in n.targets) and isinstance(n.value, ast.Constant):
                    return n.value.value
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name and isinstance(n.value, ast.Constant):
                    return n.value.value
        return None

    def bad(self, msg, c, st):
        self.ctx.finding("wrong-entry-point", self.f.short, f"{self.f.short} {msg}", c.where, st.trace[-3:])

    def result(self, out):
        def look(t, st, seen):
            if t in seen:
                return
            seen.add(t)
            if t[0] == "new" and t[1] == EP:
                self.taken.update(self.origins(t, st))
                return
            for x in subterms(t):
                if x[0] == "s" and x[1][0] != "p" and x != t:
                    look(x, st, seen)
                items = st.heap.get(x)
                for e, _ in items if isinstance(items, frozenset) else ():
                    look(e, st, seen)
        for t, st in out.ret:
            look(t, st, set())


class Written(Flow):
    """every metadata item reaches the message that is written"""

    def __init__(self, ctx, f):
        super().__init__(ctx, f)
        self.data = ("p", f.qual, f.params[2])
        self.payload = self.messages = self.texts = 0

    def force_inline(self, f):
        return f.cls is self.f.cls

    def relevant(self, it, el, st):
        return any(mentions(p, self.data) for p in parts(el))

    def is_list_of(self, el):
        return el[0] == "elem" and el[1][0] == "s"

    def exempt(self, it, el, st):
        ps = parts(el)
        key, value = ps[0], ps[-1]
        for l, (pol, _) in st.facts.items():
            if (l[0] == "isnone" and pol or l[0] == "truthy" and not pol) and l[1] == value:
                return True
            if l[0] == "eq" and pol and key in l and ("c", "str", "Description") in l:
                return True
        return False

    def on_call(self, c, st, eng):
        if c.ext is not None and c.ext.endswith("EmailMessage"):
            self.messages += 1
            pol = c.arg(0, "policy")
            if pol is None or not self.plain(pol, c):
                self.ctx.finding("item-encoded", self.f.short, f"{self.f.short} writes the items with the default header policy, which folds long values and "
                                 "encodes others", c.where, st.trace[-3:])
        if c.name in ("set_payload", "set_content") and any(x[0] == "c" and x[2] == "Description" for a in c.all_args() for x in subterms(a)):
            self.payload += 1
        if c.name in ("add_header", "__setitem__", "set_raw"):
            return Take(normal=[(c.term(), self.mark(st, *c.all_args()))])
        return None

    def plain(self, pol, c):
        kw = {}
        if pol[0] == "call":
            kw = dict((k, v) for k, v in pol[4]) if len(pol) > 4 else {}
            return kw.get("max_line_length") in (NONE, ("c", "int", 0)) and kw.get("utf8") == TRUE
        if pol[0] == "g":
            mod, _, n = pol[1].rpartition(".")
            m = program().modules.get(mod)
            node = m.globals.get(n) if m is not None else None
            node = getattr(node, "value", node)
            if isinstance(node, ast.Call):
                k = {x.arg: x.value for x in node.keywords}
                return isinstance(k.get("max_line_length"), ast.Constant) and not k["max_line_length"].value and isinstance(
                    k.get("utf8"), ast.Constant) and k["utf8"].value is True
        return False


class Groups(Flow):
    """the entry points are written under their group, name and reference"""

    def __init__(self, ctx, f):
        super().__init__(ctx, f)
        self.src, self.slf = ("p", f.qual, f.params[1]), ("p", f.qual, f.params[0])
        self.named = self.grouped = self.kept = 0

    def force_inline(self, f):
        return f.name == "groupby" or f.cls is self.f.cls

    def relevant(self, it, el, st):
        return any(mentions(p, self.src) for p in parts(el))

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        el = ("elem", self.src)
        if kind == "attr" and base == self.slf and value is not None:
            self.kept += 1
        if kind != "sub" or value is None:
            return None
        if any(x == ("a", el, "ref") for x in subterms(value)):
            self.named += 1
            if key != ("a", el, "name"):
                self.ctx.finding("wrong-entry-point", self.f.short, f"{self.f.short} writes the reference of an entry point under {show(key)}", self.place(node, fr),
                                 st.trace[-3:])
        elif value[0] == "cont" and mentions(key, el):
            if key != ("a", el, "group"):
                self.ctx.finding("wrong-entry-point", self.f.short, f"{self.f.short} writes entry points under the group {show(key)}", self.place(node, fr),
                                 st.trace[-3:])
            self.grouped += 1
        if mentions(base, self.slf):
            self.kept += 1
        return self.mark(st, value)

    def on_add(self, cont, value, st, node, fr, eng):
        if mentions(cont, self.slf):
            self.kept += 1
        return self.mark(st, value)


class DistInfoFiles(Rule):
    keep_all_facts = True
    term_depth = 22

    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f
        self.metadata = self.entries = 0

    # ps: (metadata written, entry points set, entry points written)
    def can_raise(self, c):
        return False

    def opaque(self, f):
        return f.cls is not None and f.cls.name in ("ProjectConfig", "ConfigFile", "WheelFileConfiguration") or f.name in (
            "from_project_config", "load_entrypoints_cfg")

    def force_inline(self, f):
        return f.module is self.f.module or f.cls is not None and f.cls.name == "DistInfo"

    def project(self, t):
        """the configuration of the project that is built"""
        return t is not None and t[0] == "a" and t[2] == "project" and t[1][0] == "a" and t[1][2] in ("_pyproject", "config", "pyproject")

    def on_call(self, c, st, eng):
        s = st.ps
        if c.name == "from_project_config":
            self.ctx.count("metadata_made")
            x = c.arg(0, "prjc")
            if not self.project(x):
                self.ctx.finding("wrong-item", self.f.short, f"{self.f.short} makes the metadata from {show(x)}", c.where, st.trace[-3:])
        if c.name == "save" and c.recv is not None:
            if has_call(c.recv, "from_project_config"):
                if any("METADATA" in consts_in(a) for a in c.all_args()):
                    return Take(normal=[(c.term(), st.with_ps((True,) + s[1:]))])
            elif has_call(c.recv, "load_entrypoints_cfg"):
                return Take(normal=[(c.term(), st.with_ps(s[:2] + (s[1],)))])
        return None

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        if kind == "attr" and key == "entrypoints":
            if value is None or call_name(value) != "all_entrypoints" or not self.project(value[2]):
                self.ctx.finding("wrong-entry-point", self.f.short, f"{self.f.short} writes {show(value)} as the entry points of the build",
                                 f"{fr.func.module.rel}:{node.lineno}", st.trace[-3:])
            return st.with_ps((st.ps[0], True, st.ps[2]))

    def judge(self, out):
        for t, st in out.ret:
            self.ctx.count("builds")
            if not st.ps[0]:
                self.ctx.finding("item-dropped", self.f.short, f"{self.f.short} can end without having written the METADATA", self.f.where, st.trace[-3:])
            if not st.ps[2]:
                self.ctx.finding("item-dropped", self.f.short, f"{self.f.short} can end without having written the entry points of the project", self.f.where,
                                 st.trace[-3:])


def facts_of(r, present):
    return {("truthy", t): (n in present, True) for n, t in r.fields.items()}


def check(ctx):
    p = program()
    ctx.rule("every metadata item is computed from its own item of the project configuration, and lists are taken over whole")
    ctx.rule("optional dependencies keep their own marker and are bound to their extra; entry points keep group, name and reference")
    ctx.rule("what is computed is written to METADATA and entry_points.txt, item by item, neither folded nor encoded")

    def run(r, f, ps):
        eng = Engine(r)
        out = eng.run(f, ps)
        ctx.analysed(eng)
        return out
    cfg = p.cls(PC)
    ctx.need(cfg, PC)
    pm = p.cls(PM + ".PackageMetadata")
    f = pm.methods.get("from_project_config") if pm is not None else None
    ctx.need(f, "PackageMetadata.from_project_config")
    m = Mapping(ctx, f, cfg)
    run(m, f, None)
    ctx.need(m.values, "the metadata items")
    m.judge()
    ctx.at_least("metadata_values", len(SOURCES) if not ctx.findings else 0)

    f = cfg.methods.get("all_dependencies")
    ctx.need(f, "ProjectConfig.all_dependencies")
    d = Dependencies(ctx, f)
    run(d, f, ())
    d.report("item-dropped", "a dependency")
    ctx.need(d.seen or ctx.findings, "the visit of the dependencies")
    if not d.bound:
        ctx.finding("extra-lost", f.short, f"{f.short} does not bind optional dependencies to their extra", f.where)
    if not any(el == ("elem", d.deps) for el in d.seen) and not d.plain and not ctx.findings:
        whole = any(x == d.deps for t, st in run(d, f, ()).ret for e in ([t] + [e for e, _ in (st.heap.get(t) or ())]) for x in subterms(e))
        if not whole:
            ctx.finding("item-dropped", f.short, f"{f.short} leaves out the dependencies of the project", f.where)

    f = cfg.methods.get("all_entrypoints")
    ctx.need(f, "ProjectConfig.all_entrypoints")
    made = set()
    whole = EntryPoints(ctx, f)
    out = run(whole, f, ())
    by_group = cfg.methods.get("entry_points")
    if by_group is not None and any(whole.groups(el) for el in whole.seen):
        whole.report("item-dropped", "an entry point")
        f = by_group
    elif by_group is not None and any(whole.groups(t) for t, st in out.ret):
        f = by_group
    names = list(whole.fields)
    for present in [names] + [[n] for n in names]:
        e = EntryPoints(ctx, f)
        eng = Engine(e)
        out = eng.run(f, (), facts=facts_of(e, present))
        ctx.analysed(eng)
        e.report("item-dropped", "an entry point")
        e.result(out)
        made |= e.made
        given = " and ".join(n.lstrip("_") for n in present)
        if f is not whole.f:
            w = EntryPoints(ctx, whole.f)
            eng = Engine(w)
            out = eng.run(w.f, (), facts=facts_of(w, present))
            if not any(w.groups(el) for el in w.seen) and not any(w.groups(t) for t, st in out.ret):
                ctx.finding("item-dropped", w.f.short, f"{w.f.short} returns no entry points for a project that has {given}", w.f.where)
        for n in present:
            if n not in e.made:
                ctx.finding("item-dropped", f.short, f"{f.short} leaves out the {n.lstrip('_')} of a project that has {given}", f.where)
            elif n not in e.taken:
                ctx.finding("item-dropped", f.short, f"{f.short} does not return the entry points of {n.lstrip('_')} of a project that has {given}", f.where)
    ctx.need(made or ctx.findings, "the entry points of the configuration")

    io = p.cls(PM + ".PackageMetadataIO")
    f = io.methods.get("write") if io is not None else None
    ctx.need(f is not None and len(f.params) > 2, "PackageMetadataIO.write")
    w = Written(ctx, f)
    run(w, f, ())
    w.report("item-dropped", "a metadata item")
    ctx.need(w.seen or ctx.findings, "the visit of the metadata items")
    ctx.need(w.messages or ctx.findings, "the message that is written")
    if not w.payload:
        ctx.finding("item-dropped", f.short, f"{f.short} does not write the description", f.where)

    ec = p.cls(EC)
    f = ec.methods.get("entrypoints@setter") if ec is not None else None
    ctx.need(f is not None and len(f.params) > 1, "the assignment of entry points")
    g = Groups(ctx, f)
    run(g, f, ())
    g.report("item-dropped", "an entry point")
    ctx.need(g.seen or ctx.findings, "the visit of the entry points")
    for n, what in ((g.named, "names and references"), (g.grouped, "groups"), (g.kept, "new content")):
        if not n:
            ctx.finding("item-dropped", f.short, f"{f.short} does not keep the {what} of entry points", f.where)

    f = p.funcs.get("pkm.build.pkm_builders._BuildContext.build_dist_info")
    ctx.need(f, "_BuildContext.build_dist_info")
    b = DistInfoFiles(ctx, f)
    b.judge(run(b, f, (False, False, False)))
    ctx.at_least("builds", 1)
    ctx.sample(f"{len(m.values)} metadata items traced to the configuration; entry points of {', '.join(sorted(made))}")
