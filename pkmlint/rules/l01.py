"""L01: typestate of the project configuration during an operation that changes project dependencies.  (1) the project
file and the lock are saved only after everything that can fail was done, and never after a failure; (2) on every
exceptional way out of the operation the dependency lists hold their previous content again: every list that was changed
is refilled from a copy that was taken while it was unchanged, every replaced list is put back."""
from ..common import *

LOCK_SAVE = "pkm.resolution.packages_lock.PackagesLock.save"
FIELDS = ("dependencies", "optional_dependencies")
GROW = {"append", "extend", "insert", "remove", "pop", "sort", "reverse", "update", "setdefault", "popitem",
        "__setitem__", "__delitem__"}
COPIES = {"list", "copy", "deepcopy", "tuple", "dict"}
QUIET = ("pkm.utils", "pkm_cli.display")
VALUES = ("pkm.api.dependencies", "pkm.api.versions", "pkm.api.packages.package", "pkm.api.packages.package_installation_info")


def config_list(t, stored) -> bool:
    """t is a dependency list (or the table of optional lists) of a project configuration, not a copy of it"""
    while True:
        if t in stored:
            return True
        if t[0] == "a":
            return t[2] in FIELDS
        if t[0] == "s":
            t = t[1]
            continue
        if t[0] == "call":
            n = call_name(t) or (t[1][1] if isinstance(t[1][1], str) else "")
            if n in ("get", "setdefault") and t[2] is not None:
                t = t[2]
                continue
            if n in ("get_or_put", "get_or_compute", "unone") and t[3]:
                t = t[3][0]
                continue
        if t[0] == "op" and t[1] in ("or", "ifexp") or t[0] == "or":
            return any(isinstance(x, tuple) and config_list(x, stored) for x in t[2:])
        return False


class ConfigRule(Rule):
    interesting = {"save"} | set(FIELDS)
    keep_all_facts = False
    max_states = 60

    def __init__(self, ctx, entry, saves):
        self.ctx, self.entry, self.saving = ctx, entry, saves
        self.saves = self.ops = self.changes = 0

    # ps: (saved, failed, frozenset of (location, status), frozenset of (copy term, location), frozenset stored terms,
    #      frozenset of (list, position of a comprehension that ran over it))
    def start(self):
        return (False, False, frozenset(), frozenset(), frozenset(), frozenset())

    def opaque(self, f):
        if f.module.name == "pkm.utils.dicts":
            return True
        if f.module is self.entry.module or f.qual in self.saving:
            return f.name == "save"
        return not (in_modules(f, "pkm_cli.controllers", "pkm.api.projects.project") and f.qual not in self.operations)

    def working(self, c) -> bool:
        """a step of the operation that may fail"""
        f = c.func
        return f is not None and f.module.name.split(".")[0] in LIBRARY and not in_modules(f, *QUIET, *VALUES) and \
            not f.is_property

    def can_raise(self, c):
        return self.working(c)

    # -- changes of the lists
    def dirty(self, ps, loc, status="changed"):
        self.changes += 1
        return ps[:2] + (frozenset(x for x in ps[2] if x[0] != loc) | {(loc, status)},) + ps[3:]

    def clean(self, ps, loc):
        return ps[:2] + (frozenset(x for x in ps[2] if x[0] != loc),) + ps[3:]

    def status(self, ps, loc):
        return next((s for l, s in ps[2] if l == loc), None)

    def snapshots(self, ps, loc, st):
        """called when loc is changed for the first time: remember the copies of it that exist"""
        out = set(ps[3])
        for k, v in st.heap.items():
            if k[0] == "cont" and isinstance(v, frozenset) and \
                    (self.copy_of(k, v) == loc if v else isinstance(k[2], tuple) and (loc, k[2][-2:]) in ps[5]):
                out.add((k, loc))
        return ps[:3] + (frozenset(out),) + ps[4:]

    @staticmethod
    def copy_of(cont, els):
        src = set()
        for el, facts in els:
            if el[0] == "kv":
                el = el[2] if el[2][0] == "elem" or el[2][0] == "s" else el
            if el[0] == "elem":
                base = el[1]
                if base[0] == "call" and call_name(base) in ("items", "values") and base[2] is not None:
                    base = base[2]
            else:
                return None
            if any(mentions(f if not (isinstance(f, tuple) and len(f) == 2 and isinstance(f[1], bool)) else f[0], el) for f in facts):
                return None
            src.add(base)
        return src.pop() if len(src) == 1 else None

    def is_copy(self, ps, value, loc):
        return (value, loc) in ps[3] or value[0] == "call" and value[1] == ("x", "l01.copy") and value[3] == (loc,)

    def touch(self, ps, loc, st):
        if self.status(ps, loc) is None:
            ps = self.snapshots(ps, loc, st)
        return ps

    def on_call(self, c, st, eng):
        ps = st.ps
        if c.name in COPIES and c.func is None:
            src = c.args[0] if len(c.args) == 1 else c.recv if c.name == "copy" and not c.args else None
            if src is not None and config_list(src, ps[4]) and self.status(ps, src) is None:
                return Take(normal=[(("call", ("x", "l01.copy"), None, (src,), ()), st)])
        if c.recv is not None and c.func is None and config_list(c.recv, ps[4]):
            loc = c.recv
            if c.name == "clear":
                ps = self.dirty(self.touch(ps, loc, st), loc, "empty")
                return Take(normal=[(NONE, st.with_ps(ps, f"{c.loc}: cleared"))])
            if c.name in GROW:
                if c.name == "extend" and self.status(ps, loc) == "empty" and len(c.args) == 1 and self.is_copy(ps, c.args[0], loc):
                    return Take(normal=[(NONE, st.with_ps(self.clean(ps, loc)))])
                if c.name == "setdefault" and len(c.args) == 2 and self.empty(c.args[1], st):
                    return None
                ps = self.dirty(self.touch(ps, loc, st), loc)
                return Take(normal=[(c.term(), st.with_ps(ps, f"{c.loc}: changed"))])
        if c.name == "save" and c.func is not None and c.func.qual in self.saving:
            self.saves += 1
            if ps[1]:
                self.ctx.finding("saved-after-failure", f"{self.entry.short}",
                                 f"{self.entry.short} writes the project file or lock although a step has failed", c.where, st.trace[-3:])
            s = st.with_ps((True,) + ps[1:])
            return Take(normal=[(NONE, s)], raises=[(("exc", None, None), st)])
        if self.working(c) and (c.func.qual in self.operations or not self.inlined_here(c.func)):
            self.ops += 1
            if ps[0]:
                self.ctx.finding("saved-too-early", f"{self.entry.short}:{c.name}",
                                 f"{self.entry.short} has already written the project file or lock when {c.name} runs, which may fail",
                                 c.where, st.trace[-3:])
            return Take(normal=[(c.term(), st)],
                        raises=[(("exc", None, None), st.with_ps(ps[:1] + (True,) + ps[2:], f"{c.loc}: {c.name} fails"))])
        return None

    def inlined_here(self, f):
        return not self.opaque(f)

    def empty(self, v, st):
        return v == ("g", "list") or v == ("g", "dict") or v[0] == "cont" and not st.heap.get(v) or v == ("tup", ())

    def on_aug(self, cur, op, value, st, node, fr, eng):
        if config_list(cur, st.ps[4]):
            return st.with_ps(self.dirty(self.touch(st.ps, cur, st), cur))
        return None

    def on_add(self, cont, value, st, node, fr, eng):
        # growing a list by a call the engine understands itself (extend of a generator …)
        if config_list(cont, st.ps[4]) and self.status(st.ps, cont) != "changed" and value is not None and \
                not isinstance(node, (ast.List, ast.Set, ast.Dict)):
            if cont[0] == "cont":
                return st.with_ps(self.dirty(st.ps, cont))
        return None

    def on_loop_done(self, it, st, node, fr, eng):
        if isinstance(node, (ast.ListComp, ast.DictComp, ast.GeneratorExp)) and len(node.generators) == 1 and \
                config_list(it, st.ps[4]) and self.status(st.ps, it) is None:
            # the list a comprehension makes of an empty list is a copy of it
            return st.with_ps(st.ps[:5] + (st.ps[5] | {(it, (node.lineno, node.col_offset))},))
        return None

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        ps = st.ps
        if kind == "attr" and key in FIELDS:
            loc = ("a", base, key)
            aloc = ("field", base, key)
            if self.status(ps, aloc) is None:
                ps = self.snapshots(ps, loc, st)
            if value == loc or self.is_copy(ps, value, loc):
                ps = self.clean(ps, aloc)
                if value != loc:
                    ps = self.clean(ps, loc)
            else:
                ps = self.dirty(ps, aloc)
            return st.with_ps(ps, f"{fr.func.module.rel}:{node.lineno}: {key} stored")
        if kind in ("sub", "delsub") and config_list(base, ps[4]):
            if kind == "sub" and self.empty(value, st):
                return st.with_ps(ps[:4] + (ps[4] | {value},) + ps[5:]) if value[0] == "cont" else None
            whole = key is not None and key[:2] == ("op", "slice") and all(x == NONE for x in key[2:])
            if kind == "sub" and whole and self.is_copy(ps, value, base):
                return st.with_ps(self.clean(ps, base))
            item = ("s", base, key) if key is not None else None
            if kind == "sub" and item is not None and (value == item or self.is_copy(ps, value, item)):
                return st.with_ps(self.clean(self.clean(ps, item), ("item", base, key)))
            ps = self.touch(ps, base, st)
            if kind == "sub" and base[0] == "a" and base[2] == "optional_dependencies":
                ps = self.snapshots(ps, item, st)
                ps = self.dirty(ps, ("item", base, key))
            else:
                ps = self.dirty(ps, base)
            return st.with_ps(ps, f"{fr.func.module.rel}:{node.lineno}: changed")
        return None


def dependency_read(p, ti, cfg, m):
    """where the method (or a function it calls with the configuration) reads the dependency lists of a project configuration"""
    def is_cfg(e, f):
        t = ti.expr_type(e, f)
        return bool(t and t[0] == "cls" and t[1] == cfg.qual)
    seen, work = set(), [m]
    while work:
        f = work.pop()
        if f.qual in seen:
            continue
        seen.add(f.qual)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and is_cfg(n.value, f):
                if n.attr in FIELDS:
                    return f"{f.module.rel}:{n.lineno}"
                g = p.find_method(cfg, n.attr)
                if g is not None:
                    work.append(g)
            elif isinstance(n, ast.Call) and any(is_cfg(a, f) for a in list(n.args) + [k.value for k in n.keywords]):
                g = ti.static_callee(n, f)
                if isinstance(g, FuncInfo):
                    work.append(g)
    return None


def name_of(loc):
    return loc[2] if loc[0] == "field" else show(loc, 2)


def check(ctx):
    p = program()
    ctx.rule("the project file and the lock are written only after the last step that may fail, and on no path after a failed step")
    ctx.rule("on every exceptional exit each changed dependency list was refilled from a copy taken before the change, "
             "each replaced list was put back")
    saves = {LOCK_SAVE, "pkm.config.configclass.ConfigFile.save"}
    for s in saves:
        ctx.need(p.funcs.get(s), s)
    operations = {q for q, f in p.funcs.items() if f.cls is not None and
                  (f.name in ("install_project", "update_at", "install_to") or
                   f.name in ("install", "uninstall", "force_remove") and f.cls.name in ("Environment", "PackageInstallationTarget"))
                  and not in_modules(f, "pkm_cli")}
    ConfigRule.operations, ConfigRule.saving_ = operations, saves
    both = reaching(p, {LOCK_SAVE}) & reaching(p, operations)
    entries = [p.funcs[q] for q in sorted(both) if in_modules(p.funcs[q], "pkm_cli.controllers", "pkm.api.projects.project")
               and p.funcs[q].parent is None]
    for f in entries:
        r = ConfigRule(ctx, f, saves)
        eng = Engine(r)
        out = eng.run(f, r.start())
        ctx.analysed(eng)
        ctx.count("operations")
        ctx.count("steps_that_may_fail", r.ops)
        ctx.count("saves", r.saves)
        ctx.count("changes_of_dependency_lists", r.changes)
        for e, st in out.exc:
            ctx.count("exceptional_exits_checked")
            bad = sorted({name_of(l) for l, s in st.ps[2]})
            if bad:
                ctx.finding("not-restored", f"{f.short}:{bad[0][:60]}",
                            f"{f.short} fails and leaves {', '.join(bad)[:120]} changed in memory", f.where, st.trace[-5:])
        ctx.sample(f"{f.short}: {len(out.exc)} exceptional exits")
    # (3) nothing computed from the lists is kept
    ctx.rule("no cached property of the project configuration is computed from the dependency lists")
    cfg = p.cls("pkm.api.projects.pyproject_configuration.ProjectConfig")
    ctx.need(cfg, "ProjectConfig")
    ti = types()
    for c in p.classes.values():
        if c.module.name.split(".")[0] not in LIBRARY:
            continue
        for m in c.methods.values():
            if not any(decorator_name(d).split(".")[-1] in ("cached_property", "lru_cache", "cache") for d in m.node.decorator_list):
                continue
            ctx.count("cached_values")
            what = dependency_read(p, ti, cfg, m)
            if what:
                ctx.finding("stale-value", f"{c.name}.{m.name}", f"{m.short} is cached although it is computed from the list of "
                            f"dependencies ({what}), which operations change and restore", m.where)
    ctx.at_least("operations", 2)
    ctx.at_least("saves", 2)
    ctx.at_least("exceptional_exits_checked", 2)
