"""B03: external wheel builds are marked as in progress, nested requests are refused, marks are cleared on every exit."""
from ..common import *

BUILD = "pkm.build.external_builders.build_wheel"


class MarkRule(Rule):
    base_exceptions = True
    keep_all_facts = True
    max_states = 60

    def __init__(self, ctx, entry, prog):
        self.ctx, self.entry, self.prog = ctx, entry, prog
        self.events = self.marks = 0

    # ps: (inherited: None unknown / False / name, mark: None or (dict, key), present: key found in progress,
    #      linked: frozenset of environments that carry the table, name of the attribute)
    def start(self):
        return (None, None, False, frozenset(), None)

    def opaque(self, f):
        m = self.entry.module
        return not (f.module is m or f.parent is not None or f.module.name.startswith("pkm.utils.dicts")) or \
            f.name == "_exec_build_cycle_script"

    def force_inline(self, f):
        return f.module is self.entry.module and f.name != "_exec_build_cycle_script" or f.module.name == "pkm.utils.dicts"

    def is_key(self, k):
        return k is not None and any(x[0] == "a" and x[2] == "descriptor" for x in subterms(k))

    def see(self, st, eng):
        """remember the outcome of `key in table` tests"""
        for lit, (pol, _) in list(st.facts.items()):
            if lit[0] == "in" and self.is_key(lit[1]) and st.ps[1] is None:
                if pol and not st.ps[2]:
                    st.ps = st.ps[:2] + ((lit[2], lit[1]),) + st.ps[3:]

    def fresh_allowed(self, st, eng):
        """no table is inherited: the lookup gave nothing or there is no environment to inherit from"""
        if st.ps[0] is False:
            return True
        for lit, (pol, _) in st.facts.items():
            if lit[1][0] == "p" and lit[1][1] == self.entry.qual and "env" in lit[1][2]:
                if lit[0] == "truthy" and not pol or lit[0] == "isnone" and pol:
                    return True
        return False

    def mark(self, st, d, k, where, eng):
        self.marks += 1
        v = eng.lit_value(("in", k, d), st)
        if v is not False:
            self.ctx.finding("unchecked-mark", self.entry.short, "a build is marked as in progress without testing that it is not "
                             "already in progress", where)
        if not (d[0] == "call" and d[1] == ("x", "@inherited")) and not self.fresh_allowed(st, eng):
            self.ctx.finding("not-inherited", self.entry.short, "the table of builds in progress of the requesting environment "
                             "is not consulted", where)
        return st.with_ps(st.ps[:1] + ((d, k),) + st.ps[2:])

    def unmark(self, st, d, k, where):
        m = st.ps[1]
        if m is not None and m == (d, k):
            return st.with_ps(st.ps[:1] + (None,) + st.ps[2:])
        if self.is_key(k) and m is None:
            self.ctx.finding("foreign-mark", self.entry.short, "removes the mark of a build it did not start", where)
        return st

    def on_call(self, c, st, eng):
        self.see(st, eng)
        if c.ext == "getattr" and len(c.args) >= 2 and c.args[1][0] in ("c", "g"):
            nm = const_str(c.args[1], self.prog)
            if nm is not None and "build" in nm:
                st0 = st.with_ps((False,) + st.ps[1:4] + (nm,))
                st1 = st.with_ps((nm,) + st.ps[1:4] + (nm,))
                t = ("call", ("x", "@inherited"), None, (c.args[0],), ())
                s1 = eng.assume_lit(st1, ("isnone", t), False)
                return Take(normal=[(c.arg(2) or NONE, st0)] + ([(t, s1)] if s1 is not None else []))
        if c.ext == "hasattr" and len(c.args) == 2:
            return None
        if c.ext == "setattr" and len(c.args) == 3 and st.ps[1] is not None and c.args[2] == st.ps[1][0]:
            nm = const_str(c.args[1], self.prog)
            if st.ps[4] is None or nm == st.ps[4]:
                return Take(normal=[(NONE, st.with_ps(st.ps[:3] + (st.ps[3] | {c.args[0]},) + st.ps[4:]))])
        if c.name in ("pop", "discard", "remove", "__delitem__") and c.recv is not None and c.args and self.is_key(c.args[0]):
            s = self.unmark(st, c.recv, c.args[0], c.where)
            if s is not st:
                return Take(normal=[(c.term(), s)])
        if c.name == "clear" and c.recv is not None and st.ps[1] is not None and c.recv == st.ps[1][0]:
            self.ctx.finding("foreign-mark", self.entry.short, "clears the marks of enclosing builds", c.where)
        if c.name == "setdefault" and c.args and self.is_key(c.args[0]):
            out = []
            v = eng.lit_value(("in", c.args[0], c.recv), st)
            if v is not True:
                s = eng.assume_lit(st.copy(), ("in", c.args[0], c.recv), False)
                out.append((c.arg(1) or NONE, self.mark(s, c.recv, c.args[0], c.where, eng)))
            if v is not False:
                s = st.with_ps(st.ps[:2] + ((c.recv, c.args[0]),) + st.ps[3:])
                out.append((("unk", ("setdefault", c.loc)), s))
            return Take(normal=out)
        # anything that runs in, or installs into, an environment created for the build
        envs = [t for t in [c.recv] + list(c.args) if t is not None and self.build_env(t, eng, st)]
        if envs and c.ext not in ("setattr", "getattr", "str", "print"):
            self.events += 1
            where = c.where
            if st.ps[1] is None:
                self.ctx.finding("not-marked", f"{self.entry.short}:{c.name}", f"{c.name} runs for a build that is not marked as in progress", where)
            elif not (set(envs) & st.ps[3]):
                self.ctx.finding("not-handed-down", f"{self.entry.short}:{c.name}",
                                 f"{c.name} uses a build environment that does not know which builds are in progress", where)
        return None

    def build_env(self, t, eng, st):
        if t[0] == "call" and call_name(t) in ("create", "create_environment"):
            return True
        return False

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        where = f"{fr.func.module.rel}:{node.lineno}"
        if kind == "sub" and self.is_key(key):
            return self.mark(st, base, key, where, eng)
        if kind == "delsub" and self.is_key(key):
            return self.unmark(st, base, key, where)
        if kind == "attr" and st.ps[1] is not None and value == st.ps[1][0]:
            if st.ps[4] is None or key == st.ps[4]:
                return st.with_ps(st.ps[:3] + (st.ps[3] | {base},) + st.ps[4:])
        return None

    def on_add(self, cont, value, st, node, fr, eng):
        if self.is_key(value) and not (isinstance(cont, tuple) and cont and cont[0] in ("yield",)):
            return self.mark(st, cont, value, f"{fr.func.module.rel}:{node.lineno}", eng)
        return None

    def can_raise(self, c):
        return not (c.name in ("keys",) or c.ext in ("setattr",))


def const_str(t, prog):
    if t[0] == "c":
        return t[2] if isinstance(t[2], str) else None
    if t[0] == "g":
        mn, _, n = t[1].rpartition(".")
        m = prog.modules.get(mn)
        if m is not None:
            for s in m.tree.body:
                if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == n for x in s.targets) and \
                        isinstance(s.value, ast.Constant):
                    return s.value.value
    return None


def check(ctx):
    p = program()
    f = p.funcs.get(BUILD)
    ctx.need(f, BUILD)
    ctx.rule("on every path: nothing runs in a build environment before the project is entered into the table of builds in "
             "progress (inherited from the requesting environment, tested for an existing entry, handed to the build "
             "environment); the entry is removed on every exit and only by the build that made it")
    r = MarkRule(ctx, f, p)
    eng = Engine(r)
    out = eng.run(f, r.start())
    ctx.analysed(eng)
    ctx.count("uses_of_build_environments", r.events)
    ctx.count("marks", r.marks)
    for how, s in [("returns", s) for _, s in out.ret] + [("returns", s) for s in out.normal] + \
            [("is interrupted" if e[1] == "@Base" else "raises", s) for e, s in out.exc]:
        ctx.count("exits_checked")
        if s.ps[1] is not None:
            ctx.finding("mark-left", f.short, f"{f.short} {how} and the project stays marked as being built", f.where, s.trace[-3:])
        if s.ps[2] and how == "returns":
            ctx.finding("cycle-not-reported", f.short, f"{f.short} returns normally although the build is already in progress", f.where)
    ctx.at_least("uses_of_build_environments", 2)
    ctx.at_least("marks", 1)
    ctx.at_least("exits_checked", 3)
