"""I06: executing an installation plan.  One arbitrary planned package is followed through InstallationPlan.execute, once
for each operation it may have been planned with; what is called on it, how often and on which target is compared with
the operation.  The planned operations themselves are checked where they are computed, and the joining of the tasks is
checked for one arbitrary task of the list."""
from ..common import *

MOD = "pkm.api.packages.package_installation"
PLAN = MOD + ".InstallationPlan"
OPS = MOD + ".PackageOperation"
PROMISES = "pkm.utils.promises"
ACTION = {"INSTALL": "install_to", "UPDATE": "update_at", "REMOVE": "uninstall", "SKIP": None}
PKG = ("call", ("x", "@planned-package"), None, (), ())


def promise(i):
    return ("call", ("x", "@promise"), None, (("c", "int", i),), ())


class ExecRule(Rule):
    """ps: (operation, target of the plan, actions done, loops being in their single iteration,
            promise states ((ok | failed) per promise), awaited?, reloaded since, actions that failed)"""
    keep_all_facts = True
    max_states = 60
    max_depth = 10
    interesting = {"install_to", "update_at", "uninstall", "result", "when_completed", "reload"}

    def __init__(self, ctx, entry, prog):
        self.ctx, self.entry, self.prog = ctx, entry, prog
        self.actions = self.waits = 0
        self.slf = ("p", entry.qual, entry.params[0])

    def start(self):
        return (None, None, (), frozenset(), (), False, False, frozenset())

    def upd(self, st, **kw):
        names = ["op", "target", "run", "loops", "pr", "awaited", "reloaded", "errors"]
        ps = list(st.ps)
        for k, v in kw.items():
            ps[names.index(k)] = v
        return st.with_ps(tuple(ps))

    def opaque(self, f):
        return not in_modules(f, MOD, PROMISES, "pkm.utils.monitors", "pkm.api.packages.package_monitors",
                              "pkm.utils.sequences", "pkm.utils.iterators", "pkm.utils.dicts")

    def force_inline(self, f):
        return in_modules(f, MOD) or f.name == "with_async"

    def can_raise(self, c):
        return c.recv == PKG and c.name in ACTION.values()

    def tracked(self, t):
        return any(x == PKG or x[0] == "call" and x[1] == ("x", "@promise") for x in subterms(t))

    def carries(self, it, st):
        recs = st.heap.get(it)
        return isinstance(recs, frozenset) and len(recs) > 0 or self.tracked(it)

    def on_iter(self, iterable, el, st, node, fr, eng):
        if not self.carries(iterable, st):
            return None
        key = (fr.fid, node.lineno, node.col_offset)
        if key in st.ps[3]:
            return DEAD      # the collections followed here have exactly one tracked element
        return self.upd(st, loops=st.ps[3] | {key})

    def on_loop_done(self, iterable, st, node, fr, eng):
        if not self.carries(iterable, st):
            return None
        key = (fr.fid, node.lineno, node.col_offset)
        if key not in st.ps[3]:
            return DEAD
        return self.upd(st, loops=st.ps[3] - {key})

    def pnum(self, t):
        return t[3][0][2] if t is not None and t[0] == "call" and t[1] == ("x", "@promise") else None

    def new_promise(self, st, state):
        n = len(st.ps[4])
        s = self.upd(st, pr=st.ps[4] + (state,)).copy()
        s.facts[("truthy", promise(n))] = (True, True)
        s.facts[("isnone", promise(n))] = (False, True)
        return promise(n), s

    def run_into_promise(self, node, fn, args, kwargs, fr, st, eng):
        out, ex = [], []
        for _, s in eng.call(node, fn, args, kwargs, fr, st, ex):
            out.append(self.new_promise(s, "ok"))
        for e, s in ex:
            out.append(self.new_promise(s, "failed"))
        return out

    def on_call(self, c, st, eng):
        if c.name == "compute_operations_for_target" and (c.func is not None or c.recv == self.slf):
            return self.fork(c, st, eng)
        if c.recv == PKG and c.name in ACTION.values():
            self.actions += 1
            self.act(c, st)
            s = self.upd(st, run=st.ps[2] + (c.name,))
            f = self.upd(s, errors=frozenset({c.name}))
            return Take(normal=[(NONE, s)], raises=[(("exc", "Exception", None), f), (("exc", "OSError", None), f)])
        if c.recv == PKG or any(a == PKG for a in c.args) and c.name in ("isinstance", "hash", "str", "repr"):
            return None
        if c.name == "execute" and c.func is not None and in_modules(c.func, PROMISES):
            a = [x for x in c.args]
            if a and a[0][0] == "g":
                a = a[1:]
            if len(a) >= 2:
                return Take(normal=self.run_into_promise(c.node, a[1], a[2:], dict(c.kwargs), c.fr, st, eng))
        if c.name in ("submit", "execute") and c.func is None and c.args and c.recv is not None and \
                any(self.tracked(x) for x in c.all_args()):
            return Take(normal=self.run_into_promise(c.node, c.args[0], list(c.args[1:]), dict(c.kwargs), c.fr, st, eng))
        n = self.pnum(c.recv)
        if n is not None and c.name == "when_completed" and c.args:
            out, ex = [], []
            for _, s in eng.call(c.node, c.args[0], [c.recv], {}, c.fr, st, ex):
                out.append(self.new_promise(s, "ok"))
            for e, s in ex:
                out.append(self.new_promise(s, "failed"))
            return Take(normal=out)
        if n is not None and c.name == "result":
            self.waits += 1
            s = st
            if not (c.args and c.args[0] == FALSE) and c.kwargs.get("wait") != FALSE:
                s = self.upd(st, awaited=st.ps[5] or n == len(st.ps[4]) - 1)
            if st.ps[4][n] == "failed":
                return Take(raises=[(("exc", "Exception", None), s)])
            return Take(normal=[(NONE, s)])
        if c.func is not None and in_modules(c.func, PROMISES) and c.func.cls is None and c.name.startswith("await_all"):
            return self.await_all(c, st)
        if c.name == "reload" and c.recv is not None and st.ps[1] is not None and mentions(c.recv, st.ps[1]):
            return Take(normal=[(NONE, self.upd(st, reloaded=True))])
        return None

    def on_property(self, c, st, eng):
        if c.name == "site_packages" and c.recv is not None and st.ps[0] is not None:
            return Take(normal=[(("a", c.recv, c.name), st)])
        return None

    def await_all(self, c, st):
        lst = c.args[0] if c.args else None
        nums = set()
        if lst is not None:
            recs = st.heap.get(lst)
            for x in [lst] + ([r[0] for r in recs] if isinstance(recs, frozenset) else []):
                for y in subterms(x):
                    if self.pnum(y) is not None:
                        nums.add(self.pnum(y))
        if not nums:
            return Take(normal=[(NONE, st)], raises=[(("exc", "Exception", None), st)])
        self.waits += 1
        s = self.upd(st, awaited=st.ps[5] or len(st.ps[4]) - 1 in nums)
        ignore = c.arg(1, "ignore_error")
        if any(st.ps[4][n] == "failed" for n in nums) and ignore in (None, FALSE):
            return Take(raises=[(("exc", "Exception", None), s)])
        return Take(normal=[(NONE, s)], raises=[(("exc", "Exception", None), s)])

    def act(self, c, st):
        op, target = st.ps[0], st.ps[1]
        if c.name == ACTION[op]:
            if op != "REMOVE":
                t = c.arg(0, "target")
                if t != target:
                    self.ctx.finding("wrong-target", f"execute:{c.name}", f"{c.name} is called for {show(t) if t else 'no target'} "
                                     "but the operations were computed for another target", c.where)

    def fork(self, c, st, eng):
        target = c.arg(0, "target")
        if target is None:
            target = ("a", self.slf, "default_target")
        out = []
        eng.tmap[PKG] = ("cls", "pkm.api.packages.package.Package")
        for op in sorted(ACTION):
            cont, s = eng.new_cont("dict", c.node, c.fr, st)
            k = ("a", ("g", OPS), op)
            for v, s2 in eng.get_attr(("g", OPS), op, c.node, c.fr, s, []):
                s2 = eng.add(cont, ("kv", PKG, v), c.fr, s2, c.node)
                out.append((cont, self.upd(s2, op=op, target=target)))
        return Take(normal=out)


def check_execute(ctx, p):
    m = p.find_method(p.cls(PLAN), "execute")
    ctx.need(m, PLAN + ".execute")
    r = ExecRule(ctx, m, p)
    eng = Engine(r)
    out = eng.run(m, r.start())
    ctx.analysed(eng)
    ctx.count("actions_followed", r.actions)
    ctx.count("waits_followed", r.waits)
    exits = [("normal", st) for _, st in out.ret] + [("normal", st) for st in out.normal] + [("raise", st) for _, st in out.exc]
    seen = set()
    for how, st in exits:
        op, target, run, _, pr, awaited, reloaded, _ = st.ps
        if op is None:
            continue
        ctx.count("exits_checked")
        seen.add((op, how))
        want = ACTION[op]
        tr = st.trace[-4:]
        if want is None and run:
            ctx.finding("skipped-package-touched", "execute:SKIP", f"{run[0]} is called on a package that is planned to be skipped", m.where, tr)
        if any(a != want for a in run):
            ctx.finding("wrong-action", f"execute:{op}", f"a package planned to {op.lower()} gets {', '.join(run)}", m.where, tr)
        if how == "normal" and want is not None:
            if not run:
                ctx.finding("not-performed", f"execute:{op}", f"execute returns without performing the planned {op.lower()} of a package", m.where, tr)
            elif pr and not awaited:
                ctx.finding("not-awaited", f"execute:{op}", f"execute returns without waiting for the {op.lower()} it started", m.where, tr)
            if st.ps[7]:
                ctx.finding("error-swallowed", f"execute:{op}", f"a failing {op.lower()} is not reported by execute", m.where, tr)
        if len(run) > 1:
            ctx.finding("performed-twice", f"execute:{op}", f"{run[0]} is called {len(run)} times for one planned package", m.where, tr)
        if how == "raise" and pr and not awaited:
            ctx.finding("not-awaited", f"execute:{op}", f"execute raises without waiting for the {op.lower()} it started", m.where, tr)
        if run and not reloaded:
            ctx.finding("not-reloaded", f"execute:{how}", "the view of the installed packages is not reloaded after the plan was "
                        + ("executed" if how == "normal" else "executed with an error"), m.where, tr)
    for op in ("INSTALL", "UPDATE", "REMOVE"):
        ctx.need((op, "normal") in seen, f"a normal way through execute for {op}")


class AwaitRule(Rule):
    """one arbitrary promise of the list given to a function that waits for a list of promises
    ps: (finished or cancelled?, some promise failed?, loops that visited it, containers that hold it)"""
    keep_all_facts = True
    other_elements = True
    max_states = 60

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry
        self.waits = 0

    def start(self):
        return (False, False, frozenset(), frozenset())

    def force_inline(self, f):
        return in_modules(f, PROMISES) and f.cls is None

    def opaque(self, f):
        return not in_modules(f, PROMISES) or f.cls is not None

    def can_raise(self, c):
        return False

    def base(self):
        return ("p", self.entry.qual, self.entry.params[0])

    def mine(self, t):
        return t is not None and t == ("elem", self.base())

    def other(self, t):
        return t is not None and t == ("other", self.base())

    def holds(self, it, st):
        return it == self.base() or it in st.ps[3]

    def on_add(self, cont, value, st, node, fr, eng):
        if any(self.mine(x) for x in subterms(value)):
            return st.with_ps(st.ps[:3] + (st.ps[3] | {cont},))
        return None

    def on_iter(self, iterable, el, st, node, fr, eng):
        if not self.holds(iterable, st) or not any(self.mine(x) for x in subterms(el)):
            return None
        key = (fr.fid, node.lineno, node.col_offset)
        return DEAD if key in st.ps[2] else st.with_ps(st.ps[:2] + (st.ps[2] | {key},) + st.ps[3:])

    def on_loop_done(self, iterable, st, node, fr, eng):
        if not self.holds(iterable, st):
            return None
        key = (fr.fid, node.lineno, node.col_offset)
        if key not in st.ps[2]:
            return DEAD
        return st.with_ps(st.ps[:2] + (st.ps[2] - {key},) + st.ps[3:])

    def on_call(self, c, st, eng):
        if not (self.mine(c.recv) or self.other(c.recv)):
            return None
        fin, failed, vis, conts = st.ps
        me = self.mine(c.recv)
        if c.name == "result":
            self.waits += 1
            s = st.with_ps((fin or me, failed, vis, conts))
            e = st.with_ps((fin or me, True, vis, conts))
            wait = c.kwargs.get("wait", c.args[0] if c.args else TRUE)
            if wait != TRUE:    # does not wait: raises for a promise that is not completed
                early = st.with_ps((fin, True, vis, conts))
                return Take(normal=[(("call", ("x", "@value"), c.recv, (), ()), s)],
                            raises=[(("exc", x, None), y) for x in ("Exception", "OSError", "ValueError") for y in (e, early)])
            return Take(normal=[(("call", ("x", "@value"), c.recv, (), ()), s)], raises=[(("exc", "Exception", None), e), (("exc", "OSError", None), e)])
        if c.name == "request_cancel":
            return Take(normal=[(TRUE, st.with_ps((fin or me,) + st.ps[1:])), (FALSE, st)])
        return None


def check_await(ctx, p, f):
    r = AwaitRule(ctx, f)
    eng = Engine(r)
    out = eng.run(f, r.start())
    ctx.analysed(eng)
    ctx.count("waits_joined", r.waits)
    for how, st in [("returns", st) for _, st in out.ret] + [("returns", st) for st in out.normal] + [("raises", st) for _, st in out.exc]:
        ctx.count("await_exits_checked")
        if not st.ps[0]:
            ctx.finding("not-joined", f.short, f"{f.short} {how} although one of the promises may still be running", f.where, st.trace[-4:])
        if how == "returns" and st.ps[1]:
            ctx.finding("error-swallowed", f.short, f"{f.short} returns normally although a promise failed", f.where, st.trace[-4:])


class PlanRule(Rule):
    """where the operations are computed.
    ps: (containers made from the installed packages, loop over the planned packages finished with every one removed
    from them?, current iteration removed it?)"""
    keep_all_facts = True
    max_states = 60

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry
        self.slf = ("p", entry.qual, entry.params[0])
        self.stores = {}
        self.inst, self.plan = set(), set()     # containers filled from the installed / from the planned packages

    def start(self):
        return (None, None)

    def can_raise(self, c):
        return False

    def opaque(self, f):
        return not in_modules(f, MOD) or f.name in ("execute", "site_packages")

    def on_property(self, c, st, eng):
        if c.name in ("site_packages", "name_key", "version", "installation_info", "user_request", "descriptor", "package_name_key"):
            return Take(normal=[(("a", c.recv, c.name), st)])
        return None

    def installed(self, t, st):
        """t is (an element of) what was made from the installed packages"""
        return any(x in self.inst or x[0] == "call" and call_name(x) == "installed_packages" or
                   x[0] == "a" and x[2] == "installed_packages" for x in subterms(t))

    def planned(self, t, st):
        for x in subterms(t):
            if x == ("a", self.slf, "packages") or x in self.plan:
                return True
            recs = st.heap.get(x) if x[0] == "cont" and x not in self.inst else None
            if isinstance(recs, frozenset) and any(("a", self.slf, "packages") == y for r, _ in recs for y in subterms(r)):
                return True
        return False

    def classify(self, cont, v, st):
        if v is None or self.op_of(v) is not None or cont[0] != "cont":
            return
        if self.installed(v, st):
            self.inst.add(cont)
        elif self.planned(v, st):
            self.plan.add(cont)

    def op_of(self, v):
        for x in subterms(v) if v is not None else ():
            if x[0] == "g" and x[1].startswith(OPS + ".") or x[0] == "a" and x[1] == ("g", OPS):
                return (x[1].split(".")[-1] if x[0] == "g" else x[2])
        return None

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        if kind == "sub":
            self.classify(base, value, st)
            op = self.op_of(value)
            if op is not None:
                self.judge(op, key, st, f"{fr.func.module.rel}:{node.lineno}")
        if kind in ("delsub",) and self.installed(base, st) and key is not None and st.ps[0] is not None:
            return st.with_ps((True,) + st.ps[1:])
        return None

    def on_add(self, cont, value, st, node, fr, eng):
        self.classify(cont, value[2] if value[0] == "kv" else value, st)
        if value[0] == "kv":
            op = self.op_of(value[2])
            if op is not None:
                self.judge(op, value[1], st, f"{fr.func.module.rel}:{node.lineno}")
        return None

    def on_call(self, c, st, eng):
        if c.name == "pop" and c.recv is not None and self.installed(c.recv, st) and c.args and st.ps[0] is not None:
            st.ps = (True,) + st.ps[1:]
        return None

    def on_iter(self, iterable, el, st, node, fr, eng):
        if self.planned(iterable, st) and not self.installed(iterable, st) and isinstance(node, ast.For):
            return st.with_ps((False,) + st.ps[1:])
        return None

    def on_iter_end(self, iterable, el, st, node, fr, eng, filtered):
        if self.planned(iterable, st) and not self.installed(iterable, st) and isinstance(node, ast.For):
            popped, allp = st.ps
            return st.with_ps((None, bool(popped) if allp is None else allp and bool(popped)))
        return None

    def absent(self, st, yes):
        """a fact says that no package of the planned name is installed (yes) / that one is (not yes)"""
        for l, (pol, _) in st.facts.items():
            if l[0] == "isnone" and self.installed(l[1], st) and pol == yes:
                return True
            if l[0] == "truthy" and self.installed(l[1], st) and pol == (not yes) and not call_name(l[1]) in ("is_compatible_with",) and \
                    l[1][0] in ("call", "s", "elem"):
                return True
            if l[0] == "in" and self.installed(l[2], st) and pol == (not yes):
                return True
        # the table of installed packages is known to be empty
        return yes and any(st.heap.get(x) == frozenset() for x in self.inst)

    def judge(self, op, key, st, where):
        self.stores[op] = self.stores.get(op, 0) + 1
        e = "compute_operations_for_target"
        if op == "INSTALL" and not self.absent(st, True):
            self.ctx.finding("wrong-operation", f"{e}:INSTALL", "a package is planned to be installed without establishing that it "
                             "is not installed yet", where, st.trace[-3:])
        if op == "UPDATE" and not self.absent(st, False):
            self.ctx.finding("wrong-operation", f"{e}:UPDATE", "a package is planned to be updated without establishing that it is "
                             "installed", where, st.trace[-3:])
        if op == "SKIP":
            ok = any(l[0] == "eq" and pol and all(x[0] == "a" and x[2] == "version" or attrs_in(x) & {"version", "descriptor"} for x in l[1:3])
                     and self.installed(l[1], st) != self.installed(l[2], st) for l, (pol, _) in st.facts.items())
            if not ok or not self.absent(st, False):
                self.ctx.finding("wrong-operation", f"{e}:SKIP", "a package is planned to be skipped although the installed version "
                                 "may be another one", where, st.trace[-3:])
        if op == "REMOVE":
            neg = any(l[0] == "in" and not pol and self.planned(l[2], st) for l, (pol, _) in st.facts.items())
            if not self.installed(key, st):
                self.ctx.finding("wrong-operation", f"{e}:REMOVE", "a package is planned to be removed that is not one of the installed ones", where)
            elif st.ps[1] is not True and st.ps[1] is not None or st.ps[1] is None and not neg:
                if not neg and not (st.ps[1] is None and self.loop_ran_zero(st)):
                    self.ctx.finding("wrong-operation", f"{e}:REMOVE", "an installed package is planned to be removed although it may be "
                                     "one of the planned packages", where, st.trace[-3:])

    def loop_ran_zero(self, st):
        return True     # no planned package was visited: there is none


def check(ctx):
    p = program()
    ctx.rule("for each operation a package may be planned with: on every way through InstallationPlan.execute exactly the "
             "method the operation names is called on the package, once, for the target the operations were computed for; "
             "its promise is awaited and its failure raised; the site is reloaded afterwards")
    check_execute(ctx, p)
    ctx.rule("every function that waits for a list of promises leaves no promise of the list running, whichever of them fails, "
             "and raises when one failed")
    for name in ("await_all_promises_or_cancel",):
        f = p.funcs.get(f"{PROMISES}.{name}")
        if f is not None:
            check_await(ctx, p, f)
    ctx.rule("an operation is planned under the conditions its name states: skip only for an equal installed version, install "
             "only when nothing of the name is installed, update only when something is, remove only for the installed packages "
             "that remain after every planned one was taken out")
    m = p.find_method(p.cls(PLAN), "compute_operations_for_target")
    ctx.need(m, PLAN + ".compute_operations_for_target")
    r = PlanRule(ctx, m)
    eng = Engine(r)
    eng.run(m, r.start())
    ctx.analysed(eng)
    for op in ACTION:
        ctx.count("operations_planned", r.stores.get(op, 0))
    ctx.at_least("actions_followed", 3)
    ctx.at_least("exits_checked", 5)
    ctx.at_least("operations_planned", 4)
