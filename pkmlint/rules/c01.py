"""C01: promises.  (1) the promise class as a monitor: completing and failing store the outcome once under the lock, wake
every waiter and run every registered callback; waiting returns only a stored outcome and raises a stored error;
registering a callback is decided under the same lock.  (2) the places that run work on behalf of a promise: from taking
the work to leaving it, every path - whatever the work raises - completes or fails the promise exactly once."""
from ..common import *
from .b02 import Flow

PROMISES = "pkm.utils.promises"
POOL = "pkm.utils.multiproc"
LISTENERS = ("call", ("x", "@listeners"), None, (), ())


def call_name_full(t):
    return t[1][1] if t[0] == "call" and isinstance(t[1][1], str) else None


class Anchors:
    def __init__(self, ctx):
        p = program()
        self.cls = None
        base = p.classes.get(PROMISES + ".Promise")
        ctx.need(base, PROMISES + ".Promise")
        for c in p.classes.values():
            if c is not base and p.is_subclass(c.qual, base.qual) and "result" in c.methods and lock_attrs(c):
                self.cls = c
        ctx.need(self.cls, "the class that implements promises with a lock")
        self.locks = lock_attrs(self.cls)
        self.completers = []
        flags = {}
        for m in self.cls.methods.values():
            if m.name == "__init__":
                continue
            for n in walk_own(m.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and n.value.value is True:
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == m.params[0]:
                            flags.setdefault(t.attr, []).append(m)
        ctx.need(flags, "the flag that says that a promise is done")
        self.flag = max(flags, key=lambda k: len(flags[k]))
        setters = {m.name for m in flags[self.flag]}
        # the methods the outside calls to complete or fail (not helpers they share)
        def calls(m):
            return {n.func.attr for n in ast.walk(m.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)}
        ms = [m for m in self.cls.methods.values() if m.name != "__init__"]
        reach = set(setters)
        while True:
            new = {m.name for m in ms if m.name not in reach and calls(m) & reach}
            if not new:
                break
            reach |= new
        outside = set()
        for f in p.funcs.values():
            if f.cls is not self.cls and outermost(f).cls is not self.cls:
                outside |= {n.func.attr for n in walk_own(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)}
        self.completers = [m for m in ms if m.name in reach and m.name in outside]
        ctx.need(self.completers, "the methods that complete and fail a promise")
        self.names = {m.name for m in self.completers}
        d = p.classes.get(PROMISES + ".Deferred")
        self.deferred = d
        self.dnames = {m.name for m in d.methods.values() if calls(m) & self.names} if d else set()
        self.stores, self.err_attr = {}, None      # method -> attribute -> positions of the arguments stored there

    def outcome_args(self, c):
        """(errors, results) a call that completes or fails a promise stores"""
        names = {c.name}
        if c.name not in self.stores and self.deferred is not None and c.name in self.deferred.methods:
            names = {n.func.attr for n in ast.walk(self.deferred.methods[c.name].node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)} & self.names
        errs, ress = [], []
        for n in names:
            m = next((x for x in self.completers if x.name == n), None)
            for attr, idx in self.stores.get(n, {}).items():
                for i in idx:
                    v = c.arg(i, m.params[i + 1])
                    if v is not None and v != NONE:
                        (errs if attr == self.err_attr else ress).append(v)
        return errs, ress

    def check_outcome(self, ctx, entry, c, raised):
        if self.err_attr is None or not self.stores:
            return
        errs, ress = self.outcome_args(c)
        ctx.count("outcomes_checked")
        if raised and not errs:
            ctx.finding("error-lost", f"{entry.short}:{c.name}", "an error of the work ends in the promise as a result", c.where)
        elif not raised and (errs or not any(call_name(x) in ("@value", "@callback-value") for r in ress for x in subterms(r))):
            ctx.finding("outcome-lost", f"{entry.short}:{c.name}", "what the work returned is not what the promise is completed with", c.where)


class Monitor(Rule):
    """ps: (locks held, done?, notified?, all callbacks called?, one being called, stored attributes)"""
    keep_all_facts = True
    max_states = 60

    def __init__(self, ctx, a, entry):
        self.ctx, self.a, self.entry = ctx, a, entry
        self.slf = ("p", entry.qual, entry.params[0])
        self.events = 0
        self.listener_attrs = set()

    def start(self):
        return (0, False, False, False, None, frozenset())

    def set(self, st, i, v):
        ps = list(st.ps)
        ps[i] = v
        return st.with_ps(tuple(ps))

    def can_raise(self, c):
        return False

    def is_lock(self, t):
        return t is not None and t[0] == "a" and t[1] == self.slf and t[2] in self.a.locks

    def force_inline(self, f):
        return f.cls is self.a.cls and f.parent is None

    def on_with(self, node, fr, term, st, eng):
        if self.is_lock(term):
            return self.set(self.others(st, eng), 0, st.ps[0] + 1), (lambda kind, x: self.set(x, 0, x.ps[0] - 1)), term
        return None

    def where(self, fr, node):
        return f"{fr.func.module.rel}:{node.lineno}"

    def flag_value(self, st, eng):
        return eng.lit_value(("truthy", ("a", self.slf, self.a.flag)), st)

    def others(self, st, eng):
        """between releasing and getting the lock others may have completed the promise"""
        if self.flag_value(st, eng) is True:
            return st
        s = st.copy()
        for l in [l for l in s.facts if any(mentions(x, self.slf) for x in l[1:] if x != self.slf)]:
            del s.facts[l]
        for k in [k for k, v in s.heap.items() if isinstance(k, tuple) and k[0] == "fld" and k[1] == self.slf and v != LISTENERS]:
            del s.heap[k]
        return s

    def on_load(self, base, key, st, node, fr, eng):
        if base == LISTENERS and isinstance(getattr(node, "slice", None), ast.Slice):
            sl = node.slice
            if sl.lower is None and sl.upper is None:
                return Take(normal=[(LISTENERS, st)])
        return None

    def on_call(self, c, st, eng):
        if self.is_lock(c.recv):
            if c.name == "acquire":
                return Take(normal=[(TRUE, self.set(self.others(st, eng), 0, st.ps[0] + 1))])
            if c.name == "release":
                return Take(normal=[(NONE, self.set(st, 0, st.ps[0] - 1))])
            if c.name == "notify_all" and st.ps[0]:
                self.events += 1
                return Take(normal=[(NONE, self.set(st, 2, True))])
            if c.name in ("wait", "wait_for"):
                self.events += 1
                v = self.flag_value(st, eng)
                if not st.ps[0] or v is not False and c.name == "wait":
                    self.ctx.finding("lost-wake-up", f"{self.entry.short}:{c.name}", "waits without having checked under the lock that "
                                     "the promise is not done: a completion in between is missed", c.where)
                s = self.others(st, eng)
                if c.name == "wait_for" and c.args:
                    take = Take(normal=[], raises=[])
                    for v, x in eng.call(c.node, c.args[0], [], {}, c.fr, s, take.raises):
                        y = eng.assume(x, v, True)
                        take.normal += [(TRUE, y)] if y is not None else []
                    return take
                return Take(normal=[(("unk", ("waited", c.loc)), s)])
        if c.recv is None and c.name in ("list", "tuple", "iter", "reversed") and c.args == [LISTENERS] or \
                c.name in ("copy", "__iter__") and c.recv == LISTENERS:
            return Take(normal=[(LISTENERS, st)])
        if c.fterm == ("elem", LISTENERS):
            self.events += 1
            if st.ps[0]:
                self.ctx.finding("callback-under-lock", self.entry.short, "a callback runs while the lock of the promise is held: it "
                                 "cannot use the promise without blocking forever", c.where)
            return Take(normal=[(NONE, self.set(st, 4, True))])
        return self.on_other_call(c, st, eng)

    def on_other_call(self, c, st, eng):
        return None

    def on_iter(self, iterable, el, st, node, fr, eng):
        if iterable == LISTENERS:
            return self.set(st, 4, False)
        return None

    def on_iter_end(self, iterable, el, st, node, fr, eng, filtered):
        if iterable == LISTENERS:
            return self.set(self.set(st, 5, st.ps[5] | (frozenset() if st.ps[4] else {"@missed"})), 4, None)
        return None

    def on_loop_done(self, iterable, st, node, fr, eng):
        if iterable == LISTENERS:
            return self.set(st, 3, True)
        return None

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        if kind != "attr" or base != self.slf:
            return None
        if key == self.a.flag and value == TRUE:
            self.events += 1
            if not st.ps[0]:
                self.ctx.finding("unlocked", f"{self.entry.short}:{key}", "a promise is marked as done without holding its lock", self.where(fr, node))
            elif self.flag_value(st, eng) is not False:
                self.ctx.finding("completed-twice", f"{self.entry.short}:{key}", "a promise is marked as done without testing that it is "
                                 "not done already", self.where(fr, node))
            return self.set(st, 1, True)
        if key in self.listener_attrs:
            return None
        if value is not None:
            for prm in self.entry.params[1:]:
                if mentions(value, ("p", self.entry.qual, prm)):
                    self.a.stores.setdefault(self.entry.name, {}).setdefault(key, set()).add(self.entry.params.index(prm) - 1)
        if not st.ps[0]:
            self.ctx.finding("unlocked", f"{self.entry.short}:{key}", f"{key} of a promise is changed without holding its lock", self.where(fr, node))
        return self.set(st, 5, st.ps[5] | {key})


class Register(Monitor):
    """when_completed: ps[4]: the callback was called / registered; ps[5]: outcome terms"""

    def __init__(self, ctx, a, entry, order=None):
        super().__init__(ctx, a, entry)
        self.cb = ("p", entry.qual, entry.params[1])
        self.registered = set()
        self.closures_checked = 0

    def opaque(self, f):
        return f.cls is not None and f.cls is not self.a.cls

    def on_add(self, cont, value, st, node, fr, eng):
        if cont[0] == "a" and cont[1] == self.slf:
            self.registered.add(cont[2])
            self.events += 1
            if not st.ps[0] or self.flag_value(st, eng) is not False:
                self.ctx.finding("callback-lost", self.entry.short, "a callback is registered without having checked under the lock that "
                                 "the promise is not done yet: it may never run", self.where(fr, node))
            ds = self.run_closure(value, st, node, fr, eng)
            return self.set(st, 5, st.ps[5] | {("registered", d) for d in ds})
        return None

    def run_closure(self, fn, st, node, fr, eng):
        """what registering fn does later: calls the callback with the promise and completes or fails a deferred"""
        self.closures_checked += 1
        ex = []
        inner = self.set(self.set(st, 0, 0), 5, frozenset())
        done = set()
        for s, how in [(s, "ends") for _, s in eng.call(node, fn, [], {}, fr, inner, ex)] + [(s, "raises") for _, s in ex]:
            comp = {x for x in s.ps[5] if isinstance(x, tuple) and x[0] == "completed"}
            if ("called",) not in s.ps[5]:
                self.ctx.finding("callback-lost", f"{self.entry.short}:callback", "what is registered to run on completion does not call "
                                 "the given callback", self.where(fr, node))
            if not comp:
                self.ctx.finding("never-completed", f"{self.entry.short}:callback", f"the registered callback {how} without completing or "
                                 "failing the promise that was returned for it", self.where(fr, node))
            done |= {x[1] for x in comp}
        return done

    def on_other_call(self, c, st, eng):
        if c.fterm == self.cb:
            self.events += 1
            if st.ps[0]:
                self.ctx.finding("callback-under-lock", self.entry.short, "a callback runs while the lock of the promise is held: it "
                                 "cannot use the promise without blocking forever", c.where)
            s = self.set(st, 5, st.ps[5] | {("called",)})
            x = self.set(st, 5, st.ps[5] | {("called",), ("raised",)})
            v = ("call", ("x", "@callback-value"), None, (), ())
            return Take(normal=[(v, s)], raises=[(("exc", None, None), x), (("exc", "@Base", None), x)])
        if c.recv is not None and c.name in self.a.dnames | self.a.names and (c.func is None or c.func.cls in (self.a.deferred, self.a.cls)) and \
                c.recv != self.slf:
            self.a.check_outcome(self.ctx, self.entry, c, ("raised",) in st.ps[5])
            return Take(normal=[(NONE, self.set(st, 5, st.ps[5] | {("completed", c.recv)}))])
        if c.name == "create_completed":
            self.events += 1
            err, res = c.arg(1, "err"), c.arg(0, "result")
            if ("raised",) in st.ps[5] and (err is None or err == NONE):
                self.ctx.finding("error-lost", self.entry.short, "an error of the callback ends in the returned promise as a result", c.where)
            elif ("raised",) not in st.ps[5] and (err is not None and err != NONE or res is None or not any(call_name(x) == "@callback-value" for x in subterms(res))):
                self.ctx.finding("outcome-lost", self.entry.short, "what the callback returned is not the result of the returned promise", c.where)
            return Take(normal=[(("call", ("x", "@completed"), None, tuple(c.all_args()), ()), st)])
        return None


class Wait(Monitor):
    """result()"""

    def exits(self, eng, out):
        err = None
        for t, st in out.ret:
            self.ctx.count("exits_checked")
            if self.flag_value(st, eng) is not True:
                self.ctx.finding("early-result", self.entry.short, "waiting may end although the promise is not done", self.entry.where, st.trace[-3:])
            elif not (t[0] == "a" and t[1] == self.slf):
                self.ctx.finding("wrong-result", self.entry.short, f"waiting returns {show(t)}, which is not the stored result", self.entry.where)
            elif not any(l[0] in ("truthy", "isnone") and l[1][0] == "a" and l[1][1] == self.slf and l[1][2] not in (self.a.flag, t[2])
                         and pol == (l[0] == "isnone") for l, (pol, _) in st.facts.items()):
                self.ctx.finding("error-lost", self.entry.short, "waiting returns normally without having checked that no error is stored",
                                 self.entry.where, st.trace[-3:])
        raised = False
        for e, st in out.exc:
            self.ctx.count("exits_checked")
            errs = [x for x in subterms(e) if x[0] == "a" and x[1] == self.slf]
            if errs and self.flag_value(st, eng) is True:
                raised = True
                self.a.err_attr = errs[0][2]
                if not any(l[0] in ("truthy", "isnone") and l[1] in errs and pol == (l[0] == "truthy") for l, (pol, _) in st.facts.items()):
                    self.ctx.finding("wrong-result", self.entry.short, "waiting may raise the stored error although none is stored", self.entry.where, st.trace[-3:])
            elif not any(l[0] == "truthy" and not pol and l[1][0] == "p" and l[1] != self.slf or l[0] in ("eq", "lt") and any(x[0] == "p" and x != self.slf for x in l[1:])
                         or l[0] == "truthy" and not pol and call_name(l[1]) in ("wait", "wait_for") for l, (pol, _) in st.facts.items()):
                self.ctx.finding("early-result", self.entry.short, f"waiting may end with {show(e)}, which is not the stored error, whatever was asked for",
                                 self.entry.where, st.trace[-3:])
        return raised


def check_monitor(ctx, a):
    p = program()
    res = p.find_method(a.cls, "result")
    r = Wait(ctx, a, res)
    eng = Engine(r)
    out = eng.run(res, r.start())
    ctx.analysed(eng)
    ctx.count("monitor_events", r.events)
    if not r.exits(eng, out):
        ctx.finding("error-lost", res.short, "waiting never raises the error a promise failed with", res.where)
    for m in a.completers:
        q = Monitor(_Quiet(), a, m)     # which argument is stored where
        Engine(q).run(m, q.start())
    # registering decides which attribute holds the callbacks
    reg = p.find_method(a.cls, "when_completed")
    ctx.need(reg, "when_completed")
    r = Register(ctx, a, reg)
    r.base_exceptions = True
    eng = Engine(r)
    out = eng.run(reg, r.start())
    ctx.analysed(eng)
    ctx.count("monitor_events", r.events)
    ctx.count("registered_closures", r.closures_checked)
    ctx.need(r.registered, "the collection of registered callbacks")
    for t, st in out.ret:
        ctx.count("exits_checked")
        tags = {x for x in st.ps[5] if isinstance(x, tuple)}
        regs = {x[1] for x in tags if x[0] == "registered"}
        if ("called",) in tags:
            if regs:
                ctx.finding("callback-twice", reg.short, "the callback is called and also registered", reg.where)
            if t == NONE:
                ctx.finding("error-lost", reg.short, "no promise is returned for a callback that was called", reg.where, st.trace[-3:])
        elif not regs:
            ctx.finding("callback-lost", reg.short, "a callback is neither called nor registered", reg.where, st.trace[-3:])
        elif not any(mentions(t, d) for d in regs):
            ctx.finding("wrong-promise", reg.short, "the returned promise is not the one the registered callback completes", reg.where)
    for e, st in out.exc:
        if ("called",) in st.ps[5]:
            ctx.finding("error-lost", reg.short, "an error of the callback is raised to whoever registers it instead of being stored in the "
                        "returned promise", reg.where)
    for m in a.completers:
        r = Monitor(ctx, a, m)
        r.listener_attrs = reg_attrs = r_registered(ctx, a, reg)
        eng = Engine(r)
        heap = {("fld", r.slf, x): LISTENERS for x in reg_attrs}
        out = eng.run(m, r.start(), heap=heap)
        ctx.analysed(eng)
        ctx.count("monitor_events", r.events)
        for how, st in [("returns", st) for _, st in out.ret] + [("raises", st) for _, st in out.exc]:
            ctx.count("exits_checked")
            locked, done, notified, called, _, stored = st.ps
            if locked:
                ctx.finding("lock-kept", m.short, f"{m.short} {how} with the lock held", m.where)
            if not done:
                if how == "returns":
                    ctx.finding("never-done", m.short, f"{m.short} returns without marking the promise as done", m.where, st.trace[-3:])
                elif r.flag_value(st, eng) is not True and not any(l[0] == "isnone" and pol and l[1][0] == "p" and l[1][2] in m.params[1:]
                                                                     and m.params.index(l[1][2]) - 1 in a.stores.get(m.name, {}).get(a.err_attr, ()) for l, (pol, _) in st.facts.items()):
                    ctx.finding("never-done", m.short, f"{m.short} can refuse an outcome although the promise is not done yet", m.where, st.trace[-3:])
                continue
            if not notified:
                ctx.finding("not-notified", m.short, f"{m.short} {how} without waking everybody who waits for the promise", m.where)
            if not called or "@missed" in stored:
                ctx.finding("callback-lost", m.short, f"{m.short} {how} without running every registered callback", m.where, st.trace[-3:])
            if not stored - {"@missed"}:
                ctx.finding("outcome-lost", m.short, f"{m.short} marks the promise as done without storing an outcome", m.where)


def r_registered(ctx, a, reg):
    r = Register(_Quiet(), a, reg)
    eng = Engine(r)
    eng.run(reg, r.start())
    return r.registered


class _Quiet:
    def __getattr__(self, item):
        return lambda *x, **k: None


class Work(Rule):
    """ps: (state of the work in hand: None / taken / settled, term of the work)"""
    base_exceptions = True
    keep_all_facts = True
    max_states = 60
    interesting = {"complete", "fail", "get", "attach_worker"}

    def __init__(self, ctx, a, entry):
        self.ctx, self.a, self.entry = ctx, a, entry
        self.taken = self.settled = 0

    def start(self):
        return (None, None)

    def opaque(self, f):
        return not (f.module is self.entry.module) or f.name in ("kill", "_should_terminate", "_removed_worker", "join")

    def force_inline(self, f):
        return f.module is self.entry.module and not self.opaque(f)

    def can_raise(self, c):
        return c.name not in ("task_done",)

    def on_call(self, c, st, eng):
        if c.name in ("get", "get_nowait") and c.recv is not None and not (c.args and c.args[0][0] != "c") and self.is_queue(c.recv, eng, st):
            self.taken += 1
            if st.ps[0] == "taken":
                self.ctx.finding("never-completed", f"{self.entry.short}", "the next piece of work is taken although the promise of the "
                                 "one before was neither completed nor failed", c.where, st.trace[-4:])
            t = ("call", ("x", "@work"), None, (), ())
            taken = st.with_ps(("taken", t))
            for n in ast.walk(self.entry.module.tree):
                # what hangs off the work does not change when the work is taken apart
                if isinstance(n, ast.Attribute):
                    taken.heap[("fld", t, n.attr)] = ("call", ("x", "@work." + n.attr), None, (), ())
            return Take(normal=[(t, taken)], raises=[(("exc", "queue.Empty", None), st.with_ps((None, None))),
                                                                         (("exc", "@Base", None), st.with_ps((None, None)))])
        if c.recv is not None and c.name in self.a.dnames and st.ps[1] is not None and any((call_name_full(x) or "").startswith("@work.") for x in subterms(c.recv)):
            self.settled += 1
            if st.ps[0] == "settled":
                self.ctx.finding("completed-twice", self.entry.short, "the promise of a piece of work is completed or failed twice", c.where)
            self.outcome(c, st, eng)
            return Take(normal=[(NONE, st.with_ps(("settled", st.ps[1])))])
        return None

    def outcome(self, c, st, eng):
        """an answer that carries an error is not delivered as a result"""
        if c.name != "complete" or not c.args:
            return
        for x in subterms(c.args[0]):
            if x[0] == "a" and x[2] == "result":
                ok = any(l[0] in ("truthy", "isnone") and l[1][0] == "a" and l[1][1] == x[1] and "err" in l[1][2] and pol == (l[0] == "isnone")
                         for l, (pol, _) in st.facts.items())
                if not ok:
                    self.ctx.finding("error-lost", self.entry.short, "the answer of a worker is delivered as a result without checking "
                                     "whether it is an error", c.where)

    def is_queue(self, t, eng, st):
        ty = eng.type_of(t, st)
        return bool(ty) and "ueue" in str(ty) or "queue" in str(t).lower()


def check_work(ctx, a):
    p = program()
    entries = set()
    for f in p.funcs.values():
        if not f.module.name.startswith("pkm.utils"):
            continue
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and (dotted(n.func) or "").split(".")[-1] == "Thread":
                for k in n.keywords:
                    if k.arg == "target" and isinstance(k.value, ast.Attribute) and f.cls is not None:
                        m = p.find_method(f.cls, k.value.attr)
                        if m is not None:
                            entries.add(m)
    users = {f.qual for f in p.funcs.values() if f.module.name.startswith(POOL) and any(
        isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in a.dnames for n in walk_own(f.node))}
    reach = reaching(p, users)
    entries = [e for e in entries if e.qual in reach]
    ctx.need(entries, "the thread that works off the queue of tasks")
    for e in sorted(entries, key=lambda f: f.qual):
        r = Work(ctx, a, e)
        eng = Engine(r)
        out = eng.run(e, r.start())
        ctx.analysed(eng)
        ctx.count("work_taken", r.taken)
        ctx.count("work_settled", r.settled)
        for how, st in [("returns", st) for _, st in out.ret] + [("raises", st) for _, st in out.exc]:
            ctx.count("exits_checked")
            if st.ps[0] == "taken":
                ctx.finding("never-completed", e.short, f"{e.short} {how} with a piece of work in hand whose promise is neither completed "
                            "nor failed", e.where, st.trace[-4:])


class Wrapped(Rule):
    """Promise.execute and the promise around a future
    ps: (work called?, future the callback was attached to, settled?)"""
    base_exceptions = True
    keep_all_facts = True
    max_states = 60

    def __init__(self, ctx, a, entry):
        self.ctx, self.a, self.entry = ctx, a, entry
        self.callbacks = self.work = 0

    def start(self):
        return (False, False, False)     # … , has it raised?

    def opaque(self, f):
        return not in_modules(f, PROMISES)

    def force_inline(self, f):
        return in_modules(f, PROMISES) and f.name not in self.a.names

    def can_raise(self, c):
        return False

    def on_call(self, c, st, eng):
        if c.name == "add_done_callback" and c.args:
            self.callbacks += 1
            ex = []
            fu = ("call", ("x", "@future"), None, (), ())
            for how, s in [("ends", s) for _, s in eng.call(c.node, c.args[0], [fu], {}, c.fr, st.with_ps((False, False, False)), ex)] + \
                    [("raises", s) for _, s in ex]:
                if not s.ps[1]:
                    self.ctx.finding("never-completed", f"{self.entry.short}:done-callback", f"the callback of a finished future {how} "
                                     "without completing or failing the promise", c.where)
            return Take(normal=[(NONE, st)])
        if c.name in self.a.names and (c.func is None or c.func.cls is self.a.cls):
            self.a.check_outcome(self.ctx, self.entry, c, st.ps[2])
            return Take(normal=[(NONE, st.with_ps((st.ps[0], True, st.ps[2])))])
        if c.name in self.a.dnames and c.recv is not None and c.func is not None and c.func.cls is self.a.deferred:
            self.a.check_outcome(self.ctx, self.entry, c, st.ps[2])
            return Take(normal=[(NONE, st.with_ps((st.ps[0], True, st.ps[2])))])
        if c.fterm[0] == "p" and c.recv is None or c.fterm[0] == "clos" and False:
            self.work += 1
            s, x = st.with_ps((True, st.ps[1], False)), st.with_ps((True, st.ps[1], True))
            return Take(normal=[(("call", ("x", "@value"), None, (), ()), s)], raises=[(("exc", None, None), x), (("exc", "@Base", None), x)])
        if c.name == "result" and c.recv is not None and call_name(c.recv) == "@future":
            x = st.with_ps((st.ps[0], st.ps[1], True))
            return Take(normal=[(("call", ("x", "@value"), None, (), ()), st)], raises=[(("exc", None, None), x), (("exc", "@Base", None), x)])
        return None


def check_wrapped(ctx, a):
    p = program()
    base = p.classes[PROMISES + ".Promise"]
    ex = p.find_method(base, "execute")
    ctx.need(ex, "Promise.execute")
    r = Wrapped(ctx, a, ex)
    eng = Engine(r)
    out = eng.run(ex, r.start())
    ctx.analysed(eng)
    ctx.count("work_called_directly", r.work)
    for e, st in out.exc:
        ctx.count("exits_checked")
        if st.ps[0]:
            ctx.finding("error-lost", ex.short, "an error of the work is raised to whoever starts it instead of being stored in the promise",
                        ex.where, st.trace[-3:])
    for t, st in out.ret:
        ctx.count("exits_checked")
        if t == NONE:
            ctx.finding("no-promise", ex.short, "no promise is returned for started work", ex.where)
        elif st.ps[0] and not st.ps[1]:
            ctx.finding("never-completed", ex.short, "the promise of work that was executed directly is not completed", ex.where, st.trace[-3:])
    for c in p.classes.values():
        if c is not a.cls and p.is_subclass(c.qual, base.qual) and "__init__" in c.methods and c.module.name == PROMISES:
            m = c.methods["__init__"]
            r2 = Wrapped(ctx, a, m)
            eng = Engine(r2)
            eng.run(m, r2.start())
            ctx.analysed(eng)
            r.callbacks += r2.callbacks
    ctx.count("future_callbacks", r.callbacks)


class AwaitAll(Flow):
    """functions that wait for several promises.  The first entry of the stack holds what has happened"""

    def __init__(self, ctx, f):
        super().__init__(ctx, f)
        self.promises = ("p", f.qual, f.params[0])
        self.awaited, self.after_error = 0, 0

    def opaque(self, f):
        return f.module.name != PROMISES

    def force_inline(self, f):
        return f.module.name == PROMISES and f.cls is None

    def raised(self, st):
        return bool(st.ps[0][0][1])

    def relevant(self, it, el, st):
        return any(x[0] == "elem" and mentions(x[1], self.promises) for x in subterms(el)) or el[0] == "elem" and mentions(el, self.promises)

    def on_call(self, c, st, eng):
        if c.name == "result" and c.recv is not None and self.relevant(None, c.recv, st):
            self.awaited += 1
            if self.raised(st):
                self.after_error += 1
            s = self.mark(st, c.recv)
            if c.arg(0, "wait") == FALSE:
                s = st
            x = s.with_ps(((("c", frozenset(["raised"]), 0), True),) + s.ps[1:])
            return Take(normal=[(c.term(), s)], raises=[(("exc", None, None), x)])

    def exempt(self, it, el, st):
        # a promise that took the request to cancel
        return any(l[0] == "truthy" and pol and call_name(l[1]) == "request_cancel" and l[1][2] == el for l, (pol, _) in st.facts.items())


def check_await(ctx):
    p = program()
    for name in ("await_all_promises", "await_all_promises_or_cancel"):
        f = p.funcs.get(f"{PROMISES}.{name}")
        if f is None:
            continue
        r = AwaitAll(ctx, f)
        eng = Engine(r)
        out = eng.run(f, ((("c", frozenset(), 0), True),))
        ctx.analysed(eng)
        ctx.count("awaited_promises", r.awaited)
        if not r.awaited or not r.seen:
            ctx.finding("not-awaited", f.short, f"{f.short} does not wait for the promises", f.where)
        r.report("not-awaited", "a promise")
        if name.endswith("cancel") and not r.after_error:
            ctx.finding("not-awaited", f.short, f"{f.short} raises an error while the promises that cannot be cancelled are still at work", f.where)
        for t, st in out.ret:
            if r.raised(st) and not any(l[0] == "truthy" and pol and l[1][0] == "p" for l, (pol, _) in st.facts.items()):
                ctx.finding("error-lost", f.short, f"{f.short} can return although a promise failed", f.where, st.trace[-3:])


class Worker(Rule):
    """the loop of a worker process.  ps: command in hand: None / taken / failed / answered"""
    keep_all_facts = True
    max_states = 40
    interesting = {"dump", "load", "execute"}

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry
        self.loads = self.answers = 0

    def start(self):
        return None

    def opaque(self, f):
        return f.module is not self.entry.module or f.name == "_attach_to_process"

    def force_inline(self, f):
        return f.module is self.entry.module and f.name != "_attach_to_process"

    def can_raise(self, c):
        return False

    def on_call(self, c, st, eng):
        if c.name in ("load", "pickle.load") or c.ext == "pickle.load":
            self.loads += 1
            if st.ps in ("taken", "failed"):
                self.ctx.finding("no-answer", self.entry.short, "the worker reads the next command without having answered the one before: "
                                 "whoever waits for it waits forever", c.where, st.trace[-3:])
            return Take(normal=[(("call", ("x", "@command"), None, (), ()), st.with_ps("taken"))])
        if c.ext == "pickle.dump" and c.args:
            self.answers += 1
            if st.ps == "answered":
                self.ctx.finding("answered-twice", self.entry.short, "the worker answers one command twice", c.where, st.trace[-3:])
            v = c.args[0]
            if st.ps == "failed":
                e = st.heap.get(("fld", v, "err_strace")) if v[0] == "new" else None
                if v[0] == "new" and e in (None, NONE):
                    self.ctx.finding("error-lost", self.entry.short, "the answer to a command that failed carries no error", c.where)
            return Take(normal=[(NONE, st.with_ps("answered"))])
        if c.recv is not None and call_name(c.recv) == "@command":
            return Take(normal=[(("call", ("x", "@value"), None, (), ()), st)],
                        raises=[(("exc", "Exception", None), st.with_ps("failed")), (("exc", "OSError", None), st.with_ps("failed"))])
        return None


def check_worker(ctx):
    p = program()
    m = p.funcs.get(POOL + "._Worker.run")
    ctx.need(m, POOL + "._Worker.run")
    r = Worker(ctx, m)
    eng = Engine(r)
    out = eng.run(m, r.start())
    ctx.analysed(eng)
    ctx.count("commands_read", r.loads)
    ctx.count("answers_written", r.answers)
    for t, st in out.ret:
        if st.ps in ("taken", "failed"):
            ctx.finding("no-answer", m.short, "the worker stops without having answered the command it read", m.where)


def check(ctx):
    a = Anchors(ctx)
    ctx.rule("the promise as a monitor: outcome and done flag are stored once, under the lock, with everybody notified and every "
             "registered callback run outside the lock; waiting returns only under a done flag read under the lock and raises a "
             "stored error; a callback is registered or called, decided under the lock")
    check_monitor(ctx, a)
    ctx.rule("whoever takes work off the queue completes or fails its promise exactly once on every path, whatever is raised")
    check_work(ctx, a)
    ctx.rule("directly executed work and futures: whatever is raised ends in the promise")
    check_wrapped(ctx, a)
    ctx.rule("waiting for several promises: each is awaited (or was cancelled), an error is raised unless errors are to be ignored")
    check_await(ctx)
    ctx.rule("a worker process answers every command it read, errors as errors")
    check_worker(ctx)
    for k in ("work_taken", "work_settled", "work_called_directly", "future_callbacks", "commands_read", "answers_written", "registered_closures"):
        ctx.at_least(k, 1)
    ctx.at_least("monitor_events", 6)
