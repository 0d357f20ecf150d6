"""the copy transaction of pkm.utils.files: what its methods guarantee (shared by I03 and I04)"""
from ..common import *

UNKNOWN_WRITERS = ("file_copy",)


def transaction_class():
    """the class used as `with X() as ct` that offers copy / copy_tree / copied_files"""
    return program().cls("pkm.utils.files.CopyTransaction")


def tracked_attr(ctx):
    """name of the attribute that holds the created paths (what `copied_files` yields)"""
    p = program()
    cls = transaction_class()
    m = p.find_method(cls, "copied_files")
    ctx.need(m, "CopyTransaction.copied_files")
    for n in ast.walk(m.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == m.params[0]:
            tgt = p.find_method(cls, n.attr)
            if tgt is None:
                return n.attr
            for k in ast.walk(tgt.node):
                if isinstance(k, ast.Attribute) and isinstance(k.value, ast.Name) and k.value.id == tgt.params[0] \
                        and p.find_method(cls, k.attr) is None:
                    return k.attr
    ctx.need(None, "the collection behind CopyTransaction.copied_files")


def temp_attrs():
    """attributes of the transaction that hold the directory (not a counter)"""
    p = program()
    out = set()
    for m in transaction_class().methods.values():
        for n in ast.walk(m.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if isinstance(t, ast.Attribute) and any(isinstance(x, ast.Name) and x.id in ("mkdtemp", "TemporaryDirectory", "temp_dir", "Path", "mkdir")
                                                            or isinstance(x, ast.Attribute) and x.attr in ("mkdtemp", "TemporaryDirectory")
                                                            for x in ast.walk(n.value)):
                        out.add(t.attr)
    return out


PARTS = ("name", "stem", "suffix", "suffixes", "parent")


def mentions_whole(t, x):
    """x occurs in t not only through a part of it (its name, its suffix, …)"""
    if t == x:
        return True
    if not isinstance(t, tuple) or t and t[0] == "a" and len(t) == 3 and t[1] == x and t[2] in PARTS:
        return False
    return any(mentions_whole(y, x) for y in t if isinstance(y, tuple))


class MethodRule(Rule):
    """every file system write of a transaction method goes to a path that was tracked before, and whose previous
    content was put aside (or that did not exist / was created by this transaction)"""
    interesting = {"move", "copy", "mkdir", "touch", "exists", "rename", "replace", "copyfile", "copy2", "write_text",
                   "write_bytes", "open", "add", "append", "update", "unlink", "rmdir", "rmtree"}
    fact_names = {"exists", "is_file", "is_dir"}
    max_states = 24

    def __init__(self, ctx, method, tracked, backup=True):
        self.ctx, self.method, self.tracked, self.backup = ctx, method, tracked, backup
        self.slf = None
        self.writes = 0
        self.put_aside, self.own_content = set(), []
        self.plain_dirs = temp_attrs()

    def can_raise(self, c):
        return False

    def start(self):
        # tracked paths, paths whose content is safe, moved away but not registered for restore, made but not tracked
        return (frozenset(), frozenset(), None, None)

    def is_tracked_coll(self, t):
        return t[0] == "a" and t[2] == self.tracked and t[1] == self.slf

    def on_add(self, cont, value, st, node, fr, eng):
        tr, safe, moved, made = st.ps
        if self.is_tracked_coll(cont):
            nsafe = safe
            if self.backup and value in self.put_aside and value in safe:
                self.own_content.append(f"{fr.func.module.rel}:{node.lineno}")
            if not self.backup:
                return st.with_ps((tr | {value}, nsafe, moved, tuple(x for x in made or () if x != value) or None))
            return st.with_ps((tr | {value}, nsafe, moved, None if made == value else made))
        if cont[0] == "a" and cont[1] == self.slf and moved is not None and mentions(value, moved):
            return st.with_ps((tr, safe | {moved}, None, made))
        return None

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        tr, safe, moved, made = st.ps
        if kind == "sub" and base[0] == "a" and base[1] == self.slf and moved is not None and \
                (mentions(key, moved) or mentions(value, moved)):
            return st.with_ps((tr, safe | {moved}, None, made))
        return None

    def distinct(self, dst, src):
        """no two paths of one transaction are put aside at the same place"""
        if mentions_whole(dst, src):
            return True
        for x in subterms(dst):
            if x[0] == "unk" or x[0] == "call" and call_name(x) not in ("str", "Path", "with_suffix", "with_name", "joinpath", "fspath"):
                return True     # a counter (len of the register, next), a random or a fresh name
            if x[0] == "a" and x[1] == self.slf and x[2] not in self.plain_dirs:
                return True     # a counter kept by the transaction
        return False

    def known_absent(self, path, st):
        for l, (pol, _) in st.facts.items():
            if l[0] == "truthy" and not pol and call_name(l[1]) in ("exists", "lexists") and \
                    (l[1][2] == path or path in l[1][3]):
                return True
            if l[0] == "in" and pol and l[1] == path and self.is_tracked_coll(l[2]):
                return True
        return False

    def known_present(self, path, st):
        return any(l[0] == "truthy" and pol and call_name(l[1]) in ("exists", "is_dir") and l[1][2] == path
                   for l, (pol, _) in st.facts.items())

    def covered(self, w, st):
        tr, safe, moved, made = st.ps
        return w in tr and (w in safe or self.known_absent(w, st))

    def on_call(self, c, st, eng):
        tr, safe, moved, made = st.ps
        if c.func is not None:
            return None
        if c.ext in ("shutil.move", "os.rename", "os.replace") and len(c.args) >= 2 or \
                c.recv is not None and c.name in ("rename", "replace") and len(c.args) == 1 and c.ext is None and \
                any(x == ("a", self.slf, x[2]) for x in subterms(c.args[0]) if x[0] == "a"):
            src, dst = (c.args[0], c.args[1]) if c.ext else (c.recv, c.args[0])
            own = [x for x in subterms(dst) if x[0] == "a" and x[1] == self.slf]
            if own and not any(x[0] == "a" and x[1] == self.slf for x in subterms(src)):
                if not self.distinct(dst, src):
                    self.ctx.finding("backup-location-clash", self.method,
                                     f"content is put aside at {show(dst)}: two different paths can get the same place, the "
                                     "content of one of them is lost", c.where)
                if not any(l[0] == "in" and not pol and l[1] == src and self.is_tracked_coll(l[2]) for l, (pol, _) in st.facts.items()):
                    self.put_aside.add(src)
                return Take(normal=[(dst, st.with_ps((tr, safe, src, made)))])
            return None
        w = written_path(c)
        if c.fterm[0] == "p" and c.fterm[2] not in ("accept",) and len(c.args) >= 2:
            w = c.args[-1]      # a copy function supplied by the caller
        if w is None or any(x[0] == "a" and x[1] == self.slf and x[2] != self.tracked for x in subterms(w)):
            return None
        self.writes += 1
        if not self.backup:
            if w in tr or c.name == "mkdir":
                return None
            return Take(normal=[(c.term(), st.with_ps((tr, safe, moved, (made or ()) + ((w,) if w not in (made or ()) else ()))))])
        if c.name == "mkdir" and c.kwargs.get("parents", FALSE) != FALSE and ("a", w, "parent") not in tr and \
                not self.known_present(("a", w, "parent"), st):
            self.ctx.finding("unprotected-write", f"{self.method}:mkdir",
                             f"mkdir may create parents of {show(w)} that are not registered in the transaction", c.where)
        if c.name == "mkdir" and c.recv == w:
            return Take(normal=[(NONE, st.with_ps((tr, safe, moved, None if w in tr else w)))])
        if c.name == "touch" and w in tr:
            return None     # does not change existing content
        if moved is not None or not self.covered(w, st):
            why = "is not registered in the transaction" if w not in tr else "may overwrite content that was not put aside"
            self.ctx.finding("unprotected-write", f"{self.method}:{c.name}",
                             f"{c.name} writes {show(w)}, which {why}: a failure here cannot be rolled back", c.where)
        return None


def method_summaries(ctx, report=True, backup=True, own_content=None):
    """{method name: set of parameter names that are tracked and safe to overwrite when the method returns}"""
    p = program()
    cls = transaction_class()
    tracked = tracked_attr(ctx)
    res = {}
    for name, m in cls.methods.items():
        if name.startswith("__") or name in ("copied_files",) or m.is_property:
            continue
        if name.startswith("_"):
            continue
        r = MethodRule(ctx if report else _Null(), f"CopyTransaction.{name}", tracked, backup)
        r.slf = ("p", m.qual, m.params[0])
        eng = Engine(r)
        out = eng.run(m, r.start())
        if report:
            ctx.analysed(eng)
            ctx.count("transaction_methods")
            ctx.count("transaction_writes", r.writes)
        if own_content is not None:
            own_content += r.own_content
        ok, trk = None, None
        for t, st in out.ret:
            tr, safe, moved, made = st.ps
            prm = {("p", m.qual, a) for a in m.params[1:]}
            good = {x for x in prm if x in tr and (not backup or x in safe or r.known_absent(x, st))}
            trx = {x for x in prm if x in tr}
            ok = good if ok is None else ok & good
            trk = trx if trk is None else trk & trx
            if not backup:
                if report and made:
                    r.ctx.finding("unrecorded-write", f"CopyTransaction.{name}",
                                  f"{show(made[0])} is written but not registered in the transaction: RECORD will not list it", m.where)
                continue
            if report and moved is not None:
                r.ctx.finding("backup-not-registered", f"CopyTransaction.{name}",
                              "content is moved away without being registered for restore", m.where)
            if report and made is not None:
                r.ctx.finding("unprotected-write", f"{r.method}:mkdir",
                              f"the created directory {show(made)} is not registered in the transaction", m.where)
        # paths below which everything is written through the transaction
        res[name] = ({x[2] for x in ok or ()}, {x[2] for x in trk or ()}, r.writes)
    return res


class _Null:
    def finding(self, *a, **k):
        pass


class RollbackRule(Rule):
    """leaving the transaction with an error"""
    interesting = {"unlink", "rmdir", "move", "remove", "rmtree", "rename", "replace", "copy", "copytree"}
    keep_all_facts = True
    max_states = 30

    def __init__(self, ctx, slf, tracked, failing):
        self.ctx, self.slf, self.tracked, self.failing = ctx, slf, tracked, failing
        self.events = 0
        self.unlink_loops, self.rmdirs, self.reversed_restore = set(), [], False
        self.plain_dirs = temp_attrs()

    def start(self):
        # (created file gone, created directory gone, overwritten restored, ordered, visited loop tracked, visited loop over,
        #  kind of the arbitrary created path: f / d / x = impossible)
        # finished loops
        return (False, False, False, False, None, None, None, frozenset())

    def can_raise(self, c):
        return False

    def opaque(self, f):
        return f.name == "is_empty_directory"

    def coll_of(self, t):
        """('T'|'O', element) when t is an element of the tracked paths / of the put aside ones"""
        for x in subterms(t):
            if x[0] == "elem":
                for y in subterms(x[1]):
                    if y[0] == "a" and y[1] == self.slf:
                        return ("T" if y[2] == self.tracked else "O"), x
        return None

    def coll_of_iter(self, iterable, st):
        recs = st.heap.get(iterable)
        for e in [("elem", iterable)] + ([r[0] for r in recs] if isinstance(recs, frozenset) else []):
            k = self.coll_of(e)
            if k:
                return k
        return None

    def on_iter(self, iterable, el, st, node, fr, eng):
        k = self.coll_of(el)
        if not k:
            return None
        key = (fr.fid, node.lineno, node.col_offset)
        ps = list(st.ps)
        ps[4 if k[0] == "T" else 5] = key
        return st.with_ps(tuple(ps))

    def on_iter_end(self, iterable, el, st, node, fr, eng, filtered):
        k = self.coll_of(el)
        if not k or k[0] != "T":
            return None
        e = k[1]
        ps = list(st.ps)
        for l, (pol, _) in st.facts.items():
            if l[0] != "truthy" and l[0] != "isnone" or not mentions(l[1], e):
                continue
            n = call_name(l[1])
            if n in ("is_dir", "is_file") and l[1][2] == e:
                if l[0] != "truthy":
                    continue
                kind = "d" if pol == (n == "is_dir") else "f"
                ps[6] = kind if ps[6] in (None, kind) else "x"
            elif n == "exists" and not pol:
                ps[0] = ps[1] = True
            elif nonempty(l, pol, e):
                ps[1] = True
        return st.with_ps(tuple(ps))

    def on_iter_break(self, iterable, el, st, node, fr, eng):
        if self.coll_of(el) and self.failing:
            self.ctx.finding("rollback-incomplete", "CopyTransaction rollback",
                             f"the loop over {show(iterable)} ends before all of it was undone", f"{fr.func.module.rel}:{node.lineno}", st.trace[-3:])
        return None

    def guarded(self, c, st, e, what):
        """the call cannot fail for this path, or its failure is handled"""
        if any(isinstance(n, ast.Try) and n.handlers and any(x is c.node for b in n.body for x in ast.walk(b)) for n in ast.walk(c.fr.func.node)):
            return True
        if any(isinstance(n, ast.With) and any("suppress" in ast.dump(i.context_expr) for i in n.items) and any(x is c.node for b in n.body for x in ast.walk(b))
               for n in ast.walk(c.fr.func.node)):
            return True
        fs = [(l, pol) for l, (pol, _) in st.facts.items() if l[0] in ("truthy", "isnone") and mentions(l[1], e)]
        yes = {call_name(l[1]) for l, pol in fs if l[0] == "truthy" and pol}
        no = {call_name(l[1]) for l, pol in fs if l[0] == "truthy" and not pol}
        if what == "rmdir":
            return "is_empty_directory" in yes or any(empty(l, pol, e) for l, pol in fs)
        if c.kwargs.get("missing_ok") != TRUE and not (c.args and c.args[-1] == TRUE) and not yes & {"exists", "is_file", "lexists"}:
            return False
        return "is_dir" in no or "is_file" in yes

    def on_loop_done(self, iterable, st, node, fr, eng):
        k = self.coll_of_iter(iterable, st)
        key = (fr.fid, node.lineno, node.col_offset)
        if not k:
            return st.with_ps(st.ps[:7] + (st.ps[7] | {key},))
        if st.ps[4 if k[0] == "T" else 5] != key:
            return DEAD
        if k[0] == "O" and any(call_name(x) == "reversed" for x in subterms(iterable)):
            self.reversed_restore = True
        return st.with_ps(st.ps[:7] + (st.ps[7] | {key},))

    def on_call(self, c, st, eng):
        if c.func is not None:
            return None
        ps = list(st.ps)
        if c.ext in ("sorted",) or c.name == "sort":
            if c.kwargs.get("reverse") == TRUE or "key" in c.kwargs and self._negative(c.kwargs["key"], eng):
                ps[3] = True
                return self._pass(c, st, tuple(ps), eng)
            return None
        if c.ext == "reversed":
            ps[3] = True
            return self._pass(c, st, tuple(ps), eng)
        args = ([c.recv] if c.recv is not None else []) + list(c.args)
        hit = [self.coll_of(a) for a in args]
        hit = [h for h in hit if h]
        n = c.name.split(".")[-1]
        if n in ("unlink", "remove", "rmdir", "move", "rename", "replace", "copy", "copy2", "copytree") and hit:
            self.events += 1
            if not self.failing:
                self.ctx.finding("rollback-on-success", f"__exit__:{n}", f"{n} undoes work of a successful transaction", c.where)
                return None
            kinds = {h[0] for h in hit}
            e = hit[0][1]
            if n in ("unlink", "remove") and "T" in kinds:
                ps[0] = True
                self.unlink_loops.add(ps[4])
                if not self.guarded(c, st, e, "unlink"):
                    self.ctx.finding("rollback-aborts", "CopyTransaction rollback:unlink",
                                     "the removal of a created path fails where the path is a directory or was not written yet, and the rest of the rollback does not happen", c.where)
            elif n == "rmdir" and "T" in kinds:
                self.rmdirs.append((ps[4], ps[7], c.where))
                if not self.guarded(c, st, e, "rmdir"):
                    self.ctx.finding("rollback-aborts", "CopyTransaction rollback:rmdir",
                                     "the removal of a created path fails where the path is no empty directory, and the rest of the rollback does not happen", c.where)
                if not ps[3]:
                    self.ctx.finding("rollback-order", "CopyTransaction rollback",
                                     "created directories are removed in arbitrary order: a directory that contains "
                                     "another created directory is not empty yet and stays behind", c.where)
                ps[1] = True
            elif "O" in kinds:
                if not ps[0] and ps[6] not in ("d", "x"):
                    self.ctx.finding("rollback-order", "CopyTransaction rollback:restore",
                                     "replaced content is restored before the files written over it are removed", c.where)
                if not ps[1] and ps[6] not in ("f", "x"):
                    self.ctx.finding("rollback-order", "CopyTransaction rollback:restore",
                                     "replaced content is restored before the directories created in its place are removed", c.where)
                ps[2] = True
                self.check_restore_source(args, c)
            return Take(normal=[(NONE, st.with_ps(tuple(ps)))])
        if n == "rmtree" and self.failing and any(x[0] == "a" and x[1] == self.slf for a in args for x in subterms(a)):
            if not ps[2]:
                self.ctx.finding("backup-dropped", "CopyTransaction rollback",
                                 "the directory with the replaced content is removed before the content is restored", c.where)
        return None

    def check_restore_source(self, args, c):
        """content that was put aside under its position in the register is taken back from the same position"""
        src = args[0]
        if len(args) > 1 and self.plain_dirs and any(x[0] == "a" and x[1] == self.slf and x[2] in self.plain_dirs for x in subterms(args[1])) \
                and not any(x[0] == "a" and x[1] == self.slf and x[2] in self.plain_dirs for x in subterms(src)):
            self.ctx.finding("restore-mismatch", "CopyTransaction rollback", f"{show(src)} is moved to where content was put aside, not back from there", c.where)
        for x in subterms(src):
            if x[0] == "unk" and isinstance(x[1], tuple) and x[1][0] == "idx":
                it, start = x[1][3], x[1][4]
                if not (it[0] == "a" and it[1] == self.slf) or start != ("c", 0):
                    self.ctx.finding("restore-mismatch", "CopyTransaction rollback",
                                     f"the place of the replaced content is computed from a position in {show(it)}, which is not the "
                                     "order in which content was put aside", c.where)

    def _negative(self, key, eng):
        if key in eng.closures:
            fi = eng.closures[key][0]
            return any(isinstance(n, ast.USub) for n in ast.walk(fi.node))
        return False

    def _pass(self, c, st, ps, eng):
        """go on with the engine's own model of the call but with the changed property state"""
        st.ps = ps
        return None


def empty(l, pol, e):
    """the fact says that the directory e is empty"""
    n = call_name(l[1])
    return l[0] == "truthy" and (n == "is_empty_directory" and pol or n in ("any", "len", "list", "listdir") and not pol) or l[0] == "isnone" and n == "next" and pol


def nonempty(l, pol, e):
    n = call_name(l[1])
    return l[0] == "truthy" and (n == "is_empty_directory" and not pol or n in ("any", "len", "list", "listdir", "next") and pol) or l[0] == "isnone" and n == "next" and not pol


def check_rollback(ctx, own_content=()):
    p = program()
    cls = transaction_class()
    m = p.find_method(cls, "__exit__")
    ctx.need(m, "CopyTransaction.__exit__")
    tracked = tracked_attr(ctx)
    slf = ("p", m.qual, m.params[0])
    for failing in (True, False):
        r = RollbackRule(ctx, slf, tracked, failing)
        eng = Engine(r)
        facts = {}
        args = {}
        for i, prm in enumerate(m.params[1:4]):
            t = ("p", m.qual, prm)
            if failing:
                facts[("isnone", t)] = (False, True)
                facts[("truthy", t)] = (True, True)
            else:
                args[prm] = NONE
        out = eng.run(m, r.start(), args=args, facts=facts)
        ctx.analysed(eng)
        ctx.count("rollback_events", r.events)
        if failing and own_content and not r.reversed_restore:
            ctx.finding("own-content-put-aside", "CopyTransaction rollback", "what this transaction itself wrote to a path is put aside like previous content, and restored over it",
                        own_content[0])
        for loop, after, where in r.rmdirs:
            if not after & r.unlink_loops and loop not in r.unlink_loops:
                ctx.finding("rollback-order", "CopyTransaction rollback", "created directories are removed before the files in them: they are not empty yet and stay behind", where)
        for t, st in out.ret:
            ctx.count("exit_paths")
            if failing:
                v = eng.lit_value(("truthy", t), st)
                if v is not False:
                    ctx.finding("failure-swallowed", "CopyTransaction.__exit__",
                                "leaving a failed transaction may suppress the error", m.where)
                if st.ps[6] == "x":
                    continue
                done = (st.ps[0] or st.ps[6] == "d", st.ps[1] or st.ps[6] == "f", st.ps[2])
                missing = [w for w, ok in zip(("created files are removed", "created directories are removed",
                                               "replaced files are restored"), done) if not ok]
                if missing:
                    ctx.finding("rollback-incomplete", "CopyTransaction.__exit__",
                                f"on a failure there is a way out on which not all {' / '.join(missing)}", m.where,
                                st.trace[-3:])
    ctx.at_least("rollback_events", 3)
    ctx.at_least("exit_paths", 2)
