"""I04: completeness of the installed RECORD.  (1) in the wheel installer, the files handed to the signing of the new
RECORD are all paths the transaction knows at that moment and nothing but RECORD itself is written afterwards (writes
the transaction does not know are reported as well); (2) the signing loop lets a file pass only after it appended a record for it whose path is
relative to the installation root, unless the file does not exist or is a directory; (3) the signed RECORD is saved on
every normal way out."""
from ..common import *
from . import txn
from .i03 import InstallRule, wheel_entries, target_terms, strip, find_loaded_path

COPYING = ("list", "set", "sorted", "tuple", "iter", "frozenset", "reversed")

SKIP = ("skip",)     # F needs no record


def strip_copy(t):
    while t[0] == "call" and call_name(t) in COPYING and t[3]:
        t = t[3][0]
    return t


class RecordRule(InstallRule):
    # F is one arbitrary path the transaction knows
    # ps: (loop that visited F, prepared paths, snapshots, signed, saved)
    #  snapshots: {(term, paths added to the transaction after it was taken, containers that hold all of its elements)}

    def start(self):
        return (None, frozenset(), frozenset(), None, False)

    def join_ps(self, a, b):
        if a[0] != b[0] or a[3] != b[3] or a[4] != b[4] or a[2] != b[2]:
            return None
        return (a[0], a[1] & b[1]) + a[2:]

    def report(self, c, what):
        self.ctx.finding("unrecorded-write", f"{c.fr.func.short}:{c.name}",
                         f"{c.name} writes {what} in the installation target without telling the copy transaction: "
                         "RECORD is built from the paths the transaction knows and will not list it", c.where)

    def on_with(self, node, fr, term, st, eng):
        ty = eng.type_of(term, st)
        if ty and ty[0] == "cls" and ty[1] == self.cls.qual:
            def leave(kind, s):
                if kind in ("normal", "ret"):
                    self.ends += 1
                    if s.ps[3] is None:
                        self.ctx.finding("record-not-built", fr.func.short,
                                         "the installation can finish without signing a RECORD", f"{fr.func.module.rel}:{node.lineno}")
                    elif not s.ps[4]:
                        self.ctx.finding("record-not-saved", fr.func.short,
                                         "the installation can finish without saving the RECORD it signed",
                                         f"{fr.func.module.rel}:{node.lineno}")
                return s.with_ps((None, frozenset()) + s.ps[2:])
            return st, leave, term
        return None

    ends = signs = 0

    def is_record_path(self, t):
        return any(x == "RECORD" for x in consts_in(t)) and (t[0] == "op" or t[0] == "call")

    def on_property(self, c, st, eng):
        if c.func.cls is self.cls and c.name == "copied_files":
            snap = ("call", ("f", c.func.qual), c.recv, (const(f"{c.loc}"),), ())
            ps = list(st.ps)
            ps[2] = frozenset(s for s in ps[2] if s[0] != snap) | {(snap, frozenset(), frozenset())}
            return Take(normal=[(snap, st.with_ps(tuple(ps)))])
        return None

    def on_call(self, c, st, eng):
        if self.is_config(c.func) and c.name == "sign_files":
            self.signs += 1
            files = c.arg(0, "files")
            self.check_signed(c, files, st)
            ps = list(st.ps)
            ps[3] = c.recv
            ps[4] = False
            return Take(normal=[(c.recv if c.recv is not None else c.term(), st.with_ps(tuple(ps)))])
        if self.is_config(c.func) and c.name == "save" and st.ps[3] is not None and \
                (c.recv == st.ps[3] or call_name(c.recv) == "sign_files"):
            ps = list(st.ps)
            ps[4] = True
            st = st.with_ps(tuple(ps))
            if not self.is_record_path(find_loaded_path(c.recv) or NONE):
                p = find_loaded_path(c.recv)
                if c.arg(0, "path") is None and p is not None and p[0] != "unk":
                    self.ctx.finding("record-not-saved", f"{c.fr.func.short}:path",
                                     f"the signed RECORD is saved to {show(p)}", c.where)
            return Take(normal=[(NONE, st)])
        # the parent's ps layout has two fields only
        full = st.ps
        r = InstallRule.on_call(self, c, st.with_ps(full[:2]), eng)
        added = None
        if c.func is not None and c.func.cls is self.cls and not c.func.is_property:
            bound = self.bind(c)
            added = [strip(v) for k, v in bound.items() if k in ("target", "path", "paths")]
            if not added:
                added = [strip(a) for a in c.all_args()[-1:]]
        elif c.func is None and c.name in ("write_text", "write_bytes") and full[3] is not None:
            w = strip(c.recv) if c.recv is not None else None
            if w is not None and self.under_target(w) and self.is_record_path(w):
                full = full[:4] + (True,)

        def fix(s):
            ps = s.ps[:2] + full[2:]
            if added:
                late = [a for a in added if not self.is_record_path(a)]
                if late:
                    ps = ps[:2] + (frozenset((t, frozenset(list(l | {show(a) for a in late})[:3]), cs)
                                             for t, l, cs in ps[2]),) + ps[3:]
                    if ps[3] is not None:
                        self.ctx.finding("written-after-signing", f"{c.fr.func.short}:{c.name}",
                                         f"{show(late[0])} is written after RECORD was signed and is not listed in it", c.where)
            return s.with_ps(ps)
        if r is None:
            if added:
                return Take(normal=[(c.term(), fix(st.with_ps(st.ps[:2])))])
            if full != st.ps:
                return Take(normal=[(NONE, st.with_ps(full))])
            return None
        return Take(normal=[(t, fix(s)) for t, s in r.normal], raises=r.raises)

    def holders(self, st, t):
        t = strip_copy(t)
        for s in st.ps[2]:
            if t == s[0] or t in s[2] or t == ("elem", s[0]):
                return s
        return None

    # containers filled from a snapshot: the arbitrary element must not be left out
    def on_add(self, cont, value, st, node, fr, eng):
        v = value[1] if value[0] == "all" else (value[1] if value[0] == "elem" else value)
        s = self.holders(st, v)
        if s is None:
            # the element of a container which holds the snapshot
            return None
        ps = list(st.ps)
        ps[2] = (ps[2] - {s}) | {(s[0], s[1], s[2] | {cont})}
        return st.with_ps(tuple(ps))

    def on_iter_end(self, iterable, el, st, node, fr, eng, filtered):
        if filtered:
            s = self.holders(st, iterable)
            if s is not None and self.skippable(el, st):
                ps = list(st.ps)
                ps[2] = (ps[2] - {s}) | {(s[0], s[1], s[2] | {SKIP})}
                return st.with_ps(tuple(ps))
        return None

    def on_iter(self, iterable, el, st, node, fr, eng):
        if self.holders(st, iterable) is None:
            return None
        return st.with_ps(((fr.fid, node.lineno, node.col_offset),) + st.ps[1:])

    def on_loop_done(self, iterable, st, node, fr, eng):
        if self.holders(st, iterable) is None:
            return None
        if st.ps[0] != (fr.fid, node.lineno, node.col_offset):
            return DEAD
        return None

    def skippable(self, el, st):
        """directories, missing files and RECORD itself need no record"""
        for l, (pol, _) in st.facts.items():
            if l[0] == "truthy" and l[1][0] == "call" and l[1][2] == el:
                n = call_name(l[1])
                if n == "is_dir" and pol or n in ("is_file", "exists") and not pol:
                    return True
            if l[0] == "eq" and pol and el in l[1:] and any(self.is_record_path(x) for x in l[1:]):
                return True
        return False

    def check_signed(self, c, files, st):
        s = self.holders(st, files) if files is not None else None
        if s is None:
            s = next((x for x in st.ps[2] if SKIP in x[2]), None)
        name = c.fr.func.short
        if s is None:
            self.ctx.finding("record-not-from-transaction", f"{name}:sign_files",
                             f"RECORD is built from {show(files) if files else 'nothing'}, which is not the complete "
                             "collection of the paths the transaction knows", c.where)
            return
        if s[1]:
            self.ctx.finding("written-after-snapshot", f"{name}:sign_files",
                             f"RECORD is built from a list taken before {', '.join(sorted(s[1]))} was written", c.where)


class SignRule(Rule):
    """the signing loop: state of one arbitrary file of the given files: unseen / seen / ok / bad"""
    interesting = {"append", "Record", "exists", "is_dir", "path_to", "relative_to", "relpath", "extend", "add"}
    keep_all_facts = True
    max_states = 30

    def __init__(self, ctx, files, root):
        self.ctx, self.files, self.root = ctx, files, root
        self.checked = self.recorded = 0

    def opaque(self, f):
        return in_modules(f, "pkm.utils.hashes", "pkm.utils.dicts", "pkm.utils.files")

    def can_raise(self, c):
        return False

    def el_of(self, t):
        for x in ([t] + list(t[1]) if t[0] == "tup" else [t]):
            x = strip(x)
            if x[0] == "elem" and strip_copy(x[1]) == self.files:
                return x
        return None

    def ranges(self, iterable, st):
        return strip_copy(iterable) == self.files or iterable in st.ps[2] or self.el_of(("elem", iterable)) is not None

    def on_iter(self, iterable, el, st, node, fr, eng):
        if st.ps[0] == "ok" or not self.ranges(iterable, st) or self.el_of(el) is None:
            return None
        key = (fr.fid, node.lineno, node.col_offset)
        if st.ps[0] == "bad" and st.ps[1] == key:
            return None
        return st.with_ps(("in", key, st.ps[2]))

    def on_add(self, cont, value, st, node, fr, eng):
        if value[0] == "new" and value[1].endswith("Record") or value[0] == "call" and "Record" in str(value[1][1]):
            f = st.heap.get(("fld", value, "file")) or (value[3][0] if value[0] == "call" and value[3] else None)
            if f is not None and cont[0] == "a" and cont[2] == "records":
                fs = [x for x in subterms(f) if self.el_of(x) is not None]
                if fs and self.relative(f, st):
                    self.recorded += 1
                    return st.with_ps(("ok", None, frozenset()))
                if fs:
                    self.ctx.finding("record-path", "sign_files",
                                     f"the record path {show(f)} is not the path of the file relative to the root",
                                     f"{fr.func.module.rel}:{getattr(node, 'lineno', 0)}")
                    return st.with_ps(("ok", None, frozenset()))
        if st.ps[0] == "in" and self.el_of(value) is not None:
            return st.with_ps((st.ps[0], st.ps[1], st.ps[2] | {cont}))
        return None

    def relative(self, f, st):
        f = strip(f)
        while call_name(f) in ("as_posix", "replace") and f[2] is not None:
            f = f[2]
        f = strip(f)
        n = call_name(f)
        if n is None:
            return False
        args = list(f[3]) + ([f[2]] if f[2] is not None else [])
        return n in ("path_to", "relative_to", "relpath") and any(strip(a) == self.root for a in args) and \
            any(self.el_of(a) is not None for a in args)

    def on_iter_end(self, iterable, el, st, node, fr, eng, filtered):
        key = (fr.fid, node.lineno, node.col_offset)
        if st.ps[0] != "in" or st.ps[1] != key:
            return None
        self.checked += 1
        e = self.el_of(el)
        for l, (pol, _) in st.facts.items():
            if l[0] == "truthy" and l[1][0] == "call" and l[1][2] == e:
                n = call_name(l[1])
                if n == "is_dir" and pol or n in ("exists", "is_file", "lexists") and not pol:
                    return st.with_ps(("ok", None, frozenset()))
        return st.with_ps(("bad", key, st.ps[2]))

    def on_loop_done(self, iterable, st, node, fr, eng):
        if st.ps[0] == "ok" or not self.ranges(iterable, st):
            return None
        key = (fr.fid, node.lineno, node.col_offset)
        if st.ps[0] == "unseen" or st.ps[0] == "bad" and st.ps[1] != key:
            return DEAD
        return None


def check_sign(ctx):
    p = program()
    rc = p.cls("pkm.api.distributions.distinfo.RecordsFileConfiguration")
    m = rc and rc.methods.get("sign_files")
    ctx.need(m and len(m.params) >= 3, "RecordsFileConfiguration.sign_files")
    r = SignRule(ctx, ("p", m.qual, m.params[1]), ("p", m.qual, m.params[2]))
    eng = Engine(r)
    out = eng.run(m, ("unseen", None, frozenset()))
    ctx.analysed(eng)
    for t, st in out.ret:
        ctx.count("sign_exits")
        if st.ps[0] != "ok":
            ctx.finding("file-not-recorded", "sign_files",
                        "sign_files can return although an existing file of the given files got no record", m.where, st.trace[-2:])
    ctx.count("records_appended", r.recorded)
    ctx.at_least("records_appended", 1)


def check(ctx):
    ctx.rule("the transaction's methods register every file they write before they return")
    sums = txn.method_summaries(ctx, backup=False)
    ctx.rule("the signing loop records every existing file, by its path relative to the root")
    check_sign(ctx)
    ctx.rule("RECORD is signed over a complete and current copy of the transaction's paths and saved afterwards")
    for f in wheel_entries(ctx):
        r = RecordRule(ctx, target_terms(f), sums)
        eng = Engine(r)
        eng.run(f, r.start())
        ctx.analysed(eng)
        ctx.count("entry_points")
        ctx.count("target_writes_checked", r.writes)
        ctx.count("signings_checked", r.signs)
        ctx.count("transaction_ends", r.ends)
    ctx.at_least("signings_checked", 1)
    ctx.at_least("transaction_ends", 1)
