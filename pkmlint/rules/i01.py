"""I01: order and completeness of RECORD verification.  Every way into the wheel installer is followed
interprocedurally; a write that goes to the installation target before all unpacked files were visited by a loop in
which each file either passed its digest comparison or ended the installation is reported, and so is every way through
one loop iteration that lets a file pass without one of the accepted reasons."""
from ..common import *
from .digest import check_signature_class

WHEEL = "pkm.api.distributions.wheel_distribution"


class R(Rule):
    interesting = {"rglob", "validate_against", "CopyTransaction", "copy_tree", "copy", "copyfile", "write_text",
                   "install_extracted_wheel", "write_bytes", "move", "walk", "sign_files"}
    fact_names = {"is_dir", "is_file", "validate_against", "RECORD", "endswith", "hash_signature", "records", "parents",
                  "exists", "path", "is_relative_to", "parent"}
    max_states = 24

    def __init__(self, ctx, target_terms):
        self.ctx = ctx
        self.targets = target_terms
        self.writes = 0
        self.checked = 0

    def opaque(self, f):
        return in_modules(f, "pkm.api.environments", "pkm.config", "pkm.launchers", "pkm.utils.monitors",
                          "pkm.api.versions", "pkm.api.dependencies", "pkm.utils.hashes", "pkm.utils.properties",
                          "pkm.utils.archives", "pkm.api.projects", "pkm.build", "pkm.repositories") or \
            (f.cls is not None and f.cls.name in ("CopyTransaction", "RecordsFileConfiguration"))

    # --- which loop is the verification loop
    def root_of(self, el):
        """the directory whose files `el` ranges over"""
        if el[0] == "elem" and call_name(el[1]) in ("rglob", "glob"):
            pats = [x for a in el[1][3] for x in consts_in(a)]
            if any(isinstance(x, str) and x.endswith("/") for x in pats):
                return None   # directories only
            if pats in (["*"], ["**"]) and call_name(el[1]) == "rglob" or pats == ["**/*"]:
                return el[1][2]
        return None

    def source_root(self, t):
        return not any(mentions(t, x) for x in self.targets)

    # state: what is known about one arbitrary file F of the unpacked wheel
    #   (unseen | in | bad | ok,  loop that saw it,  containers it was put into)
    def file_of(self, t):
        for x in ([t] + list(t[1]) if t[0] == "tup" else [t]):
            r = self.root_of(x)
            if r is not None and self.source_root(r):
                return x
        return None

    def ranges_over_f(self, iterable, st):
        return self.file_of(("elem", iterable)) is not None or iterable in st.ps[2]

    def on_iter(self, iterable, el, st, node, fr, eng):
        if st.ps[0] == "ok" or not self.ranges_over_f(iterable, st) or self.file_of(el) is None:
            return None
        key = (fr.fid, node.lineno, node.col_offset)
        if st.ps[0] == "bad" and st.ps[1] == key:
            return None
        return st.with_ps(("in", key, st.ps[2]))

    def on_add(self, cont, value, st, node, fr, eng):
        if st.ps[0] == "in" and self.file_of(value) is not None:
            return st.with_ps((st.ps[0], st.ps[1], st.ps[2] | {cont}))
        return None

    def on_iter_end(self, iterable, el, st, node, fr, eng, filtered):
        key = (fr.fid, node.lineno, node.col_offset)
        if st.ps[0] != "in" or st.ps[1] != key:
            return None
        self.checked += 1
        why = self.accepted(self.file_of(el), st)
        if why is None:
            return st.with_ps(("bad", key, st.ps[2]), f"{fr.func.where}: a file passes this loop without a digest check")
        self.ctx.sample(f"iteration of {fr.func.short} accepts a file because {why}")
        return st.with_ps(("ok", None, frozenset()))

    def on_loop_done(self, iterable, st, node, fr, eng):
        if st.ps[0] == "ok" or not self.ranges_over_f(iterable, st):
            return None
        key = (fr.fid, node.lineno, node.col_offset)
        if st.ps[0] == "unseen" or st.ps[0] == "bad" and st.ps[1] != key:
            return DEAD    # F is one of the elements: the loop cannot end without having visited it
        return None

    def accepted(self, el, st):
        for l, (pol, _) in st.facts.items():
            if l[0] == "truthy" and mentions(l[1], el):
                n = call_name(l[1])
                if n == "is_dir" and pol and l[1][2] == el:
                    return "directory"
                if n == "is_file" and not pol and l[1][2] == el:
                    return "directory"
                if n == "validate_against" and l[1][2] is not None and el in l[1][3]:
                    sig = l[1][2]
                    if "hash_signature" in attrs_in(sig) and mentions(sig, el):
                        if not self.full_path_key(sig, el, st):
                            return None
                        if pol:
                            return "digest matched"
                        if self.in_dist_info(el, st):
                            return "mismatch tolerated inside the metadata directory"
            if l[0] == "eq" and pol and el in l[1:]:
                o = l[1] if l[2] == el else l[2]
                if "RECORD" in consts_in(o) or has_call(o, "record_path") or ("path" in attrs_in(o) and has_call(o, "load_record_cfg")):
                    return "RECORD itself"
        return None

    def full_path_key(self, sig, el, st):
        """the record is looked up by the path of the file (not by a part of it) in a table keyed by the record's file"""
        s = sig[1]
        if s[0] != "s":
            return True     # found by scanning: the equality fact was what selected it
        if any(x[0] == "a" and x[1] == el and x[2] in ("name", "stem", "suffix", "parts", "parent")
               for x in subterms(s[2])):
            return False
        recs = st.heap.get(s[1])
        if isinstance(recs, frozenset):
            for r, _ in recs:
                if r[0] == "kv" and not mentions(r[1], ("a", r[2], "file")):
                    return False
        return True

    def in_dist_info(self, el, st):
        for l, (pol, _) in st.facts.items():
            if not pol:
                continue
            if l[0] == "in" and l[2] == ("a", el, "parents") and self.is_dist_info_dir(l[1]):
                return True
            if l[0] == "eq" and ("a", el, "parent") in l[1:] and any(self.is_dist_info_dir(x) for x in l[1:]):
                return True
            if l[0] == "truthy" and call_name(l[1]) == "is_relative_to":
                ops = [x for x in ((l[1][2],) + tuple(l[1][3])) if x is not None]
                if el in ops and any(self.is_dist_info_dir(x) for x in ops):
                    return True
        return False

    def is_dist_info_dir(self, t):
        # the path of the DistInfo object of the unpacked wheel
        return t[0] == "a" and t[2] == "path" or has_call(t, "glob") and ".dist-info" in str(consts_in(t))

    def can_raise(self, c):
        return False   # a raise ends the installation: only the normal paths matter for this property

    def on_call(self, c, st, eng):
        is_ct = c.func is not None and c.func.cls is not None and c.func.cls.name == "CopyTransaction"
        w = None
        if is_ct and c.name in ("copy", "copy_tree", "mkdir", "rm", "touch"):
            w = c.args[-1] if c.name != "copy_tree" else c.arg(1, "target")
            if c.name == "touch" and c.kwargs.get("fs_touch", FALSE) == FALSE and len(c.args) < 2:
                w = None
        elif c.func is not None and in_modules(c.func, "pkm.launchers"):
            if any(mentions(a, t) for a in c.all_args() for t in self.targets) and not c.name.startswith("patch"):
                w = c.all_args()[-1]
        else:
            w = written_path(c)
        if w is None or not any(mentions(w, t) for t in self.targets):
            return None
        self.writes += 1
        if st.ps[0] != "ok":
            note = st.trace[-3:]
            self.ctx.finding("write-before-verification", f"{self.entry}:{c.fr.func.short}:{c.name}",
                             f"{c.name} writes {show(w)} before every file of the wheel was checked against RECORD",
                             c.where, note)
        return Take()      # the first write decides the path


def check(ctx):
    p = program()
    check_signature_class(ctx)
    ctx.rule("every call that writes below the installation target is preceded, on every path from every entry of the "
             "wheel installer, by a completed loop over all unpacked files whose iterations end normally only for "
             "directories, files whose digest comparison succeeded, RECORD itself, or tolerated metadata mismatches")
    wd = p.cls(WHEEL + ".WheelDistribution")
    entries = []
    for f in wd.methods.values():
        if f.name == "install_to":
            entries.append(f)
    ctx.need(entries, "WheelDistribution.install_to")
    ie = wd.methods.get("install_extracted_wheel")
    if ie is not None:
        for c in callers_of(p, ie):
            if c not in entries:
                entries.append(c)
    for f in entries:
        eng_rule = R(ctx, [])
        eng_rule.entry = f.short
        tparams = []
        ti = types()
        for prm in f.params:
            t = ti.from_ann(f.annotations.get(prm), f.module, f, f.cls)
            if t and t[0] == "cls" and t[1].endswith("PackageInstallationTarget"):
                tparams.append(("p", f.qual, prm))
        if not tparams:
            # callers that own the target (self...): everything reached through self
            tparams = [("p", f.qual, f.params[0])] if f.params else []
        eng_rule.targets = tparams
        eng = Engine(eng_rule)
        out = eng.run(f, ("unseen", None, frozenset()))
        ctx.analysed(eng)
        ctx.count("entry_points")
        ctx.count("target_writes_checked", eng_rule.writes)
        ctx.count("loop_iteration_ends_checked", eng_rule.checked)
    ctx.at_least("target_writes_checked", 3)
    ctx.at_least("loop_iteration_ends_checked", 2)
