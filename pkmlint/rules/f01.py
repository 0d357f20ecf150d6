"""F01: round trip of configuration files.  (1) reading: what is left after the declared fields were taken out of the
mapping is stored in the leftover field; (2) writing: no declared field is skipped unless its value is None, and the
leftovers are merged in without replacing anything that was already written, level by level; (3) every class that
describes (a part of) a file that is loaded, changed and saved has a leftover field; (4) the type of every declared field
has a codec; (5) the hook that runs after loading does not rewrite declared fields."""
from ..common import *

CODEC = "pkm.config.configclass.ConfigCodec"
FILE = "pkm.config.configclass.ConfigFile"


# ---------------------------------------------------------------- the codec
class Read(Rule):
    keep_all_facts = True
    max_states = 80
    interesting = {"setattr", "leftover"}

    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f
        self.raw = ("p", f.qual, f.params[1])
        self.stored = 0

    def opaque(self, f):
        return f.name in ("parse", "_pop_key", "field_codec_for_or_none", "field_codec_for")

    def can_raise(self, c):
        return False

    def on_iter(self, it, el, st, node, fr, eng):
        if fr.func is self.f:
            return st.with_ps(False)

    def left(self, st):
        return [pol for l, (pol, _) in st.facts.items() if l[0] == "truthy" and l[1][0] == "a" and l[1][2] == "leftover"]

    def assigned(self, v, st, node, fr):
        self.stored += 1
        if True in self.left(st) and not mentions(v, self.raw) and not (v[0] == "cont" and st.heap.get(v)):
            self.ctx.finding("leftovers-not-kept", self.f.short, "the keys that no field declares are not stored in the leftover field",
                             f"{fr.func.module.rel}:{node.lineno}")

    def on_call(self, c, st, eng):
        if c.name == "setattr" and len(c.args) == 3:
            self.assigned(c.args[2], st, c.node, c.fr)
            return Take(normal=[(NONE, st.with_ps(True))])
        return None

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        if kind == "attr":
            self.assigned(value, st, node, fr)
            return st.with_ps(True)

    def on_iter_end(self, it, el, st, node, fr, eng, filtered):
        if fr.func is self.f and True in self.left(st) and not st.ps:
            self.ctx.finding("leftovers-not-kept", self.f.short, "the keys that no field declares are not stored in the leftover field",
                             f"{fr.func.module.rel}:{node.lineno}")


class Write(Rule):
    keep_all_facts = True
    max_states = 120
    max_depth = 5
    interesting = {"update", "setdefault"}

    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f
        self.obj = ("p", f.qual, f.params[1])
        self.merges = self.written = 0

    # ps: (a declared field may have been written, this iteration wrote, current leftover key was merged)
    def start(self):
        return (False, False, False)

    def opaque(self, f):
        return f.name in ("unparse", "_shove_key", "field_codec_for_or_none", "field_codec_for")

    def can_raise(self, c):
        return False

    def is_value(self, t):
        return t is not None and any(call_name(x) == "getattr" and x[3] and x[3][0] == self.obj for x in subterms(t))

    def leftover_fact(self, st):
        r = [pol for l, (pol, _) in st.facts.items() if l[0] == "truthy" and l[1][0] == "a" and l[1][2] == "leftover"]
        return r[0] if r else None

    def raw(self, t, st):
        """t is (a part of) the leftovers"""
        return self.is_value(t) and not has_call(t, "unparse")

    def on_call(self, c, st, eng):
        ps = st.ps
        n = c.name
        if n == "getattr" and c.args and c.args[0] == self.obj:
            return Take(normal=[(("call", ("x", "getattr"), None, tuple(c.args[:2]), ()), st)])
        if n == "_shove_key" and len(c.args) == 3:
            self.written += 1
            return Take(normal=[(NONE, st.with_ps((True, True, ps[2])))])
        if n == "unparse":
            return Take(normal=[(c.term(), st)])
        arg = c.args[0] if c.args else None
        if n == "update" and c.recv is not None and arg is not None and self.raw(arg, st) and self.leftover_fact(st) is not False:
            self.merges += 1
            if ps[0]:
                self.ctx.finding("leftovers-replace", self.f.short, "the undeclared keys are written over the sections that were written "
                                 "for declared fields", c.where, st.trace[-3:])
            return Take(normal=[(NONE, st.with_ps((ps[0], True, True)))])
        if n == "setdefault" and len(c.args) == 2 and self.raw(c.args[1], st):
            self.merges += 1
            return Take(normal=[(c.term(), st.with_ps((ps[0], True, ps[2])))])
        if c.func is not None and c.func.cls is None and sum(1 for a in c.args if self.raw(a, st)) and self.in_merge(c):
            # the merge calls itself for a nested section
            return Take(normal=[(NONE, st.with_ps((ps[0], True, True)))])
        return None

    def in_merge(self, c):
        return any(fr is c.func for fr in self.frames(c.fr)) or c.func is c.fr.func

    @staticmethod
    def frames(fr):
        while fr is not None:
            yield fr.func
            fr = getattr(fr, "caller", None) or getattr(fr, "parent", None)

    def on_iter(self, it, el, st, node, fr, eng):
        if self.raw(el, st):
            return st.with_ps(st.ps[:2] + (False,))
        if fr.func is self.f:
            return st.with_ps((st.ps[0], False, False))

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        ps = st.ps
        if kind != "sub":
            return None
        if self.leftover_fact(st) is not False and self.raw(value, st) and (self.leftover_fact(st) or fr.func is not self.f):
            self.merges += 1
            absent = any(l[0] == "in" and l[1] == key and l[2] == base and not pol for l, (pol, _) in st.facts.items())
            if ps[0] and not absent:
                self.ctx.finding("leftovers-replace", self.f.short, "an undeclared key replaces what was written for a declared field",
                                 f"{fr.func.module.rel}:{node.lineno}", st.trace[-3:])
            return st.with_ps((ps[0], True, True))
        if self.is_value(value) or has_call(value, "unparse"):
            self.written += 1
            return st.with_ps((True, True, ps[2]))
        return None

    def on_iter_end(self, it, el, st, node, fr, eng, filtered):
        ps = st.ps
        if self.raw(el, st):
            if not ps[2] and not any(l[0] == "isinst" and not pol for l, (pol, _) in st.facts.items()):
                self.ctx.finding("leftover-lost", self.f.short, "an undeclared key is neither written nor merged into an existing section",
                                 f"{fr.func.module.rel}:{getattr(node, 'lineno', 0)}", st.trace[-3:])
            return None
        if fr.func is self.f and not ps[1]:
            self.ctx.count("fields_not_written")
            excused = any(l[0] == "isnone" and pol and self.is_value(l[1]) for l, (pol, _) in st.facts.items())
            if not excused and not self.elsewhere(st):
                self.ctx.finding("field-not-written", self.f.short, "a field is not written although it has a value",
                                 f"{fr.func.module.rel}:{getattr(node, 'lineno', 0)}", st.trace[-3:])
        return None

    def on_loop_done(self, it, st, node, fr, eng):
        """every undeclared key was visited"""
        r = st.heap.get(it)
        if self.raw(it, st) or isinstance(r, frozenset) and any(self.raw(el, st) for el, _ in r):
            return st.with_ps((st.ps[0], True, st.ps[2]))

    def elsewhere(self, st):
        """leftovers and declared fields are handled by two loops: the other one handles it"""
        return self.leftover_fact(st) is not None and self.two_loops

    two_loops = False


# ---------------------------------------------------------------- the classes
def config_classes(p):
    out = []
    for c in p.classes.values():
        for d in c.node.decorator_list:
            n = dotted(d.func if isinstance(d, ast.Call) else d) or ""
            if n.split(".")[-1] == "config":
                out.append(c)
    return out


def field_calls(c):
    """name -> (annotation node or None, config_field call or None)"""
    out = {}
    for s in c.node.body:
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            v = s.value
            call = v if isinstance(v, ast.Call) and (dotted(v.func) or "").split(".")[-1] == "config_field" else None
            if call is not None or not s.target.id.startswith("_"):
                out[s.target.id] = (s.annotation, call)
        elif isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and (dotted(s.value.func) or "").split(".")[-1] == "config_field":
            for t in s.targets:
                if isinstance(t, ast.Name):
                    out[t.id] = (None, s.value)
    return out


def kw(call, name):
    return next((k.value for k in call.keywords if k.arg == name), None) if call is not None else None


def is_leftover(call):
    v = kw(call, "leftover")
    return isinstance(v, ast.Constant) and v.value is True


def annotation(a):
    return ast.parse(a.value, mode="eval").body if isinstance(a, ast.Constant) and isinstance(a.value, str) else a


def codec_keys(p):
    """the types that some codec table maps"""
    out = set()
    for m in p.modules.values():
        if m.name.split(".")[0] not in LIBRARY:
            continue
        for n in ast.walk(m.tree):
            d = None
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "_COMMON_CODECS" for t in n.targets):
                d = n.value
            elif isinstance(n, ast.Call) and n.args and (dotted(n.func) or "x").split(".")[-1] in ("ConfigCodec", "extended") or \
                    isinstance(n, ast.Call) and n.args and isinstance(n.func, ast.Attribute) and n.func.attr == "extended":
                d = n.args[0]
            if isinstance(d, ast.Dict):
                for k in d.keys:
                    t = dotted(k) if k is not None else None
                    if t:
                        out.add(t.split(".")[-1])
    return out


GENERIC = {"List": "list", "Dict": "dict", "list": "list", "dict": "dict"}


def has_codec(p, ctx, node, mod, keys, configs, enums):
    node = annotation(node)
    if isinstance(node, ast.Subscript):
        base = (dotted(node.value) or "").split(".")[-1]
        if base not in GENERIC or GENERIC[base] not in keys:
            return False
        args = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
        return all(has_codec(p, ctx, a, mod, keys, configs, enums) for a in args)
    n = (dotted(node) or "").split(".")[-1]
    return n in keys or n in configs or n in enums


def check(ctx):
    p = program()
    ti = types()
    codec = p.cls(CODEC)
    ctx.need(codec, CODEC)
    ctx.rule("reading stores the undeclared keys in the leftover field")
    ctx.rule("writing merges them back level by level and skips a declared field only if it is None")
    f = p.find_method(codec, "parse")
    ctx.need(f, CODEC + ".parse")
    r = Read(ctx, f)
    eng = Engine(r)
    eng.run(f, False)
    ctx.analysed(eng)
    ctx.count("fields_stored_when_reading", r.stored)
    f = p.find_method(codec, "unparse")
    ctx.need(f, CODEC + ".unparse")
    r = Write(ctx, f)
    r.two_loops = sum(isinstance(n, (ast.For, ast.comprehension)) for n in ast.walk(f.node)) > 1
    eng = Engine(r)
    eng.run(f, r.start())
    ctx.analysed(eng)
    ctx.count("fields_written", r.written)
    ctx.count("merges_of_leftovers", r.merges)
    if not r.merges:
        ctx.finding("leftover-lost", f.short, "the undeclared keys are never written", f.where)

    # (3) the classes
    ctx.rule("every class that is (part of) a configuration file that is loaded and saved again declares a leftover field")
    ctx.rule("every declared field has a type with a codec, or a codec of its own")
    cfgs = config_classes(p)
    by_name = {c.name: c for c in cfgs}
    keys = codec_keys(p)
    enums = {c.name for c in p.classes.values() if any((dotted(b) or "").split(".")[-1] == "Enum" for b in c.node.bases)}
    loaded, saved = set(), set()
    for fn in p.funcs.values():
        if fn.module.name.split(".")[0] not in LIBRARY:
            continue
        for n in walk_own(fn.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("save", "load", "load_effective"):
                if n.func.attr == "save":
                    t = ti.expr_type(n.func.value, fn)
                    if t and t[0] == "cls":
                        saved.add(t[1].split(".")[-1])
                else:
                    d = dotted(n.func.value)
                    if d and d.split(".")[-1] in by_name:
                        loaded.add(d.split(".")[-1])
    files = {c.name for c in cfgs if p.cls(FILE) in p.mro(c)}
    roots = {n for n in loaded & saved & files if io_name(by_name[n]) in ("TomlConfigIO", "JsonConfigIO")}
    work, parts = list(roots), set()
    while work:
        n = work.pop()
        if n in parts:
            continue
        parts.add(n)
        for _, (ann, call) in field_calls(by_name[n]).items():
            if ann is None or kw(call, "codec") is not None:
                continue
            for x in ast.walk(annotation(ann)):
                if isinstance(x, ast.Name) and x.id in by_name:
                    work.append(x.id)
    for n in sorted(parts):
        c = by_name[n]
        ctx.count("classes_that_are_saved_again")
        ctx.sample(f"saved again: {n}")
        if n in OWN:
            continue
        if not any(is_leftover(call) for _, (a, call) in field_calls(c).items()):
            ctx.finding("no-leftover-field", n, f"{n} is loaded and saved again but has no field that keeps the keys it does not declare",
                        f"{c.module.rel}:{c.node.lineno}")
    # (4) types
    for c in cfgs:
        for name, (ann, call) in field_calls(c).items():
            if ann is None or is_leftover(call) or kw(call, "codec") is not None:
                continue
            ctx.count("declared_fields")
            if not has_codec(p, ctx, ann, c.module, keys, set(by_name), enums):
                ctx.finding("no-codec", f"{c.name}.{name}", f"the field {name} of {c.name} has the type {ast.unparse(ann)}, for which there is "
                            "no codec: a file that sets it cannot be read", f"{c.module.rel}:{ann.lineno}")
    # (5) hooks
    ctx.rule("__post_init__ (which runs on loaded objects) does not rewrite declared fields")
    for c in cfgs:
        m = p.find_method(c, "__post_init__")
        if m is None:
            continue
        ctx.count("load_hooks")
        names = set(field_calls(c))
        for n in walk_own(m.node):
            tg = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
            for t in tg:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == m.params[0] and t.attr in names:
                    ctx.finding("rewritten-on-load", f"{c.name}.{t.attr}", f"{c.name} rewrites its field {t.attr} when it is loaded; saving "
                                "writes the rewritten value", f"{m.module.rel}:{n.lineno}")
    ctx.at_least("classes_that_are_saved_again", 6)
    ctx.at_least("declared_fields", 40)
    ctx.at_least("fields_written", 1)
    ctx.at_least("fields_stored_when_reading", 1)


# files that only pkm itself writes: nobody else adds keys to them
OWN = {"_PackageLockConfig", "_LockedVersion", "FetchInfoConfig", "PackageInstallationInfo"}


def io_name(c):
    for d in c.node.decorator_list:
        if isinstance(d, ast.Call):
            v = kw(d, "io")
            if isinstance(v, ast.Call):
                return (dotted(v.func) or "").split(".")[-1]
    return None
