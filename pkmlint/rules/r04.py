"""R04: an artifact is used for an environment only if it fits it.

One arbitrary element of the artifact list of every package class is followed through all methods that are given an environment
or an installation target: wherever it is retrieved, linked, or returned as the choice, the path must have established that the
Python requirement of this artifact is absent or admits the interpreter version of that environment, and that the environment
supports its tags (or that it is not a wheel).  The tag scorer itself must return a score only under constraints that relate the
ABI, the platform, the interpreter name and its version to the environment; artifacts built from an index keep the Python
requirement found there."""
from ..common import *

USES = {"_retrieve_artifact", "fetch_resource", "install_to", "extract_metadata", "symlink_to", "read_bytes", "extractall", "unpack",
        "copy_tree", "patch_shabang_for_interpreter", "save"}
SCORES = {"compatibility_tag_score", "compatibility_score"}


class Fit(Rule):
    max_states = 60
    max_depth = 6
    term_depth = 20
    other_elements = True

    def __init__(self, ctx, cls, lst, item, entry):
        self.ctx, self.cls, self.lst, self.item, self.entry = ctx, cls, lst, item, entry
        ti = types()
        self.req = [a for a in ("requires_python", "required_python", "python_requires") if ti.attr_type(item, a)]
        self.uses = 0
        self.own = program().mro(cls)

    def opaque(self, f):
        if f.name in SCORES or f.name == "allows_version" or f.name in ("fetch_resource",):
            return True
        if f.cls is self.item:
            return f.name not in ("is_binary", "is_wheel") and not (f.is_property_like if hasattr(f, "is_property_like") else False) and len(f.node.body) > 3
        return in_modules(f, "pkm.utils.http", "pkm.api.versions", "pkm.launchers", "pkm.config", "pkm.api.distributions", "pkm.api.dependencies")

    def force_inline(self, f):
        return f.cls is not None and f.cls in self.own and not f.is_abstract

    def can_raise(self, c):
        return c.name.split(".")[-1] in ("allows_version", "max", "min", "next")

    def join_ps(self, a, b):
        both = a & b
        return frozenset(x for x in a | b if x[0] not in ("py", "tag") or x in both)

    def keep(self, lit, st, eng):
        return any(isinstance(x, tuple) and self.items_in(x) for x in lit[1:])

    # ---- the artifact
    def is_list(self, t):
        return t[0] == "a" and t[2] == self.lst and t[1][0] == "p"

    def is_item(self, t):
        return t[0] in ("elem", "other", "s") and self.is_list(t[1])

    def items_in(self, t):
        return {x for x in subterms(t) if self.is_item(x)}

    def env_rooted(self, t):
        while t[0] == "a":
            t = t[1]
        return t[0] == "p" and t[2] != "self" and t[1] == self.entry.qual

    # ---- established facts
    def py_ok(self, a, st):
        if not self.req or ("py", a) in st.ps:
            return True
        for l, (pol, _) in st.facts.items():
            if l[0] not in ("truthy", "isnone"):
                continue
            x = l[1]
            if x[0] == "a" and x[1] == a and x[2] in self.req:
                if l[0] == "truthy" and not pol or l[0] == "isnone" and pol:
                    return True
            if l[0] == "truthy" and pol and call_name(x) == "allows_version" and x[2] is not None and x[3]:
                spec, v = x[2], x[3][0]
                if spec[0] == "a" and spec[1] == a and spec[2] in self.req and v[0] == "a" and v[2] == "interpreter_version" and self.env_rooted(v):
                    return True
        return False

    def tag_ok(self, a, st):
        if ("tag", a) in st.ps:
            return True
        for l, (pol, _) in st.facts.items():
            x = l[1] if len(l) > 1 else None
            if l[0] == "isnone" and not pol and call_name(x) in SCORES and x[2] is not None and self.env_rooted(x[2]) and x[3] and mentions(x[3][0], a) and \
                    all(self.is_attr(y, a) for y in subterms(x[3][0])):
                return True
            if l[0] == "truthy" and not pol and x[0] == "call" and mentions(x, a):
                n = call_name(x)
                if n == "endswith" and const(".whl") in x[3] or n in ("is_binary", "is_wheel"):
                    return True
            if l[0] == "eq" and not pol and const(".whl") in l[1:] and any(isinstance(y, tuple) and mentions(y, a) for y in l[1:]):
                return True
        return False

    def ok(self, a, st):
        return self.py_ok(a, st) and self.tag_ok(a, st)

    def why(self, a, st):
        out = []
        if not self.py_ok(a, st):
            out.append("its Python requirement was not checked against the interpreter of the target environment")
        if not self.tag_ok(a, st):
            out.append("the target environment was not shown to support its tags")
        return " and ".join(out)

    # ---- iterations: what is still held of an artifact when its iteration ends was checked in it
    def tracked(self, el):
        """the artifacts an iteration is about: its element, or what is in the tuple it yields"""
        if self.is_item(el):
            return [el] if el[0] == "elem" else []
        if el[0] in ("tup", "kv"):
            return [x for y in (el[1] if el[0] == "tup" else el[1:]) for x in self.tracked(y)]
        return []

    def on_iter(self, it, el, st, node, fr, eng):
        for a in self.tracked(el):
            at = ("visited", a, fr.fid, node.lineno, getattr(node, "col_offset", 0))
            if at in st.ps:
                return DEAD      # every artifact is visited once
            st = st.with_ps(frozenset(x for x in st.ps if x[0] != "kept" or x[1] != a or x[3] == "loop") | {("in", a), ("seen", a), at})
        return st

    def on_loop_done(self, it, st, node, fr, eng):
        gone = {x for x in st.ps if x[0] == "visited" and x[2:] == (fr.fid, node.lineno, getattr(node, "col_offset", 0))}
        return st.with_ps(st.ps - gone) if gone else None

    def held(self, el, st, node, fr, brk):
        """is el the value of a variable that is read after the loop"""
        if not isinstance(node, (ast.For, ast.AsyncFor)):
            # a comprehension collects the element, or something about it
            e = getattr(node, "elt", None) or getattr(node, "key", None)
            tg = {n.id for g in getattr(node, "generators", ()) for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            return e is not None and any(isinstance(x, ast.Name) and x.id in tg for x in (
                [e] + list(getattr(e, "elts", ())) + [getattr(node, "value", None)]))
        last = getattr(node, "end_lineno", node.lineno)
        later = {n.id for n in ast.walk(fr.func.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and
                 not node.lineno <= n.lineno <= last}
        if not brk:
            later -= {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)}
        return any(k[0] == fr.fid and k[1] in later and self.holds(v, el) for k, v in st.env.items())

    def holds(self, v, el):
        return v == el or isinstance(v, tuple) and v and v[0] in ("phi", "tup", "kv") and any(
            self.holds(x, el) for x in (v[1] if v[0] in ("phi", "tup") else v[1:]))

    def over(self, el, st, node, fr, brk):
        for a in self.tracked(el):
            ps = st.ps - {("in", a)}
            if brk:
                ps = frozenset(x for x in ps if x[0] != "visited" or x[2:] != (fr.fid, node.lineno, getattr(node, "col_offset", 0)))
            if self.held(a, st, node, fr, brk) and not self.ok(a, st):
                ps |= {("kept", a, self.why(a, st), "loop" if isinstance(node, ast.For) else "comp")}
            # what was established about an artifact stays true
            ps |= {(k, a) for k, fn in (("py", self.py_ok), ("tag", self.tag_ok)) if fn(a, st)}
            st = st.with_ps(frozenset(ps))
        return st

    def on_iter_end(self, it, el, st, node, fr, eng, filtered):
        return self.over(el, st, node, fr, False)

    def on_iter_break(self, it, el, st, node, fr, eng):
        return self.over(el, st, node, fr, True)

    def judged(self, a, st):
        if self.ok(a, st):
            return None
        if ("in", a) in st.ps or ("seen", a) not in st.ps:
            return self.why(a, st)
        for x in st.ps:
            if x[0] == "kept" and x[1] == a:
                return x[2]
        return None

    def use(self, t, st, what, where):
        for a in self.items_in(t):
            if a[0] == "other":
                continue
            self.uses += 1
            w = self.judged(a, st)
            if w:
                self.ctx.finding("artifact-unchecked", f"{self.cls.name}.{self.entry.name}",
                                 f"{what} an artifact of {self.cls.name} although {w}", where)

    def is_attr(self, t, a):
        """an attribute of the artifact that exists"""
        if t[0] == "a" and t[1] == a:
            p = program()
            return any(t[2] in k.fields or t[2] in k.methods or t[2] in k.class_attrs or any(
                isinstance(n, ast.Attribute) and n.attr == t[2] and isinstance(n.ctx, ast.Store) for m in k.methods.values() for n in walk_own(m.node))
                for k in p.mro(self.item))
        return True

    def on_store(self, kind, base, key, value, st, node, fr, eng):
        x = base
        while x is not None and x[0] in ("a", "s"):
            x = x[1]
        if kind in ("attr", "sub") and value is not None and x is not None and x[0] == "p" and x[2] == "self" and any(
                self.holds(value, a) for a in self.items_in(value) if a[0] != "other") and not (
                isinstance(key, tuple) and any(y[0] == "p" and y[2] != "self" and y[1] == self.entry.qual for y in subterms(key))):
            self.ctx.finding("choice-remembered", f"{self.cls.name}.{self.entry.name}",
                             f"{self.entry.short} remembers an artifact chosen for one environment in the package itself: it may be used for another one",
                             f"{fr.func.module.rel}:{getattr(node, 'lineno', 0)}")

    def on_property(self, c, st, eng):
        if c.name.split(".")[-1] == "interpreter_version" or c.recv is not None and self.is_item(c.recv):
            return Take(normal=[(("a", c.recv, c.name.split(".")[-1]), st)])

    def on_call(self, c, st, eng):
        n = c.name.split(".")[-1]
        if c.func is not None and n not in SCORES and c.func.cls not in self.own and c.func.cls is not self.item:
            for x in c.all_args():
                if isinstance(x, tuple) and self.is_item(x):
                    self.use(x, st, f"{self.entry.short} hands to {n}", c.where)
        elif n in USES or c.cls is not None and c.cls.name.endswith("Distribution"):
            for x in ([c.recv] if c.recv is not None and n not in ("_retrieve_artifact",) else []) + c.all_args():
                if isinstance(x, tuple) and x[0] != "clos":
                    self.use(x, st, f"{self.entry.short} ({n}) uses", c.where)
        return None


# ---------------------------------------------------------------- the tag scorer
class Plain(Rule):
    keep_all_facts = True
    max_states = 4000
    max_depth = 5
    term_depth = 16

    def can_raise(self, c):
        return False


def scorer_of(p):
    """functions that score an (interpreter, abi, platform) combination"""
    out = []
    for f in p.funcs.values():
        ps = [a for a in f.params if a not in ("self", "cls")]
        if f.module.name == "pkm.api.environments.environment_introspection" and len(ps) == 3 and any(
                isinstance(n, ast.Constant) and n.value == "any" for n in walk_own(f.node)):
            out.append(f)
    return out


def check_scorer(ctx, f):
    r = Plain()
    eng = Engine(r)
    o = eng.run(f, frozenset())
    ctx.analysed(eng)
    names = [a for a in f.params if a not in ("self", "cls")]
    P = {a: ("p", f.qual, a) for a in names}
    plat = None
    paths = 0
    for t, st in o.ret:
        if t == NONE:
            continue
        facts = [(l, pol) for l, (pol, _) in st.facts.items()]

        def parts(x, d=0):
            """the subterms of x, with those of the elements of collections in it"""
            out = set()
            for y in subterms(x):
                out.add(y)
                rec = st.heap.get(y) if y[0] == "cont" else None
                if y[0] == "cont" and not (isinstance(rec, frozenset) and rec):
                    out |= set(P.values())      # nothing was recorded about its elements
                if isinstance(rec, frozenset) and d < 4:
                    for el, _ in rec:
                        out |= parts(el, d + 1)
            return out

        def env(x):
            """a value of the environment: no constant, and nothing of the tag in it"""
            return isinstance(x, tuple) and not any(q in parts(x) for q in P.values()) and any(
                y[0] in ("g", "a", "p", "call", "unk", "new", "cont") for y in parts(x))

        def of(x, q):
            return isinstance(x, tuple) and q in parts(x)

        def related(q):
            """some positive relation between the component q and the environment"""
            for l, pol in facts:
                x = l[1]
                if l[0] == "isnone" and not pol and x[0] == "call" and any(env(a) for a in x[3]) and any(of(a, q) for a in x[3]) and call_name(x) != "fullmatch":
                    yield "member"
                if l[0] == "in" and pol and of(l[1], q) and env(l[2]):
                    yield "member"
                if l[0] == "eq" and pol and (l[1] == q and env(l[2]) or l[2] == q and env(l[1])):
                    yield "equal"
                if l[0] == "truthy" and pol and x[0] == "call" and call_name(x) in ("endswith", "startswith") and of(x[2], q) and any(
                        env(a) for a in x[3]):
                    yield "prefix" if call_name(x) == "startswith" else "member"

        def not_newer(q):
            """the version of the environment was not less than the one the tag names"""
            return any(l[0] == "lt" and not pol and env(l[1]) and (of(l[2], q) or l[1] == l[2]) or
                       l[0] == "lt" and pol and of(l[1], q) and env(l[2]) for l, pol in facts)

        def is_const(q, *vals):
            return any(l[0] == "eq" and pol and q in l[1:] and any(const(v) in l[1:] for v in vals) for l, pol in facts)

        # which parameter is which
        roles = {}
        for a in names:
            roles["platform" if a.startswith(("pl", "os", "pt")) else "abi" if a.startswith("abi") else "interpreter"] = P[a]
        if len(roles) < 3:
            roles = dict(zip(("interpreter", "abi", "platform"), P.values()))
        paths += 1
        abi, pl, ip = roles["abi"], roles["platform"], roles["interpreter"]
        miss = []
        if not any(True for _ in related(abi)):
            miss.append("the ABI was not found among the ABIs of the environment")
        rel = set(related(pl))
        if not (is_const(pl, "any") or "equal" in rel or "member" in rel and not_newer(pl)):
            miss.append("the platform is neither `any` nor the one of the environment, nor one of its architecture that is not newer")
        starts = any(l[0] == "truthy" and pol and call_name(l[1]) == "startswith" and l[1][2] == ip for l, pol in facts) or "equal" in set(related(ip)) \
            or any(l[0] in ("eq", "in") and pol and any(of(x, ip) for x in l[1:] if isinstance(x, tuple)) and any(
                const(v) in subterms(x) for x in l[1:] if isinstance(x, tuple) for v in ("py",)) or
                l[0] == "eq" and pol and any(of(x, ip) for x in l[1:]) and any(env(x) for x in l[1:]) for l, pol in facts)
        if not starts:
            miss.append("the interpreter name was not compared")
        major = any(l[0] == "eq" and pol and any(of(x, ip) for x in l[1:]) and any(env(x) for x in l[1:]) for l, pol in facts)
        if not (major and not_newer(ip)):
            miss.append("the interpreter version the tag names was not compared with the one of the environment")
        for m in miss:
            ctx.finding("tag-accepted", f.short + " " + m.split(" was")[0], f"{f.short} returns a score on a path where {m}", f"{f.module.rel}:{f.node.lineno}")
    ctx.count("scoring_paths_judged", paths)


class Tags(Plain):
    max_states = 40

    def __init__(self, ctx, scorers, entry):
        self.ctx, self.entry = ctx, entry
        self.scorers = {f.name for f in scorers} | {outermost(f).name for f in scorers}

    def opaque(self, f):
        return f.name in self.scorers

    def on_property(self, c, st, eng):
        if c.name.split(".")[-1] in self.scorers:
            return Take(normal=[(("a", c.recv, c.name.split(".")[-1]), st)])

    def component(self, t):
        """the index of the tag component an argument is taken from"""
        out = set()
        for x in subterms(t):
            if x[0] == "s" and x[2][0] == "c" and isinstance(x[2][2], int) and call_name(x[1]) in ("split", "rsplit"):
                out.add(x[2][2] % 3)
        return out

    def on_call(self, c, st, eng):
        if len(c.args) == 3 and (c.name.split(".")[-1] in self.scorers or c.recv is None and c.func is None and c.ext is None):
            self.ctx.count("tag_components_judged")
            for i, a in enumerate(c.args):
                k = self.component(a)
                if k and k != {i}:
                    self.ctx.finding("tag-components", self.entry.short,
                                     f"{self.entry.short} passes component {sorted(k)} of the tag where component {i} is scored", c.where)


def positional(ctx, f):
    """wheel names may have a build tag: the tags are the last three components"""
    eng = Engine(Plain())
    o = eng.run(f, frozenset())
    ctx.analysed(eng)
    for t, _ in o.ret:
        for x in subterms(t):
            pos = None
            if x[0] == "call" and x[1] == ("x", "@slice") and x[3][1][0] == "op" and x[3][1][1] == "slice" and call_name(x[3][0]) == "split":
                b = x[3][1][2]
                pos = b[2] if b[0] == "c" else None
            if x[0] == "s" and x[2][0] == "c" and call_name(x[1]) == "split" and len(x[1][3]) == 1:
                pos = x[2][2]
            if isinstance(pos, int) and pos not in (-3, -2, -1):
                ctx.finding("tag-position", f.short, f"{f.short} takes component {pos} of the wheel name as a tag although a build number may shift it",
                            f"{f.module.rel}:{f.node.lineno}")
    ctx.count("tag_extractions_judged")


class Built(Plain):
    max_states = 60

    def __init__(self, ctx, entry):
        self.ctx, self.entry = ctx, entry

    def opaque(self, f):
        return not (f.cls is self.entry.cls and f.cls is not None or f.module is self.entry.module)

    def key(self, t):
        return any(x[0] == "c" and isinstance(x[2], str) and "requires" in x[2] and "python" in x[2] for x in subterms(t))

    def on_call(self, c, st, eng):
        if c.cls is None or c.cls.name != "PackageArtifact":
            return None
        self.ctx.count("artifact_constructions")
        t = c.arg(1, "requires_python")
        if t is not None and t != NONE and self.key(t):
            return None
        for l, (pol, _) in st.facts.items():
            if (l[0] == "truthy" and not pol or l[0] == "isnone" and pol or l[0] == "in" and not pol) and any(
                    isinstance(x, tuple) and self.key(x) for x in l[1:]):
                return None
        self.ctx.finding("requirement-dropped", self.entry.short,
                         f"{self.entry.short} builds an artifact without the Python requirement the index gives for it", c.where)


def check(ctx):
    p = program()
    ti = types()
    ctx.rule("an element of an artifact list is retrieved, linked or handed on only if its Python requirement is absent or admits the "
             "interpreter version of the given environment, and it is no wheel or the given environment scored its tags")
    for c in sorted(p.classes.values(), key=lambda c: c.qual):
        if c.module.name.split(".")[0] not in LIBRARY or not any(m.name == "Package" for m in p.mro(c)):
            continue
        attrs = {a for k in p.mro(c) for m in k.methods.values() for n in walk_own(m.node) if isinstance(n, ast.Attribute) and
                 isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self" for a in [n.attr]}
        for a in sorted(attrs):
            t = ti.attr_type(c, a)
            if not t or t[0] != "list" or not t[1] or t[1][0] != "cls" or "Artifact" not in t[1][1]:
                continue
            item = p.cls(t[1][1])
            ctx.count("package_classes_with_artifacts")
            for m in c.methods.values():
                if m.name == "__init__" or m.is_abstract or not any(x in ("env", "environment", "target") for x in m.params):
                    continue
                r = Fit(ctx, c, a, item, m)
                eng = Engine(r)
                o = eng.run(m, frozenset())
                for t, st in o.ret:
                    if t[0] in ("elem", "s", "phi", "tup"):
                        r.use(t, st, f"{m.short} returns", f"{m.module.rel}:{m.node.lineno}")
                ctx.analysed(eng)
                ctx.count("methods_followed")
                ctx.count("artifact_uses_judged", r.uses)
                ctx.sample(f"{m.short} on {c.name}: {r.uses} uses of an artifact judged")
    ctx.rule("the tag scorer returns a score only where the ABI, the platform, the interpreter and its version were related to the environment")
    sc = scorer_of(p)
    for f in sc:
        check_scorer(ctx, f)
    for f in p.funcs.values():
        if f.name == "compatibility_score" and f.cls is not None:
            eng = Engine(Tags(ctx, sc, f))
            eng.run(f, frozenset())
            ctx.analysed(eng)
        if f.name == "extract_compatibility_tags_of":
            positional(ctx, f)
    ctx.rule("an artifact built from an index entry keeps the Python requirement of the entry")
    for f in library_functions(p):
        if f.parent is None and f.name != "__init__" and any(
                isinstance(n, ast.Call) and (resolve_name(f, n.func) or "").split(".")[-1] == "PackageArtifact" for n in ast.walk(f.node)):
            eng = Engine(Built(ctx, f))
            eng.run(f, frozenset())
            ctx.analysed(eng)
    ctx.at_least("artifact_uses_judged", 4)
    ctx.at_least("methods_followed", 3)
