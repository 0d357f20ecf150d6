"""the digest comparison itself (used by I01 and I02): a true answer of HashSignature.validate_against implies that the
stored value equals an encoding of a digest that consumed the complete file"""
from ..common import *

READS = {"read", "readinto", "read1", "readinto1", "readall"}


class DigestRule(Rule):
    fact_names = {"read", "readinto", "hash_value", "read1", "readinto1"}
    interesting = {"readinto", "read", "update", "digest", "hexdigest", "open"}
    max_states = 16
    keep_all_facts = True

    def __init__(self, ctx, what):
        self.ctx, self.what = ctx, what
        self.digests = 0

    def can_raise(self, c):
        return False

    def on_loop_done(self, iterable, st, node, fr, eng):
        if any(x[0] == "call" and x[1][1] in ("open", "iter") for x in subterms(iterable)):
            return st.with_ps(("done", None))
        return None

    def on_call(self, c, st, eng):
        n = c.name.split(".")[-1]
        if n in READS and c.recv is not None:
            self.dropped(st, c, "before the next read")
            full = not c.args and n != "readinto"
            t = c.term()
            some = eng.assume(st.with_ps(("full" if full else "read", t)), t, True)
            end = (const(0) if n.startswith("readinto") else const(b""), st.with_ps(("done", None)))
            return Take(normal=([(t, some)] if some is not None else []) + [end])
        if n in ("read_bytes",):
            return Take(normal=[(c.term(), st.with_ps(("full", c.term())))])
        if n == "update" and len(c.args) == 1:
            if st.ps[0] == "read":
                data = st.ps[1]
                src = [data] + list(data[3])
                a = c.args[0]
                if any(mentions(a, x) for x in src if x[0] != "g" and x[0] != "c"):
                    return Take(normal=[(NONE, st.with_ps(("fed", data)))])
            elif st.ps[0] == "full" and c.args[0] == st.ps[1]:
                return Take(normal=[(NONE, st.with_ps(("done", None)))])
            elif st.ps[0] == "full":
                self.ctx.finding("digest-over-part", c.fr.func.short,
                                 "only a part of the data that was read is digested", c.where)
            return None
        if n in ("digest", "hexdigest") and c.recv is not None:
            self.digests += 1
            if st.ps[0] == "done":
                return None
            if st.ps[0] == "fed" or st.ps[0] == "start":
                self.ctx.finding("digest-over-part", self.what,
                                 f"{n}() is computed before the end of the file was reached", c.where)
                return None
            self.dropped(st, c, "before the digest is computed")
        return None

    def dropped(self, st, c, when):
        if st.ps[0] in ("read", "full"):
            self.ctx.finding("digest-over-part", self.what, f"data read from the file is not digested {when}", c.where)


def _strip_case(t):
    while t[0] == "call" and call_name(t) in ("lower", "casefold", "strip") and t[2] is not None:
        t = t[2]
    return t


def check_signature_class(ctx):
    p = program()
    base = p.cls("HashSignature")
    m = base.methods.get("validate_against")
    ctx.need(m, "HashSignature.validate_against")
    ctx.rule("HashSignature.validate_against answers true only under the equality of the stored value and an encoding "
             "of a digest; on every path each non-empty read is digested and reading ends only at end of file")
    for cls in [base] + list(p.all_subclasses(base)):
        m = p.find_method(cls, "validate_against")
        r = DigestRule(ctx, f"{cls.name}.validate_against")
        eng = Engine(r)
        out = eng.run(m, ("start", None), self_cls=cls.qual)
        ctx.analysed(eng)
        ctx.count("digest_computations", r.digests)
        slf = ("p", m.qual, m.params[0])
        stored = ("a", slf, "hash_value")
        for t, st in out.ret:
            s2 = eng.assume(st, t, True)
            if s2 is None:
                continue
            ctx.count("validate_true_paths")
            ok = False
            for l, (pol, _) in s2.facts.items():
                if not pol:
                    continue
                pair = None
                if l[0] == "eq":
                    pair = l[1:]
                elif l[0] == "truthy" and call_name(l[1]) == "compare_digest":
                    pair = l[1][3]
                if pair is None or len(pair) != 2:
                    continue
                for a, b in (pair, pair[::-1]):
                    hexa = has_call(b, "hexdigest")
                    if not (hexa or has_call(b, "digest")) or has_call(b, "@slice"):
                        continue
                    if any(x[0] == "s" for x in subterms(b) if x != b) and not hexa:
                        continue
                    if a == stored or hexa and _strip_case(a) == stored:
                        ok = True
            if not ok:
                ctx.finding("digest-compare", f"{cls.name}.validate_against",
                            "a true answer is not implied by the equality of the stored value and a digest of the file",
                            m.where, st.trace[-3:])
    ctx.at_least("validate_true_paths", 2)
    ctx.at_least("digest_computations", 2)
