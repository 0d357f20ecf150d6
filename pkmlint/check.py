"""runner: python3 -m pkmlint.check <PROPERTY>   (exit 0 held, 1 violated, 2 no answer)"""
from __future__ import annotations

import importlib
import json
import os
import sys
import threading
import time
import traceback
from pathlib import Path
from typing import Dict, List, Any

from . import model
from .model import AnalysisError

VERIF = Path(__file__).resolve().parents[1]
KNOWN = VERIF / "known_findings.txt"


class Finding:
    def __init__(self, rule: str, construct: str, message: str, loc: str = "", trace=()):
        self.rule, self.construct, self.message, self.loc, self.trace = rule, construct, message, loc, tuple(trace)

    @property
    def key(self):
        return f"{self.rule}|{self.construct}"

    def __str__(self):
        return f"[{self.rule}] {self.loc}: {self.message} (construct: {self.construct})"


class Ctx:
    def __init__(self, prop: str, tier: str):
        self.prop, self.tier = prop, tier
        self.findings: Dict[str, Finding] = {}
        self.counts: Dict[str, int] = {}
        self.samples: List[str] = []
        self.assumptions: List[str] = []
        self.rules: List[str] = []
        self.functions: set = set()
        self.minimum: List[tuple] = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def finding(self, rule, construct, message, loc="", trace=()):
        f = Finding(rule, construct, message, loc, trace)
        self.findings.setdefault(f.key, f)

    def rule(self, text: str):
        self.rules.append(text)

    def count(self, what: str, n: int = 1):
        self.counts[what] = self.counts.get(what, 0) + n

    def sample(self, s: str):
        if len(self.samples) < 60 and s not in self.samples:
            self.samples.append(s)

    def assume(self, s: str):
        self.assumptions.append(s)

    def analysed(self, eng):
        self.functions |= eng.inlined
        self.count("call_sites_followed", len(eng.calls_seen))
        self.count("interpreter_steps", eng.steps)

    def need(self, cond, msg):
        """an anchor of the analysis must exist"""
        if not cond:
            raise AnalysisError("anchor vanished: " + msg)

    def at_least(self, what: str, n: int):
        self.minimum.append((what, n))

    def check_minimum(self):
        for what, n in self.minimum:
          if self.counts.get(what, 0) < n:
            raise AnalysisError(f"only {self.counts.get(what, 0)} instances of '{what}' found, expected at least {n}")


def load_known() -> List[tuple]:
    out = []
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            line = line.strip()
            if line.startswith("known:"):
                # known: property=<id> key=<rule|construct> :: text
                head, _, text = line[len("known:"):].partition("::")
                pid = head.split("property=")[1].split()[0]
                key = head.split("key=")[1].strip()
                out.append((pid, key, text.strip()))
    return out


def run(prop: str, tier: str, seed: int) -> int:
    t0 = time.time()
    ctx = Ctx(prop, tier)
    mod = importlib.import_module(f"pkmlint.rules.{prop.lower()}")
    model.program()
    mod.check(ctx)
    known = {k: txt for p, k, txt in load_known() if p == prop}
    new = [f for k, f in sorted(ctx.findings.items()) if k not in known]
    if not new:
        ctx.check_minimum()
    old = [f for k, f in sorted(ctx.findings.items()) if k in known]
    for f in old:
        print(f"KNOWN-FINDING: property={prop} {f.key}: {known[f.key]}")
    for k in known:
        if k not in ctx.findings:
            print(f"note: listed finding is no longer reported: {k}")
    ev = VERIF / "evidence"
    ev.mkdir(exist_ok=True)
    p = model.program()
    cov: Dict[str, Any] = {
        "explanation": getattr(mod, "__doc__", "") or "",
        "rules": ctx.rules,
        "modules_parsed": len(p.modules), "functions_in_program": len(p.funcs), "classes_in_program": len(p.classes),
        "functions_analysed": len(ctx.functions), "source_digest": p.digest,
        "counts": ctx.counts, "samples": ctx.samples,
        "known_findings_reported": [f.key for f in old],
    }
    doc = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
           "assumptions": ctx.assumptions, "wall_s": round(time.time() - t0, 3), "violations": len(new)}
    (ev / f"{prop}.json").write_text(json.dumps(doc, indent=1, sort_keys=True, default=str))
    print(f"{prop}: {len(ctx.functions)} functions, {ctx.counts} in {time.time() - t0:.1f}s")
    if not new:
        return 0
    rep = ev / f"{prop}.violation.txt"
    lines = []
    for f in new:
        lines.append(str(f))
        for t in f.trace:
            lines.append("    via " + str(t))
    rep.write_text("\n".join(lines) + "\n")
    print("\n".join(lines))
    print(f"VIOLATION property={prop} replay={rep}")
    return 1


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rc = [2]

    def body():
        try:
            rc[0] = run(prop, tier, seed)
        except AnalysisError as e:
            print(f"ANALYSIS ERROR property={prop}: {e}")
            rc[0] = 2
        except Exception:
            traceback.print_exc(limit=-12)
            rc[0] = 2

    sys.setrecursionlimit(50000)
    threading.stack_size(512 * 1024 * 1024)
    th = threading.Thread(target=body)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(rc[0])


if __name__ == "__main__":
    main()
