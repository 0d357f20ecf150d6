#!/usr/bin/env python3
"""writes DESIGN.md: the prose below, and per property what the rule modules, MANIFEST, seeds and known findings say"""
import ast, json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
HEAD = (ROOT / "tools/design_head.md").read_text()
TAIL = (ROOT / "tools/design_tail.md").read_text()
props = [json.loads(l) for l in (ROOT / "properties.jsonl").read_text().splitlines() if l.strip()]
man = json.loads((ROOT / "MANIFEST.json").read_text())
checks = {c["property"]: c for c in man["checks"]}
na = {c["property"]: c["reason"] for c in man["not_applicable"]}
seeds = {}
for d in sorted((ROOT / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    seeds.setdefault(m["property"], []).append((d.name, m))
known = [l.strip() for l in (ROOT / "known_findings.txt").read_text().splitlines() if l.strip() and not l.startswith("#")]
out = [HEAD, "\n## 4. Property by property\n"]
for p in props:
    i = p["id"]
    out.append(f"\n### {i} — {p['title']}\n\n{p['statement']}\n")
    if i in na:
        out.append(f"*Not applicable to static analysis here:* {na[i]}\n")
        continue
    mod = ROOT / f"pkmlint/rules/{i.lower()}.py"
    tree = ast.parse(mod.read_text())
    doc = " ".join((ast.get_docstring(tree) or "").split())
    rules = []
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("rule", "assume") and n.args and \
                isinstance(n.args[0], ast.Constant):
            rules.append((n.lineno, n.func.attr, " ".join(n.args[0].value.split())))
    c = checks[i]
    out.append(f"- **How it is decided** (`pkmlint/rules/{mod.name}`, {c['technique']}): {doc}")
    for _, k, t in sorted(rules):
        out.append(f"- **{'Assumed' if k == 'assume' else 'Reported unless'}**: {t}")
    out.append(f"- **Bounds**: {c['level_note']}")
    out.append(f"- **Why tests cannot**: quantified over {p['quantifier']['text']}. {p['why_tests_cant']}")
    for k in known:
        if f"property={i} " in k:
            kind, _, rest = k.partition(":")
            out.append(f"- **{'Repaired' if kind == 'fixed' else 'Known finding'}**: {rest.replace(f'property={i} ', '').strip()}")
    for n, m in seeds.get(i, []):
        out.append(f"- **Planted** `{n}` (caught by `{i}`): {m['what_it_breaks']} Needs: {m['needs']}.")
out.append("\n" + TAIL)
(ROOT / "DESIGN.md").write_text("\n".join(out).rstrip() + "\n")
