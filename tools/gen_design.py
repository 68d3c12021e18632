#!/usr/bin/env python3
"""Write DESIGN.md from tools/design_head.md, the properties, the claims, the evidence of the last runs and tools/design_tail.md.
The figures come from evidence/*.json, so run every check before; properties without evidence keep their old section."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rd = lambda p: open(os.path.join(root, p)).read()
old = {}
cur = rd("DESIGN.md") if os.path.exists(os.path.join(root, "DESIGN.md")) else ""
for m in re.finditer(r"^### (\w\d\d) .*?(?=^### |^## |\Z)", cur, re.S | re.M):
    old[m.group(1)] = m.group(0)
out = [rd("tools/design_head.md")]
fixed = {}
for l in rd("known_findings.txt").splitlines():
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
    if m: fixed.setdefault(m.group(1), []).append(m.group(3))
for l in rd("properties.jsonl").splitlines():
    p = json.loads(l); i = p["id"]
    ev = os.path.join(root, "evidence", i + ".json")
    if not os.path.exists(ev):
        if i in old: out.append(old[i])
        continue
    e = json.load(open(ev)); c = e["coverage"]
    s = [f"### {i} {p['title']}"]
    s.append("*Explored and compared*: " + c["rule"].strip().rstrip(".") + ".")
    s.append("*Stages (quick)*: " + ", ".join(f"{t['stage']} {t['space']:,}" for t in c["stages"]) +
             f" cases; {c['transitions']:,} steps, {c['states']:,} distinct outcomes, about {max(1, round(e['wall_s']))} s.")
    if e.get("assumptions"): s.append("*Assumed or left open*: " + "; ".join(a.strip().rstrip(".") for a in e["assumptions"]) + ".")
    w = p.get("why_tests_cant") or p.get("why_tests_cannot")
    if w: s.append("*Beyond the tests*: " + w)
    if fixed.get(i): s.append("*Defects found and repaired*: " + "; ".join(fixed[i]) + ".")
    out.append("\n\n".join(s) + "\n\n")
out.append(rd("tools/design_tail.md"))
open(os.path.join(root, "DESIGN.md"), "w").write("".join(out))
