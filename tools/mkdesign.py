"""Regenerates the per-property table at the end of DESIGN.md from registry.py (text between the two markers)."""
import sys, os, re, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from irv import registry
import json
T = {json.loads(l)["id"]: json.loads(l)["title"] for l in open(V + "/properties.jsonl")}
out = []
for pid in sorted(T):
    if pid not in registry.PROPS:
        out.append("### %s %s\n\nNot applicable: %s\n" % (pid, T[pid], registry.NOT_APPLICABLE.get(pid, "no contract within reach yet"))); continue
    p = registry.PROPS[pid]; ts = registry.tasks(pid, "thorough")
    drv = sorted(set(t.driver for t in ts))
    out.append("### %s %s\n" % (pid, T[pid]))
    out.append("* Contracts (`irv/tasks/%s.py`, driver%s %s), %d: %s." % (",".join(p["modules"]), "s" if len(drv) > 1 else "", ", ".join("`drivers/%s`" % d for d in drv), len(ts), ", ".join(t.name + (" (thorough)" if getattr(t, "thorough_only", False) else "") for t in ts)))
    out.append("* Result: " + p["note"] + ".")
    for n in p.get("native", ()): out.append("* Bounded harness `native/%s`: %s." % (n["src"], n["about"]))
    for a in p.get("assume", ()): out.append("* Assumed / not proved: " + a + ".")
    out.append("")
s = open(V + "/DESIGN.md").read()
a, b = "<!-- table:begin -->", "<!-- table:end -->"
s = s[:s.index(a) + len(a)] + "\n" + "\n".join(out) + "\n" + s[s.index(b):]
open(V + "/DESIGN.md", "w").write(s)
