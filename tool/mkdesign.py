"""appends the per-property part to DESIGN.md from the property modules, the registry and notes.json"""
import importlib, json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa import registry
MARK = "<!-- generated below by tool/mkdesign.py -->\n"
p = os.path.join(V, "DESIGN.md")
s = open(p).read().split(MARK)[0].rstrip() + "\n\n" + MARK
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
notes = json.load(open(os.path.join(V, "tool", "notes.json")))
seeds = {}
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m["what_it_breaks"]))
known = [l.strip() for l in open(os.path.join(V, "known_findings.txt")) if l.strip()]
s += "\n## Properties\n\n"
for q in props:
    i = q["id"]
    s += "### %s %s\n\n" % (i, q["title"])
    if i in registry.CHECKS:
        t, d = registry.CHECKS[i]
        mod = importlib.import_module("sa.props." + i.lower())
        s += "*Technique.* %s. *Bounds.* %s\n\n*Rule.* %s\n\n" % (t, d, " ".join(mod.EXPLANATION.split()))
        if i in notes:
            s += "*Decisions, exemptions, false alarms.* %s\n\n" % notes[i]
        k = [l for l in known if "property=%s " % i in l]
        if k:
            s += "*Findings.*\n" + "".join("- %s\n" % l for l in k) + "\n"
        if i in seeds:
            s += "*Planted bugs caught (seeded/).*\n" + "".join("- `%s`: %s\n" % x for x in seeds[i]) + "\n"
    else:
        s += "Not applicable: %s\n\n" % registry.NOT_APPLICABLE.get(i, "not decided yet")
open(p, "w").write(s)
