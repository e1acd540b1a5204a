"""DESIGN.md from the hand-written head and tail, the rules registered for each property, the evidence of the last run and the planted bugs"""
import json, os, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda f: open(os.path.join(HERE, f)).read()
man = {c["property"]: c for c in json.loads(rd("MANIFEST.json"))["checks"]}
out = [rd("tools/design_head.md"), "\n## Per property\n\nFor each: the statement is in properties.jsonl; here what decides it, the domain, and the rules (names as in the evidence).\n"]
for l in rd("properties.jsonl").splitlines():
    p = json.loads(l)
    c = man.get(p["id"])
    if not c:
        continue
    e = json.loads(rd("evidence/%s.json" % p["id"]))["coverage"]
    fam = {}
    for k in e["obligations_by_rule"]:
        a, _, b = k.partition(": ")
        fam.setdefault(a, []).append(b)
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("* Decided by: %s." % c["technique"].replace("static: ", ""))
    out.append("* Domain and trust: %s" % c["level_note"].split("Assumes: ")[1])
    out.append("* Rules: %s." % ", ".join(sorted(fam)))
    out.append("")
out.append("## Planted bugs\n\nEach is caught by the check of the property it is filed under; they were written from the statement of the property.\n\n| bug | property | what it breaks |\n|---|---|---|")
for f in sorted(glob.glob(os.path.join(HERE, "seeded/*/meta.json"))):
    m = json.load(open(f))
    out.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"].replace("|", "/").replace("\n", " ")))
out.append("\n" + rd("tools/design_tail.md"))
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))
