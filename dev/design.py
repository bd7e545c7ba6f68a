"""DESIGN.md = design_body.md + the defects listed in known_findings.json + design_tail.md"""
import json, os
d = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(d)
k = json.load(open(root + "/known_findings.json"))
out = open(d + "/design_body.md").read()
out += "\n## 4. Defects found\n\n"
out += f"### Recorded as known findings ({len(k['findings'])})\n\n" + "".join(f"* **{f['property']}** `{f['signature']}`: {f['what']}\n" for f in k["findings"])
out += f"\n### Repaired ({len(k['fixed'])} entries, each one `fix:` commit in /repo; the check that found it reports it again if it returns)\n\n"
by = {}
for f in k["fixed"]:
    if isinstance(f, dict): by.setdefault(f["property"], []).append(f"`{f['commit'][:9]}` {f.get('what', '')}")
    else:
        p, rest = f.split("property=")[1].split(" ", 1); c, w = rest.split(" ", 1); by.setdefault(p, []).append(f"`{c[:9]}` {w}")
for p in sorted(by): out += f"* **{p}**\n" + "".join(f"  * {x}\n" for x in by[p])
out += "\n" + open(d + "/design_tail.md").read()
open(root + "/DESIGN.md", "w").write(out)
