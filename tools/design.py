# rewrites the generated tail of DESIGN.md: seeded bugs and what catches them, fixed defects, known findings
import json, os
V = "/verif"
s = open(V + "/DESIGN.md").read().split("<!-- generated -->")[0]
caught = dict(l.rstrip("\n").split("\t", 1) for l in open(V + "/tools/caught.tsv"))
o = ["<!-- generated -->", "", "## Seeded bugs and what catches them", "", "| seed | needs | breaks | caught by |", "|--|--|--|--|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/" + d + "/meta.json"))
    o.append("| %s | %s | %s | %s |" % (d, m["needs"], m["what_it_breaks"], caught.get(d, "?")))
o += ["", "## Defects found in redpony/cdec", "", "(repaired in /repo by one `fix:` commit each unless listed as a known finding)", ""]
for l in open(V + "/KNOWN_FINDINGS.txt"):
    if l.strip() and not l.startswith("#"): o.append("- " + l.strip())
open(V + "/DESIGN.md", "w").write(s + "\n".join(o) + "\n")
