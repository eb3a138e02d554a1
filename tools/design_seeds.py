"""Regenerates the table of seeded changes at the end of DESIGN.md (between the markers)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| seeded change | breaks | caught by | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    c = lambda s: str(s).replace("|", "/").replace("\n", " ")
    rows.append("| %s | %s | %s | %s |" % (d, c(m["what_it_breaks"]), m.get("caught_by", m["property"]), c(m["needs"])))
p = V + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- seeds -->", "<!-- /seeds -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n" + "\n".join(rows) + "\n" + s[j:])
print(len(rows) - 2)
