"""Write section 3 onwards of DESIGN.md: rest.md plus the table of planted bugs."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
missed = set(sys.argv[1:])
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, m["needs"].replace("|", "/").replace("\n", " "), "missed" if d in missed else m["property"]))
p = os.path.join(V, "DESIGN.md")
s = open(p).read().split("@@REST@@")[0].split("\n## 3. Bounds")[0].rstrip("\n")
open(p, "w").write(s + "\n" + open(os.path.join(V, "meta", "rest.md")).read().replace("@@TABLE@@", "\n".join(rows)))
