"""fills the generated sections of DESIGN.md (harnesses with their bounds, planted bugs)"""
import sys; sys.dont_write_bytecode = True
import json, os, re, warnings; warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import boot; boot.setup()
import harnesses; harnesses.load_all()
from symnp.harness import REGISTRY
s = open(HERE + "/DESIGN.md").read()
def fill(s, mark, text):
    return re.sub("(?s)<!-- %s -->.*<!-- /%s -->" % (mark, mark), lambda m: "<!-- %s -->\n%s\n<!-- /%s -->" % (mark, text, mark), s)
rows = ["| property | harness | configurations quick / thorough | bounds |", "|---|---|---|---|"]
for h in sorted(REGISTRY.values(), key=lambda h: h.prop):
    for p in h.prop:
        rows.append("| %s | %s | %d / %d | %s |" % (p, h.name, len(h.quick), len(h.thorough), h.bounds.replace("|", "\\|").replace("\n", " ")))
s = fill(s, "harnesses", "\n".join([rows[0], rows[1]] + sorted(rows[2:])))
rows = ["| planted bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
caught = json.load(open(HERE + "/tools/caught.json")) if os.path.exists(HERE + "/tools/caught.json") else {}
for i in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open(HERE + "/seeded/%s/meta.json" % i))
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["needs"], m["what_it_breaks"], caught.get(i, "(see vcheck)")))
s = fill(s, "seeds", "\n".join(rows))
open(HERE + "/DESIGN.md", "w").write(s)
