"""rewrite the planted-bug table at the end of DESIGN.md from seeded/*/meta.json and (if present) /tmp/tryout.*"""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | what it breaks | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    c = [(os.path.basename(t).rsplit(".", 1)[1], open(t).read()) for t in sorted(glob.glob("/tmp/tryout.%s.C*" % i))]
    got = ["%s%s" % (p, "" if "no-failing-input" not in s else " (obligation only)") for p, s in c if "VIOLATION" in s]
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], " ".join(d["what_it_breaks"].split())[:140].replace("|", "/"),
                                        ", ".join(got) or d["property"]))
p = V + "/DESIGN.md"
s = open(p).read()
a = s.index("<!-- seedtable -->") if "<!-- seedtable -->" in s else s.index("SEEDTABLE")
open(p, "w").write(s[:a] + "<!-- seedtable -->\n" + "\n".join(rows) + "\n")
