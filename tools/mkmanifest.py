"""writes MANIFEST.json from the property modules present under checks/"""
import ast
import json
import os
import re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C35": "the geometry of GDS import and clean-up is decided inside shapely/GEOS and gdsii (C++ and third-party code): there is no source in /repo to put under contract beyond calls into them, and no usable contract of buffer/unary_union is expressible that would imply the property",
}
TECH = "contract-based deductive verification: symbolic execution of the functions parsed from /repo on every run, loop invariants by havoc-and-infer, obligations discharged by an exact algebraic normal form and z3"
checks = []
na = []
for line in open(H + "/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    f = H + "/checks/%s.py" % i
    if os.path.exists(f):
        src = open(f).read()
        note = [n.value.value for n in ast.parse(src).body if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "NOTE"] if "\nNOTE = " in src else []
        lv = re.search(r"\"level\": \"(\w+)\"", src)
        checks.append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i, thorough_cmd="python3 run.py %s --tier thorough" % i,
                           technique=TECH, level=lv.group(1) if lv else "proof",
                           level_note=" ".join(note[0].split()) if note else "every obligation is generated from the current source and discharged for all inputs; floats are treated as reals"))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not built yet")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="python3 run.py --replay FILE replays a reported violation; see DESIGN.md"), open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
