"""Writes MANIFEST.json from properties.jsonl and the check modules' docstrings."""
import ast, json, os
V = "/verif"
TECH = {
 "exploration": "exhaustive bounded enumeration of executions of the real code against an independent reference model",
 "fault_enumeration": "exhaustive enumeration of crash points, torn writes and cuts, each state opened by the real code",
 "model_checking": "explicit-state breadth-first search over operation histories replayed on the real code in lock step with a reference model",
}
checks, na = [], []
for line in open(V + "/properties.jsonl"):
    d = json.loads(line)
    path = V + "/mc/checks/%s.py" % d["id"].lower()
    if not os.path.exists(path):
        na.append(dict(property=d["id"], reason="its check is not built yet"))
        continue
    tree = ast.parse(open(path).read())
    vals = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                vals[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    level = vals["LEVEL"]
    note = " ".join(ast.get_docstring(tree).split())
    note = "Complete within these bounds, nothing beyond: " + note
    if vals.get("ASSUMPTIONS"):
        note += " Assumes: " + "; ".join(vals["ASSUMPTIONS"]) + "."
    note += " Trusts the reference model in mc/checks/%s.py." % d["id"].lower()
    checks.append(dict(property=d["id"], quick_cmd="./check %s --tier quick" % d["id"], thorough_cmd="./check %s --tier thorough" % d["id"],
                       technique=vals.get("TECHNIQUE", TECH[level]), level=level, level_note=note))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="Every check imports coral from /repo's working tree and runs it; there are no hooks in /repo.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
