"""Writes /verif/MANIFEST.json from properties.jsonl and the headers of the checks."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def header(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in ("LEVEL", "RULE", "ASSUMPTIONS", "TECHNIQUE"):
            out[node.targets[0].id] = ast.literal_eval(node.value)
    return out


checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    path = os.path.join(V, "checks", p["id"].lower() + ".py")
    if not os.path.exists(path):
        na.append({"property": p["id"], "reason": "no check yet"})
        continue
    h = header(path)
    tech = h.get("TECHNIQUE", "explicit-state exploration of the implementation under controlled inputs and random answers")
    checks.append({"property": p["id"], "quick_cmd": "./check {} --quick".format(p["id"]),
                   "thorough_cmd": "./check {} --thorough".format(p["id"]), "technique": tech, "level": h["LEVEL"],
                   "level_note": "Exhaustive within the bounds, on the real code: " + h["RULE"] + ". Assumes: " +
                                 ("; ".join(h.get("ASSUMPTIONS", [])) or "nothing further") + "."})
json.dump({"version": 1, "setup_cmd": "./check --self", "checks": checks, "not_applicable": na,
           "notes": "The checks import active_subspaces from /repo's working tree; nothing is built or cached. No hooks in /repo."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
