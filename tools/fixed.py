"""fixed.py PROP COMMIT TEXT: record a repaired defect"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
prop, commit, text = sys.argv[1:]
d["findings"].append(dict(property=prop, status="fixed", commit=commit,
                          what=f"fixed: property={prop} {commit} {text}"))
with open(p, "w") as f:
    f.write('{\n "findings": [\n' + ",\n".join("  " + json.dumps(x) for x in d["findings"]) + "\n ]\n}\n")
