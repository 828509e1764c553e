"""addfix.py PROPERTY MECHANISM COMMIT WHAT... : record a repaired defect."""
import json
import sys
from pathlib import Path
p = Path(__file__).resolve().parent.parent / "known_findings.json"
d = json.loads(p.read_text())
pr, mech, commit, what = sys.argv[1], sys.argv[2], sys.argv[3], " ".join(sys.argv[4:])
d.append({"property": pr, "mechanism": mech, "status": "fixed", "commit": commit, "what": f"fixed: property={pr} {commit} {what}"})
p.write_text("[\n" + ",\n".join(" " + json.dumps({k: v for k, v in e.items() if k != "what"})[:-1] + ',\n  "what": ' + json.dumps(e["what"]) + "}" for e in d) + "\n]\n")
