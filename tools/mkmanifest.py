# Writes MANIFEST.json from the registry and properties.jsonl.
import json, sys
sys.path.insert(0, "/verif")
from vlib.registry import CHECKS
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
from vlib import registry
checks = []
for p in props:
    if p not in CHECKS:
        continue
    c = CHECKS[p]
    checks.append(dict(property=p, quick_cmd=f"bin/check.sh {p} --tier quick", thorough_cmd=f"bin/check.sh {p} --tier thorough",
        evidence_file=f"evidence/{p}.json",
        technique=c.get("technique", f"TLA+ specification ({', '.join(t + '.tla' for _, t in c['parts'])}) checked with TLC; recordings of the real code judged against it by TLC"),
        level="model_checking",
        level_note=c.get("note", "TLC checks the design on small instances exhaustively and judges every recorded execution of the real code "
                   "against the specification in exact rational arithmetic; assurance for the code extends to the recorded cases (seeded, diverse), "
                   "trusting TLC, the Java rational class, CasADi's evaluation and the recorder.")))
na = [dict(property=p, reason=getattr(registry, "NOT_APPLICABLE", {}).get(p, "check under construction")) for p in props if p not in CHECKS]
json.dump(dict(version=1, setup_cmd="bin/setup.sh", checks=checks, not_applicable=na,
    hooks=dict(guard="none", enable="no hooks: everything is observed through the public API and casadi.nlpsol, replaced in the checking process", source_commits=[])),
    open("/verif/MANIFEST.json", "w"), indent=1)
