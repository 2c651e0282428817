import json
TECH = {
 "C01": "symbolic execution of the SSA of both field backends; z3 linear integer arithmetic over exact integer normal forms, class fixpoint over representations",
 "C02": "symbolic execution + z3 (bit-vectors and linear integer arithmetic)",
 "C03": "symbolic execution with verified field contracts + z3 finite-field/integer queries",
 "C04": "symbolic execution of Scalar code to exact integer normal form, z3 linear integer arithmetic",
 "C05": "symbolic execution of Scalar decoding/encoding, z3 linear integer arithmetic and bit-vectors",
 "C06": "symbolic execution with exponent tracking, z3 integer arithmetic",
 "C07": "symbolic execution + z3 bit-vectors",
}
NOTE = {}
import sys
sys.path.insert(0, "/verif")
import os
claimed = [l.strip() for l in open("/verif/tools/claimed.txt") if l.strip()]
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
extra = json.load(open("/verif/tools/manifest_extra.json"))
m = {"version": 1, "setup_cmd": "python3-vt run.py --setup",
     "hooks": {"guard": "none", "enable": "no hooks: the checks build /repo with go build -overlay", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in claimed:
        m["checks"].append({"property": i, "quick_cmd": "python3-vt run.py %s --tier quick" % i,
                            "thorough_cmd": "python3-vt run.py %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": extra["technique"][i],
                            "level": "other", "level_note": extra["note"][i]})
    else:
        m["not_applicable"].append({"property": i, "reason": extra["na"].get(i, "check under construction")})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
