#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json from the list of claimed properties.
import json, os, sys
here = os.path.dirname(__file__)
props = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
MODE = {
 "fp": "symbolic execution of the Go SSA with bit-precise IEEE 754 values; z3 (QF_BVFP) decide every branch and assertion",
 "real": "symbolic execution of the Go SSA with floats read as reals; algebraic normal forms plus z3 (QF_NRA) decide every branch and assertion",
 "lin": "symbolic execution of the Go SSA with concrete matrix families and symbolic linear parameters; z3 (QF_LRA) decides assertions",
}
NOTE = {
 "fp": "bit-precise for every float64 value (NaN, infinities and signed zeros included) at the listed shapes; bounds are listed in the evidence file",
 "real": "exact over the reals at the listed small shapes (rounding error abstracted; counterexamples are replayed in float64); larger shapes with part of the entries concrete; bounds are listed in the evidence file",
}
FP = {"P01","P02","P03","P04","P05","P06","P08","P09","P10","P11","P28","P29","P32"}
done = sys.argv[1:]
if not done:
    done = [c["property"] for c in json.load(open(os.path.join(here, "..", "MANIFEST.json")))["checks"]]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [], "notes": "See DESIGN.md. Every check re-encodes /repo's current source; ./check.sh PROP runs one property."}
for p in props:
    if p in done:
        k = "fp" if p in FP else "real"
        m["checks"].append({"property": p, "quick_cmd": "./check.sh "+p, "thorough_cmd": "./check.sh "+p+" -tier thorough", "evidence_file": "evidence/"+p+".json", "technique": "solver-based checking: "+MODE[k], "level": "model_checking", "level_note": NOTE[k]})
    else:
        m["not_applicable"].append({"property": p, "reason": "check under construction"})
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "..", "MANIFEST.json"), "a").write("\n")
