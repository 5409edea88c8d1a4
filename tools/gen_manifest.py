#!/usr/bin/env python3
"""Write MANIFEST.json from the plans."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "checker"))
import plans
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTE = ("Sessions of the real stub (public API, recording mock target and connection) are validated event by event against the TLA+ "
        "specification with TLC")
import re
def head(name):
    m = re.search(r"\(\*(.*?)\*\)", open(os.path.join(ROOT, "spec", name + ".tla")).read(), re.S)
    return re.sub(r"\s+", " ", m.group(1)).strip().rstrip(".")
MODELS = {p: "; ".join(f"{m[0]} ({head(m[0])})" for m in ms) for p, ms in plans.MODELS.items()}
MODELS["P23"] = f"MC_All ({head('MC_All')}) and MC_Life ({head('MC_Life')}), each transition with and without adapters"
MODELS["P28"] = f"MC_Pipe ({head('MC_Pipe')})"
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        checks.append({
            "property": i,
            "quick_cmd": f"python3 checker/check.py {i} --tier quick",
            "thorough_cmd": f"python3 checker/check.py {i} --tier thorough",
            "technique": "TLA+ specification checked with TLC; trace validation of recorded sessions"
                         + ("; transitions of bounded models replayed in the real code" if i in MODELS else ""),
            "level": "model_checking",
            "level_note": ("Behaviours of the bounded model are run on real connections, and each result is checked against the TLA+ module Pipe with TLC" if i == "P28" else NOTE if i != "P25" else "Recorded behaviour of every gdbstub_arch definition is compared with the layout tables of the TLA+ module Arch with TLC") + (". Bounded models: " + MODELS[i] if i in MODELS else "")
                          + ". Bounded by the recorded sessions; trusts TLC and the recording harness.",
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 checker/setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specification in spec/, orchestrated by checker/; no hooks in /repo are needed (public API only)."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
