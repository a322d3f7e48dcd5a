#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf import plan
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
note = ("Explicit TLA+ specification (spec/*.tla) of the files and of the calls; histories of the real code, generated from "
        "VERIF_SEED, are validated step by step against it by TLC (Trace_*.tla); bounded models (MC_*.tla) are checked "
        "exhaustively and their behaviours replayed into the real code. Trusts TLC, the executor's reporting and the "
        "generator's reach; it is a bounded search, not a proof.")
checks = [{"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p} --tier thorough",
           "technique": "TLA+ specification checked with TLC; trace validation of the real code's histories against it"
                        + ("; replay of the behaviours of bounded models" if plan.MODELS.get(p) else ""),
           "level": "model_checking", "level_note": note} for p in props if p in plan.PLAN]
na = [{"property": p, "reason": plan.NOT_YET.get(p, "check not built yet")} for p in props if p not in plan.PLAN]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
