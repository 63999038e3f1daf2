#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = "TLA+ trace validation with TLC"
BUILT = {
    "C01": "Semantics.tla", "C02": "Semantics.tla, BatchTrace.tla", "C03": "Semantics.tla, Chance.tla",
    "C04": "Semantics.tla, SelectTrace.tla", "C05": "Chance.tla", "C06": "Semantics.tla", "C07": "Semantics.tla",
    "C08": "Semantics.tla", "C09": "Semantics.tla", "C10": "Semantics.tla", "C11": "Wildcards.tla, ResolveTrace.tla", "C12": "Loading.tla",
    "C13": "Manager.tla, MCManager.tla", "C14": "Grammar.tla, MCTokens.tla", "C15": "Grammar.tla, Semantics.tla",
    "C16": "Grammar.tla, Semantics.tla", "C17": "Seeds.tla, MCSeeds.tla", "C18": "MCSessions.tla, SessionTrace.tla",
    "C19": "Jinja.tla, MCJinja.tla", "C20": "Attention.tla, MCAttention.tla", "C21": "Magic.tla, MCMagic.tla, MCTidy.tla",
    "C22": "Lucky.tla, MCLucky.tla", "C23": "Models.tla, MCModels.tla",
    "C24": "Hierarchy.tla, MCHierarchy.tla", "C25": "StackTrace.tla, MCStacks.tla", "C26": "Trees.tla, MCTrees.tla",
}
NOTE = ("Runs of the real code over generated templates, libraries and histories are recorded and judged by TLC against the "
        "executable specification; complete for what was run, bounded by what is generated. Trusts TLC, the recording harness "
        "and the specification's reading of the documentation.")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in BUILT:
        checks.append({
            "property": i, "quick_cmd": f"./check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.py {i}",
            "technique": f"TLA+ specification ({BUILT[i]}); conformance by TLC trace validation of recorded runs",
            "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "its check is not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
