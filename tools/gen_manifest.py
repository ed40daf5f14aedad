#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STORE = "TLA+ model of the containers checked with TLC; every model transition replayed on the real containers; recorded random histories validated by a TLA+ trace specification"
CH = {}
for p, n in {
    "P01": "bounded universes of 4 quads exhaustively (all reachable index states), random histories beyond",
    "P02": "as P01; comparisons against freshly built containers of the same, a neighbouring and another content",
    "P03": "as P01",
    "P04": "as P01, a fourth of all canonical patterns per state plus the helper queries; search procedure model-checked too",
    "P05": "as P01, sampled multi-valued patterns with zero to four alternatives",
    "P06": "as P01, full and partial extraction; extraction procedure model-checked too",
    "P07": "as P01, every graph of every reachable state",
    "P08": "as P01, every conversion of every reachable state, then mutation of both sides",
}.items():
    CH[p] = (STORE, n)
exec(open(os.path.join(V, "tools", "manifest_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "manifest_more.py")) else None
m = {"version": 1, "setup_cmd": "cd harness && bash -c 'source /opt/vp/env.sh; cargo build --offline'",
     "checks": [], "not_applicable": [],
     "notes": "TLA+ specifications in spec/, replay and recording harness in harness/, drivers in driver/; entry point check.py. No hooks in /repo."}
for p in sorted(CH):
    t, n = CH[p]
    m["checks"].append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
                        "evidence_file": f"evidence/{p}.json", "technique": t, "level": "model_checking", "level_note": n})
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
for q in props:
    if q["id"] not in CH:
        m["not_applicable"].append({"property": q["id"], "reason": "check under construction"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
