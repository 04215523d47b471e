#!/usr/bin/env python3
"""Regenerates MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks = [dict(property=i, quick_cmd=f"VERIF_TIER=quick python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
               evidence_file=f"evidence/{i}.json", technique=PROPS[i].get("technique", "contract-based deductive verification (Verus) of the functions extracted from the source on every run; bounded executable-contract search for failing inputs"),
               level=PROPS[i]["level"], level_note=PROPS[i]["note"]) for i in ids if i in PROPS]
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "contracts for this property are not built yet")) for i in ids if i not in PROPS]
doc = dict(version=1, setup_cmd="python3 -m py_compile check.py props.py tools/*.py && verus --version", checks=checks, not_applicable=na,
           notes="See DESIGN.md. known-findings.txt lists defects repaired by fix: commits and findings left open. No hooks are needed: Verus units extract private functions from the source text, the harness uses public interfaces.")
json.dump(doc, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
