#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, props
HERE = os.path.dirname(os.path.abspath(__file__))
titles = {}
for l in open(f"{HERE}/properties.jsonl"):
    x = json.loads(l)
    titles[x["id"]] = x["title"]
TECH = "bounded symbolic execution of the crate's LLVM IR against a reference, decided by z3"
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [{
        "property": p,
        "quick_cmd": f"python3 check.py {p} quick",
        "thorough_cmd": f"python3 check.py {p} thorough",
        "technique": TECH,
        "level": "model_checking",
        "level_note": props.NOTES[p],
        "evidence_file": f"evidence/{p}.json",
    } for p in props.PROPS],
    "not_applicable": [{"property": p, "reason": r} for p, r in props.NOT_APPLICABLE.items()],
}
assert set(titles) == set(props.PROPS) | set(props.NOT_APPLICABLE), "properties.jsonl and props.py differ"
with open(f"{HERE}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
