#!/usr/bin/env python3
"""Writes MANIFEST.json for every property that has a check. Run from /verif."""
import json, re, pathlib
props = [json.loads(l) for l in open('properties.jsonl')]
tech = json.load(open('tools/technique.json'))
claimed = [p for p in props if p['id'] in tech]
m = {
    "version": 1,
    "setup_cmd": "bash check.sh setup",
    "checks": [{
        "property": p['id'],
        "quick_cmd": f"bash check.sh {p['id']} quick",
        "thorough_cmd": f"bash check.sh {p['id']} thorough",
        "technique": tech[p['id']]['technique'],
        "level": "exploration",
        "level_note": tech[p['id']]['note'],
    } for p in claimed],
    "not_applicable": [{"property": p['id'], "reason": "no check registered yet"} for p in props if p['id'] not in tech],
    "notes": "Runtime monitoring: the real library runs generated workloads in isolated worker processes while oracles written independently of it judge every observation. See DESIGN.md.",
}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
print(len(claimed), "checks")
