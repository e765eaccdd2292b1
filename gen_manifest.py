#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
# property: (level, technique, note)
T = {}
exec(open('manifest_table.py').read())
props = [json.loads(l) for l in open('properties.jsonl') if l.strip()]
ids = [p['id'] for p in props]
checks = [{"property": i, "quick_cmd": f"./check.sh {i}",
           "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
           "technique": T[i][1], "level": T[i][0], "level_note": T[i][2]} for i in ids if i in T]
na = [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in T]
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: file-system calls are interposed in the checking executable, and stores are implementations of the crate's own traits."}
json.dump(m, open('MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open('MANIFEST.json', 'a').write('\n')
