#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/table.json and the notes below."""
import json
table = json.load(open('/verif/checks/table.json'))
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
CORE = ("TLA+ specification of the parser machine (spec/Optique.tla). TLC explores every command line over the catalogue grammars "
        "up to the chunk bound, checks the declarative predicates of the property on each and every one is replayed on the real parsers "
        "(sync and async); seeded random grammars and command lines executed on the real code are validated as traces of the same "
        "specification. Assumes the value parsers, option-name forms and combinators of the specification; outcomes (value or failure) are compared, not messages.")
NOTES = json.load(open('/verif/checks/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i not in table:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("na", "not built yet")})
        continue
    n = NOTES.get(i, {})
    checks.append({
        "property": i,
        "quick_cmd": f"node checks/run.mjs {i}",
        "thorough_cmd": f"node checks/run.mjs {i} --thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": n.get("technique", "TLA+ model checking with TLC, replay of all explored behaviours into the code, trace validation of random runs"),
        "level": n.get("level", "model_checking"),
        "level_note": n.get("note", CORE),
    })
m = {"version": 1, "setup_cmd": "node checks/setup.mjs", "checks": checks, "not_applicable": na,
     "notes": "Language: TLA+ with TLC. No hooks in /repo: every check bundles the package sources of /repo's working tree with esbuild into a scratch directory. See DESIGN.md."}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
