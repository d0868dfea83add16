#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the list of claimed properties in sim/plans.h.
import json, re, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = re.findall(r'\{ "(C\d\d)", \{', open(here + '/sim/plans.h').read())
notes = json.load(open(here + '/tools/levels.json'))
checks = []
for p in claimed:
    n = notes.get(p, {})
    checks.append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": n.get("technique", "deterministic simulation of the whole server with fault injection; seeded search over schedules and faults"),
        "level": n.get("level", "exploration"), "level_note": n["note"]})
na = [{"property": k, "reason": v["not_applicable"]} for k, v in sorted(notes.items()) if "not_applicable" in v]
m = {"version": 1, "setup_cmd": "./sim/build.sh",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: the build of the simulator (sim/build.sh) redirects the libc calls of the unmodified sources with objcopy", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write("\n")
