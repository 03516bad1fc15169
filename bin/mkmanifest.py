#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from bin/props.py and properties.jsonl."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 bin/check.py --setup",
     "hooks": {"guard": "WRENCH_VM_MONITOR", "enable": "-DWRENCH_VM_MONITOR (bin/build.py, variants wmon and amwmon): wr_vmMonitor, supplied by harness/wild.cpp, sees every instruction; every other monitor sits at the public API or in compiler instrumentation", "source_commits": ["f621b26"]},
     "checks": [], "not_applicable": [], "notes": "Each check builds the library from /repo's working tree in several configurations (objects cached by content under /verif/.build), drives it with generated workloads and lets monitors and sanitizers judge. See DESIGN.md."}
for p in props:
    i = p["id"]
    if i in PROPS:
        P = PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 bin/check.py %s quick" % i, "thorough_cmd": "python3 bin/check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": P.get("technique", "runtime monitoring: reference-model trace checker and sanitizers over generated workloads"),
            "level": P.get("level", "exploration"), "level_note": P.get("note", P["rule"][:300])})
    else:
        m["not_applicable"].append({"property": i, "reason": "fault injection applies to the WRENCH_HANDLE_MALLOC_FAIL build, but the property is false on this tree well beyond small repairs (compiler and state creation use failed allocations unchecked in many places), so a check could only re-report that; see DESIGN.md"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
