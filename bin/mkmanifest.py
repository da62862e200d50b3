#!/usr/bin/env python3
"""Write MANIFEST.json from the job table and properties.jsonl."""
import json, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
import jobs
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
NA = getattr(jobs, "NOT_APPLICABLE", {})
checks, na = [], []
for p in props:
    i = p["id"]
    if i in jobs.PROPS:
        q = jobs.PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 bin/check.py %s quick" % i, thorough_cmd="python3 bin/check.py %s thorough" % i,
                           technique=q.get("technique", "exhaustive bounded exploration of the implementation (stateless model checking, fork-tree explorer)"),
                           level=q["level"], level_note=q["bounds"]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check yet")))
m = dict(version=1, setup_cmd="python3 bin/build.py seq seq", hooks=dict(guard="none", enable="no hooks are needed: /repo's sources are compiled unmodified and libc/pthread/libaio symbols are redirected at link time", source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not applicable")
