#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/lib")
from table import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 lib/build.py plain sched groot prog asan", checks=[], not_applicable=[], notes="No hooks in /repo: the checks compile /repo/src with a stand-in for the queue header found through the include path.")
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append(dict(property=p, quick_cmd="python3 checks/run.py %s --tier quick" % p, thorough_cmd="python3 checks/run.py %s --tier thorough" % p, evidence_file="evidence/%s.json" % p, technique=c["technique"], level="model_checking", level_note=c["level_note"]))
    else: m["not_applicable"].append(dict(property=p, reason=NOT_APPLICABLE.get(p, "check under construction")))
open(V + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
