"""Writes MANIFEST.json: one check per monitor module that exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "vf", "meta.json")))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.isfile(os.path.join(V, "vf", "props", i.lower() + ".py")):
        m = NOTES.get(i, {})
        checks.append({"property": i, "quick_cmd": "./check.sh %s" % i, "thorough_cmd": "./check.sh %s --tier thorough" % i,
                       "technique": m.get("technique", "runtime monitoring: seeded workloads on the real code, online oracle monitors"),
                       "level": "exploration",
                       "level_note": m.get("level_note", "every observed execution is judged by an independent oracle; reach is the seeded workload diversity recorded in the evidence")})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "test -x /opt/venv/bin/python && /opt/venv/bin/python -c 'import numpy, scipy, pandas'",
           "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
