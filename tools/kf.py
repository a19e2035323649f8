"""kf.py fixed PROP COMMIT text...   add a 'fixed' record to known_findings.json"""
import json, sys
import os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
l = d["findings"] if isinstance(d, dict) else d
n = 1 + max(int(x["id"][1:]) for x in l)
l.append(dict(id="F%d" % n, status="fixed", record="fixed: property=%s %s %s" % (sys.argv[2], sys.argv[3], " ".join(sys.argv[4:]))))
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")
