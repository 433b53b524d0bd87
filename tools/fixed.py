"""usage: fixed.py PROPERTY 'what failed'   (records the last commit of /repo as a repair)"""
import json, subprocess, sys
p = "/verif/known_findings.json"
k = json.load(open(p))
h = subprocess.run("git -C /repo log -1 --format=%h", shell=True, capture_output=True, text=True).stdout.strip()
k["fixed"].append("fixed: property=%s %s %s" % (sys.argv[1], h, sys.argv[2]))
json.dump(k, open(p, "w"), indent=1)
