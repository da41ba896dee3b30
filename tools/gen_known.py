"""Writes known_findings.json: genuine defects recorded (status known) or repaired (status fixed)."""
import json
K = []
def known(p, key, what): K.append({"property": p, "key": key, "status": "known", "what": what})
def fixed(p, commit, what): K.append({"property": p, "status": "fixed", "commit": commit, "what": what, "line": "fixed: property=%s %s %s" % (p, commit, what)})
exec(open("/verif/tools/findings.txt").read())
json.dump(K, open("/verif/known_findings.json", "w"), indent=1)
