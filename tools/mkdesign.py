#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.tmpl.md, known_findings.txt, findings/ and seeded/ (run by hand)."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = open(root + "/tools/DESIGN.tmpl.md").read()
# demonstration number(s) by commit, from the DEMOS block below
DEMOS = {"0f31f0e":"01","629bae6":"02","e040ee5":"03","7776244":"04","1415540":"05","9f33ae1":"12","5cf5f5b":"09",
"28cd0e8":"06","ae9dacf":"07","86874e1":"08","af79504":"10","44e2388":"11","0785ad5":"13","b0aaa81":"14","25e9fdd":"15",
"d1dfe47":"16","4fb3d16":"17","3d99c07":"18","2c8c474":"19","68e778b":"20","1d67779":"21","4487c3e":"22","ec4a80d":"23",
"1dbab31":"24","98f6390":"25","fac7753":"26","9673220":"27","80c4035":"28","0e2302a":"29","f80c120":"30","83224c0":"31",
"873a425":"32","3440824":"33","4c4080a":"34","67ba981":"35","096e65a":"–","bc36591":"–","35ce839":"36","88c4495":"37","865a17e":"38","b05b326":"39","36b5f5e":"40","bab2905":"41","ac2f1d1":"42","f10dbf7":"43"}
rows = ["| property | commit | what was repaired | demonstration |", "|---|---|---|---|"]
for l in open(root + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: rows.append("| %s | %s | %s | %s |" % (m[1], m[2], m[3].strip(), DEMOS.get(m[2], "–")))
T = T.replace("\nDEFECTS\n", "\n" + "\n".join(rows) + "\n")
rows = ["| planted bug | needs | breaks | caught by |", "|---|---|---|---|"]
caught = {}
try:
    caught = json.load(open(root + "/tools/caught.json"))
except OSError: pass
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    i = f.split("/")[-2]; m = json.load(open(f)); e = lambda s: s.replace("|", "\\|").replace("\n", " ")
    rows.append("| %s | %s | %s | %s |" % (i, e(m["needs"]), e(m["what_it_breaks"]), caught.get(i, "not run")))
T = T.replace("\nPLANTED\n", "\n" + "\n".join(rows) + "\n")
open(root + "/DESIGN.md", "w").write(T)
