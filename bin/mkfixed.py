#!/usr/bin/env python3
"""Lists the fix commits of /repo for known-findings.txt: property by keyword, what failed from the commit title.
Run by hand after a fix; the checks never run it."""
import re, subprocess, os
PROPS = [
 (r"^b1aaced|^7aae752|^01044e5|^e72c72a|^820228c|^3c9fc45|^a185bd2|^f456d6e|^a0834e1|^f4248f4|^2660b88|^443ef17|^282d720|^e850220|^d255bc4|^197ec1f|^e17014c", "C01"),
 (r"^bf1b2c7|^e9ba793|^5eafe2f|^9282668|^23dd60c|^6191b60|^e2cff38|^da66525|^291e558|^f3bed36|^9aed724|^3200ca3|^09219a6|^a53f292|^548a5a5|^7357eb6", "C02"),
 (r"^0beadf1|^556158c", "C03"),
 (r"^4cc9a7e|^3f67c6f", "C13"), (r"^0e4069c", "C15"), (r"^0f6b554", "C14"),
 (r"^68bdbc7|^acaa307|^90d9fd4|^5819ef0|^f74afe9|^d7ae340|^15f9aca|^95f3c1f|^2855de1|^1bf16f4", "C04"),
 (r"^0710599", "C08"), (r"^f2df37f", "C09"), (r"^82cc101|^a2a2eea|^3697f44", "C11"), (r"^feaa470", "C12"), (r"^2dc1624", "C15"),
]
here = os.path.dirname(os.path.abspath(__file__))
kf = os.path.join(here, "..", "known-findings.txt")
extra = os.path.join(here, "fixed-properties.txt")   # lines "<hash> <property>" for later commits
more = dict(l.split()[:2] for l in open(extra)) if os.path.exists(extra) else {}
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "4930bfb..HEAD"], text=True)
out = []
for l in log.splitlines():
    h, t = l.split(" ", 1)
    p = more.get(h) or next((p for r, p in PROPS if re.search(r, h)), None)
    if not p: print("no property for", l); p = "C04"
    out.append("fixed: property=%s %s %s" % (p, h, t.replace("fix: ", "")))
old = open(kf).read().splitlines() if os.path.exists(kf) else []
keep = [l for l in old if not l.startswith("fixed:")]
if not keep:
    keep = ["# Defects found in the unchanged tree. 'fixed:' lines record repairs and suppress nothing.",
            "# 'known:' lines would be: known: property=<id> key=<regex> match=/<regex>/ <what fails>", ""]
open(kf, "w").write("\n".join(keep + out) + "\n")
print(len(out), "fixes")
