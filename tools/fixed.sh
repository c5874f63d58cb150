#!/bin/bash
# tools/fixed.sh: rewrites the "fixed:" lines of known_findings.txt from /repo's fix commits
HERE=$(cd "$(dirname "$0")/.." && pwd)
python3 - "$HERE" <<'P'
import subprocess, sys
H = sys.argv[1]
prop = {"b8a2be7":"C07","fa15f48":"C08","f8b5c17":"C09","08b6e15":"C01","057a152":"C01","f42b90f":"C01","ba0f5be":"C01","3ef21d1":"C06","ae6cf58":"C06","c8853f4":"C26","1d404f0":"C26","986ede3":"C11","71ee8a4":"C11","78e1405":"C13","34176fd":"C13","7e63692":"C13","7c7d63e":"C12","0c0aa19":"C16","957c6fd":"C15","01af2c6":"C15","43347fa":"C20","3da38a3":"C09"}
for l in open(H+"/tools/fixed_more.txt"):
    if l.strip():
        a, b = l.split()[:2]; prop[a] = b
p = H+"/known_findings.txt"
keep = [l for l in open(p) if not l.startswith("fixed:")]
log = subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s","609ddaf.."],text=True).splitlines()
for l in log:
    h, s = l.split(" ",1)
    if not s.startswith("fix: "): continue
    for k in prop:
        if h.startswith(k) or k.startswith(h):
            keep.append(f"fixed: property={prop[k]} {h} {s[5:]}\n"); break
    else:
        print("no property for", l)
open(p,"w").writelines(keep)
P
