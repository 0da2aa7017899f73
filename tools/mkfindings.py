#!/usr/bin/env python3
"""Writes KNOWN_FINDINGS.txt from the fix commits of /repo (run by hand)."""
import subprocess, os
PROPS = ["C01","C13","C11","C13","C02","C13","C14","C13","C15","C05","C20","C10","C20","C11","C07","C06","C19","C11","C19","C09","C04","C19","C19","C19","C09"]
log = subprocess.run(["git","-C","/repo","log","--reverse","--format=%H %s","4ba99df..HEAD"],stdout=subprocess.PIPE,text=True,check=True).stdout.splitlines()
log = [l for l in log if l.split(" ",1)[1].startswith("fix: ")]
assert len(log) == len(PROPS), (len(log), len(PROPS))
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","KNOWN_FINDINGS.txt"),"w") as f:
    f.write("# fixed: property=<id> <commit> <what failed>          a repaired defect; suppresses nothing\n"
            "# known: property=<id> op=<op> input=<args> => <text>  a recorded defect: exactly this step is reported as KNOWN-FINDING\n")
    for p,l in zip(PROPS,log):
        h,m = l.split(" ",1)
        f.write("fixed: property=%s %s %s\n" % (p,h,m[5:]))
