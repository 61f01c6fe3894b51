"""Writes the fixed: lines of known_findings.txt (commit ids looked up by subject)."""
import subprocess,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F=[l.rstrip("\n").split(" | ") for l in open(os.path.join(V,"tools/fixes.txt")) if l.strip()]
log=subprocess.run(["git","-C",os.environ.get("MQT_REPO","/repo"),"log","--format=%h %s"],stdout=subprocess.PIPE,text=True).stdout.splitlines()
ids={l.split(" ",1)[1]:l.split(" ",1)[0] for l in log}
out=[]
kf=os.path.join(V,"known_findings.txt")
keep=[l for l in (open(kf).read().splitlines() if os.path.exists(kf) else []) if not l.startswith("fixed: ")]
for prop,subj,what in F: out.append(f"fixed: property={prop} {ids[subj]} {what}")
miss=[l for l in log if l.split(' ',1)[1].startswith('fix:') and l.split(' ',1)[1] not in [x[1] for x in F]]
if miss: print("not recorded:",miss)
open(kf,"w").write("\n".join(keep+out)+"\n")
