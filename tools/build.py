#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree plus /verif/sim.
usage: build.py [main|cov]   (prints the path of the binary)"""
import os, subprocess, sys, glob, fcntl, hashlib
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get("MQT_REPO","/repo")
MODS=["dd","ir","ir/operations","qasm3","qasm3/passes","zx","algorithms","circuit_optimizer","datastructures","dd/statistics","na","na/entities","na/operations"]
def build(variant="main"):
    bd=os.path.join(V,"build",variant) if REPO=="/repo" else os.path.join("/tmp","simbuild-"+hashlib.md5(REPO.encode()).hexdigest()[:8],variant)
    os.makedirs(bd,exist_ok=True)
    lock=open(os.path.join(bd,".lock"),"w"); fcntl.flock(lock,fcntl.LOCK_EX)
    inc=os.path.join(bd,"inc")
    for m in ["dd","ir","zx","na","ds","algorithms","circuit_optimizer","qasm"]:
        d=os.path.join(inc,{"ds":"datastructures","qasm":"qasm3"}.get(m,m)); os.makedirs(d,exist_ok=True)
        f=os.path.join(d,f"mqt_core_{m}_export.h")
        t=f"#pragma once\n#define MQT_CORE_{m.upper()}_EXPORT\n"
        if not os.path.exists(f) or open(f).read()!=t: open(f,"w").write(t)
    # export headers are included by whatever path the sources use
    base="-std=c++17 -O1 -g0 -fno-pie -DNDEBUG -D_GLIBCXX_ASSERTIONS -pthread -DMQT_VERIF_SIM"
    sutx=" -fsanitize-coverage=trace-pc -fsanitize=thread" if variant=="cov" else ""
    incs=f"-I{REPO}/include/mqt-core -I{inc} -I{inc}/ds -I{V}/sim"
    for d in ["dd","ir","zx","na","datastructures","algorithms","circuit_optimizer","qasm3"]:
        incs+=f" -I{inc}/{d}"
    objs=[]; n=["ninja_required_version = 1.3",
      f"rule sut\n  command = g++ {base}{sutx} -w {incs} -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
      f"rule har\n  command = g++ {base}{' -DSIM_COV=1' if variant=='cov' else ''} -w {incs} -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
      f"rule hcov\n  command = g++ {base} -DSIM_COV=1 -fsanitize-coverage=trace-pc -fsanitize=thread -w {incs} -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
      "rule link\n  command = g++ -no-pie -pthread $in -o $out -ldl"]
    for m in MODS:
        for s in sorted(glob.glob(f"{REPO}/src/{m}/*.cpp")):
            o=os.path.join(bd,"repo_"+os.path.relpath(s,f"{REPO}/src").replace("/","_")+".o")
            n.append(f"build {o}: sut {s}"); objs.append(o)
    hs=sorted(glob.glob(f"{V}/sim/core/*.cpp"))+(sorted(glob.glob(f"{V}/sim/cov_*.cpp")) if variant=="cov" else sorted(glob.glob(f"{V}/sim/scn_*.cpp")))
    for s in hs:
        o=os.path.join(bd,"sim_"+os.path.basename(s)+".o")
        n.append(f"build {o}: {'hcov' if os.path.basename(s).startswith('cov_') else 'har'} {s}"); objs.append(o)
    exe=os.path.join(bd,"mqtsim")
    n.append(f"build {exe}: link "+" ".join(objs))
    nf=os.path.join(bd,"build.ninja"); t="\n".join(n)+"\n"
    if not os.path.exists(nf) or open(nf).read()!=t: open(nf,"w").write(t)
    r=subprocess.run(["ninja","-C",bd,"-f",nf],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode!=0:
        sys.stderr.write(r.stdout[-6000:]); raise SystemExit(2)
    return exe
if __name__=="__main__":
    print(build(sys.argv[1] if len(sys.argv)>1 else "main"))
