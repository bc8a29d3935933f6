#!/usr/bin/env python3
"""survey.py FLAVOUR PROPERTY RUNS [SEED]: every violation class found, with a count and the first seed."""
import sys, subprocess, os, collections, re
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,H)
import check
fl,prop,runs=sys.argv[1:4]; seed=sys.argv[4] if len(sys.argv)>4 else "1"
b=check.build([fl])[fl]
out=f"/tmp/survey-{os.getpid()}.txt"
subprocess.run([b,"survey","--property",prop,"--seed",seed,"--runs",runs,"--wall","600","--workers","8",out],env=check.env())
c=collections.OrderedDict()
for l in open(out,errors="replace"):
    f=l.rstrip("\n").split("\t")
    if len(f)<4: continue
    k=f[0]
    c.setdefault(k,[0,f])[0]+=1
os.unlink(out)
print(f"== {prop} {fl} {runs} runs: {sum(v[0] for v in c.values())} violations")
for k,(n,f) in sorted(c.items(),key=lambda x:-x[1][0]):
    print(f"{n:6d} {k} [{f[1]}] seed {f[2]}: {f[3][:300]}")
