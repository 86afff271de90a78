#!/usr/bin/env python3
"""try.py HARNESS.cpp [--param k=v ...]: run one harness under the engine and summarise (development aid)."""
import sys,time,os,subprocess,json,glob,shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib
out=f"/tmp/try.{os.getpid()}"; shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
e=vlib.build_engine(); h=sys.argv[1]
if not h.startswith("/"): h=os.path.join(vlib.VERIF,"harness",os.path.basename(h))
t=time.time()
try: b=vlib.build_bitcode(h)
except vlib.Inconclusive as x: print("\n".join([l for l in str(x).split("\n") if "error" in l][:12])); sys.exit(1)
print("bc %.1fs"%(time.time()-t))
args=sys.argv[2:]; nat="--native" in args
args=[a for a in args if a!="--native"]
if "--time" not in args: args+=["--time","120"]
t=time.time(); r=subprocess.run([e,b,"--out",out]+args,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True); print("run %.1fs rc=%d"%(time.time()-t,r.returncode)); print(r.stdout[-1500:])
tot={};cov=set();inc={}
for w in glob.glob(out+"/w_*.json"):
    j=json.load(open(w)); cov|=set(j.pop("covers")); j.pop("functions")
    for m in j.pop("incomplete"): inc[m]=inc.get(m,0)+1
    for k,v in j.items(): tot[k]=max(v,tot.get(k,0)) if k in("solver_max","maxrss_mb","wall") else tot.get(k,0)+v
print({k:(round(v,2) if isinstance(v,float) else v) for k,v in tot.items()}); print("covers",sorted(cov))
for m,c in list(inc.items())[:8]: print("INC",c,m[:400])
for f in sorted(glob.glob(out+"/err_*.txt"))[:8]:
    L=open(f).read().split("\n"); print("ERR","\n   ".join(L[1:14])); print("   in:",[l.strip() for l in open(f.replace(".txt",".inputs"))][:40])
    if nat:
        n=vlib.build_native(h,"asan"); prm=dict(a.split("=") for a in args if "=" in a)
        rc,log=vlib.run_native(n,f.replace(".txt",".inputs"),prm); print("   NATIVE",rc,log[:1500])
print(len(glob.glob(out+"/err_*.txt")),"errors"); shutil.rmtree(out)
