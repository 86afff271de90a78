#!/usr/bin/env python3
"""run_seeds.py [id ...]: apply each seeded bug to /repo, run its property's quick check, undo (development aid)."""
import sys, os, json, subprocess, time
V="/verif/seeded"; os.chdir("/verif")
for i in sorted(sys.argv[1:] or os.listdir(V)):
    p=json.load(open(f"{V}/{i}/meta.json"))["property"]; t=time.time()
    assert subprocess.run(["git","-C",os.environ.get("VS_REPO", "/repo"),"apply",f"{V}/{i}/patch.diff"]).returncode==0, i
    try: r=subprocess.run(["python3","check.py",p,"quick"],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    finally: subprocess.run(["git","-C",os.environ.get("VS_REPO", "/repo"),"checkout","-q","--","."])
    v=[l for l in r.stdout.split("\n") if l.startswith("VIOLATION property="+p)]
    print(i,p,"CAUGHT" if r.returncode==1 and v else f"MISSED rc={r.returncode}","%.0fs"%(time.time()-t),"" if v else r.stdout[-600:],flush=True)
