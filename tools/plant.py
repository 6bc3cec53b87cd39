#!/usr/bin/env python3
"""plant.py SPEC.py [ids] [--nocheck]: turns bug descriptions (BUGS list) into seeded/<id>/ after confirming each of them in a scratch
copy of /repo that is bind-mounted over /repo in a private mount namespace: builds, stable tests pass, demo 0 before / nonzero after.
Then runs the property's check against the planted tree and prints whether it is caught.   plant.py --recheck [ids] re-runs the checks."""
import sys,os,json,subprocess,shutil,re,tempfile
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R="/tmp/pl/r1"
def ns(cmd,cwd="/repo",timeout=2000):
    return subprocess.run(["unshare","-Urm","bash","-c",f"mount --bind {R} /repo && cd {cwd} && "+cmd],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout)
def reset():
    subprocess.run(["git","-C",R,"checkout","-q","--","."]); 
    if subprocess.run(["git","-C",R,"rev-parse","HEAD"],capture_output=True).stdout!=subprocess.run(["git","-C","/repo","rev-parse","HEAD"],capture_output=True).stdout:
        subprocess.run(["git","-C",R,"fetch","-q","/repo"]); subprocess.run(["git","-C",R,"reset","-q","--hard","FETCH_HEAD"])
def build():
    r=ns("bash /opt/vp/build.sh"); return r.returncode==0,r.stdout.decode(errors="replace")
def tests():
    ns("bash /opt/vp/test.sh /tmp/pl/t.json"); b=json.load(open("/opt/vp/BASELINE.json")); t=set(json.load(open("/tmp/pl/t.json"))["passed"])
    st=b.get("stable") or b.get("passed") or b.get("tests"); return [x for x in st if x not in t]
def check(prop,verbose):
    r=ns(f"python3 {V}/check.py {prop}",cwd=V); o=r.stdout.decode(errors="replace"); hit="VIOLATION property="+prop in o and r.returncode==1
    if verbose or not hit: print(o[-1500:])
    return hit,o
def note(i,h):
    f=V+"/seeded.json"; r=json.load(open(f)) if os.path.exists(f) else {}; r[i]="yes" if h else "no"; json.dump(dict(sorted(r.items())),open(f,"w"),indent=0)
def demo(d):
    t=tempfile.mkdtemp(); shutil.copytree(d,t+"/d",ignore=shutil.ignore_patterns("*.diff","meta.json")); r=ns(f"timeout 300 bash {t}/d/demo.sh"); shutil.rmtree(t); return r.returncode,r.stdout.decode(errors="replace")[-400:]
def main():
    a=[x for x in sys.argv[1:] if not x.startswith("--")]; fl=[x for x in sys.argv[1:] if x.startswith("--")]
    if not os.path.exists(R): os.makedirs("/tmp/pl",exist_ok=True); subprocess.run(["cp","-a","/repo",R])
    if "--recheck" in fl:
        ids=a or sorted(os.listdir(V+"/seeded"))
        for i in ids:
            d=V+"/seeded/"+i; m=json.load(open(d+"/meta.json")); reset(); r=subprocess.run(["git","-C",R,"apply",d+"/patch.diff"],capture_output=True)
            if r.returncode: print(i,"DOES NOT APPLY"); continue
            h,o=check(m["property"],"-v" in fl); note(i,h); print(i,m["property"],"CAUGHT" if h else "MISSED",flush=True)
        reset(); return
    g={}; exec(open(a[0]).read(),g); ids=a[1:]
    for b in g["BUGS"]:
        if ids and b["id"] not in ids: continue
        d=V+"/seeded/"+b["id"]; os.makedirs(d,exist_ok=True)
        fs=b.get("files",{})
        if isinstance(fs,list):
            for n in fs: shutil.copy(n,d)
        else:
            for n,t in fs.items(): open(d+"/"+n,"w").write(t)
        open(d+"/demo.sh","w").write("#!/bin/bash\n"+b["demo"]+"\n"); os.chmod(d+"/demo.sh",0o755)
        json.dump({"property":b["prop"],"needs":b["needs"],"what_it_breaks":b["breaks"]},open(d+"/meta.json","w"),indent=1)
        reset(); ok,o=build()
        if not ok: print(b["id"],"base build fails",o[-500:]); continue
        c,o=demo(d)
        if c: print(b["id"],"DEMO FAILS ON CLEAN TREE",c,o); shutil.rmtree(d); continue
        bad=False
        for f,old,new in b.get("edits") or [(b["file"],b["old"],b["new"])]:
            p=R+"/"+f; t=open(p).read()
            if t.count(old)!=1: print(b["id"],"old text occurs",t.count(old),"times"); bad=True; break
            open(p,"w").write(t.replace(old,new))
        if bad: shutil.rmtree(d); continue
        open(d+"/patch.diff","w").write(subprocess.run(["git","-C",R,"diff"],capture_output=True,text=True).stdout)
        ok,o=build()
        if not ok: print(b["id"],"DOES NOT BUILD",o[-1500:]); shutil.rmtree(d); continue
        c,o=demo(d)
        if c==0: print(b["id"],"DEMO PASSES WITH BUG",o); shutil.rmtree(d); continue
        lost=tests()
        if lost: print(b["id"],"TESTS FAIL",lost[:5]); shutil.rmtree(d); continue
        subprocess.run(["git","-C",R,"checkout","-q","--","tests"])
        if "--nocheck" in fl: print(b["id"],"ok"); continue
        h,o=check(b["prop"],"-v" in fl); note(b["id"],h); print(b["id"],b["prop"],"CAUGHT" if h else "MISSED",flush=True)
    reset()
main()
