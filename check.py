#!/usr/bin/env python3
"""Driver: compiles /repo's current sources to LLVM bitcode, runs the symbolic engine on the harnesses registered in
checks.py for one property, replays every counterexample on natively compiled real code and writes the evidence file.
usage: check.py <property> [--thorough] | --setup | --native <job-index> <property> k=v ... (debug)"""
import sys, os, json, subprocess, tempfile, time, shutil, concurrent.futures as cf, hashlib, re
V=os.path.dirname(os.path.abspath(__file__)); REPO=os.environ.get('VERIF_REPO','/repo'); B=V+'/build'
sys.path.insert(0,V)
CF=("-fno-vectorize -fno-slp-vectorize -fno-access-control -std=c++23 -gline-tables-only -mlong-double-64 -D__NO_INLINE__ -DHAVE_CONFIG_H -w").split()
INC=["-I"+REPO,"-I"+REPO+"/apertium","-I"+V+"/rt/cfg","-I/usr/include/libxml2","-I/usr/include/utf8cpp"]
DL=["liblttoolbox.so.3","libicuio.so.74","libicui18n.so.74","libicuuc.so.74","libxml2.so.2"]
LIBS="-llttoolbox -licuio -licui18n -licuuc -lxml2 -lpthread".split()
RT=["std","iost","fst","lt","re","st","fmt","fs"]
NCPU=int(os.environ.get("VERIF_NCPU") or os.cpu_count() or 4)
class BuildError(Exception): pass
def sh(cmd,**kw): return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,**kw)
def rt_hash():
    h=hashlib.sha1()
    for d in ("rt","engine"):
        for f in sorted(os.listdir(V+"/"+d)):
            if os.path.isfile(V+"/"+d+"/"+f): h.update(open(V+"/"+d+"/"+f,"rb").read())
    return h.hexdigest()
def setup():
    os.makedirs(B,exist_ok=True)
    st=B+"/stamp"
    if os.path.exists(st) and open(st).read()==rt_hash() and os.path.exists(B+"/symx"): return
    r=sh(["make","-j8","-C",V+"/engine"])
    if r.returncode: sys.stderr.write(r.stderr.decode()); sys.exit(2)
    def one(n):
        r=sh(["clang++","-O1"]+CF+["-fno-builtin"]+INC+["-I"+V,"-emit-llvm","-c",f"{V}/rt/{n}.cc","-o",f"{B}/{n}.bc"])
        if r.returncode: sys.stderr.write(r.stderr.decode()); sys.exit(2)
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(one,RT))
    open(st,"w").write(rt_hash())
def mainname(src): return re.sub(r'\W','_',os.path.basename(src).rsplit('.',1)[0])+"_main"   # gen:des:txt -> gen_des_txt_main
def gensrc(src,W):
    """sources starting with 'gen:' are produced from the repository's current files (flex deformatters)"""
    if not src.startswith("gen:"): return src if src.startswith("/") else REPO+"/"+src
    import generators
    return generators.make(src[4:],REPO,W)
def compile_bc(src,W,extra=()):
    key=hashlib.sha1((src+" ".join(extra)).encode()).hexdigest()[:8]
    out=f"{W}/{re.sub(r'[^A-Za-z0-9]','_',os.path.basename(src))}_{key}.ll"
    if os.path.exists(out): return out
    s=gensrc(src,W)
    r=sh(["clang++","-O1"]+CF+list(extra)+INC+["-I"+V,"-I"+V+"/rt","-S","-emit-llvm",s,"-o",out+".tmp"])
    if r.returncode: raise BuildError(f"{src}: {r.stderr.decode()[:2000]}")
    t=open(out+".tmp").read()
    if not src.startswith("/"):
        mn=mainname(src); t=re.sub(r'@main\(','@'+mn+'(',t)
    if src.startswith("gen:"):
        import generators; t=generators.separate_ll(t,mn[:-5])
    open(out,"w").write(t); os.unlink(out+".tmp"); return out
def compile_native(src,W,asan,extra=()):
    key=hashlib.sha1((src+" ".join(extra)).encode()).hexdigest()[:8]
    out=f"{W}/{re.sub(r'[^A-Za-z0-9]','_',os.path.basename(src))}_{key}{'_a' if asan else ''}.o"
    if os.path.exists(out): return out
    if src.startswith("gen:"): # the generated scanners are large: native code from the same, already optimised IR
        r=sh(["clang++","-O0","-w","-c",compile_bc(src,W,extra),"-o",out+".tmp"])
        if r.returncode: raise BuildError(f"{src}: {r.stderr.decode()[:2000]}")
        os.rename(out+".tmp",out); return out
    s=gensrc(src,W)
    fl=["-O1","-g1"]+(["-fsanitize=address","-fno-omit-frame-pointer"] if asan else [])
    r=sh(["clang++"]+fl+["-fno-access-control","-std=c++23","-DHAVE_CONFIG_H","-w"]+list(extra)+INC+["-I"+V,"-I"+V+"/rt","-c",s,"-o",out+".tmp"])
    if r.returncode: raise BuildError(f"{src}: {r.stderr.decode()[:2000]}")
    if not src.startswith("/"): sh(["objcopy","--redefine-sym","main="+mainname(src),out+".tmp"])
    os.rename(out+".tmp",out); return out
def libsources():
    t=open(REPO+"/apertium/Makefile.am").read()
    m=re.search(r'cc_sources\s*=((?:.*\\\n)*.*)',t)
    return ["apertium/"+x for x in re.findall(r'(\w+\.cc)',m.group(1))]
def build_native(job,W,asan):
    key=hashlib.sha1(repr((job["harness"],job["src"],job.get("defs"))).encode()).hexdigest()[:10]
    exe=f"{W}/native_{key}{'_a' if asan else ''}"
    if os.path.exists(exe): return exe
    srcs=list(job["src"]); hs=[V+"/harness/"+job["harness"]+".cc",V+"/rt/natrt.cc"]; ex=job.get("defs",[])
    def link(srcs):
        with cf.ThreadPoolExecutor(NCPU) as p: objs=list(p.map(lambda s:compile_native(s,W,asan,ex),hs+srcs))
        return sh(["clang++"]+(["-fsanitize=address"] if asan else [])+objs+["-o",exe]+LIBS)
    r=link(srcs)
    if r.returncode: r=link(srcs+[s for s in libsources() if s not in srcs])
    if r.returncode: raise BuildError("native link: "+r.stderr.decode()[:1500])
    return exe
def replay(exe,job,params,vars,W,asan=False,show=False,vg=False):
    env=dict(os.environ)
    if asan: env["SYMX_ASAN"]="1"; env["ASAN_OPTIONS"]="abort_on_error=1:detect_leaks=0:allocator_may_return_null=1"
    if show: env["SYMX_SHOW"]="1"
    t=tempfile.mkdtemp(prefix="replay-",dir=W)
    prep(job,t)
    try: r=subprocess.run((["valgrind","-q","--undef-value-errors=no"] if vg else [])+[exe]+[f"param:{k}={v}" for k,v in params.items()]+["param:tmp="+t]+[f"{k}={v}" for k,v in vars.items()],stdout=subprocess.PIPE,stderr=subprocess.PIPE,timeout=60,env=env,cwd=t)
    except subprocess.TimeoutExpired: return "FAIL timeout",""
    finally: shutil.rmtree(t,ignore_errors=True)
    o=r.stdout.decode(errors="replace"); 
    if vg: o="FAIL memory: invalid access (valgrind)\n" if re.search(rb"Invalid (read|write|free)",r.stderr) else ""
    elif r.returncode<0 or "DONE" not in o and "ASSUME" not in o: o+=f"FAIL native process ended with {r.returncode}\n"
    return o,r.stderr.decode(errors="replace")
def prep(job,t):
    """scratch files a harness needs (compiled rules etc.), made with the repository's own XML tools where relevant"""
    if "prep" in job:
        import generators
        getattr(generators,job["prep"])(REPO,t,job.get("params",{}))
def run_job(job,W,tier,deadline,jobs=NCPU,verbose=False,srcs=None):
    srcs=srcs or list(job["src"]); ex=job.get("defs",[])
    with cf.ThreadPoolExecutor(NCPU) as p: bcs=list(p.map(lambda s:compile_bc(s,W,ex),[V+"/harness/"+job["harness"]+".cc"]+srcs))
    t=tempfile.mkdtemp(prefix="job-",dir=W); prep(job,t)
    cmd=[B+"/symx"]
    for b in bcs[1:]: cmd+=["--repo",b]
    cmd+=["--other",bcs[0]]
    for r in RT: cmd+=["--other",f"{B}/{r}.bc"]
    for d in DL: cmd+=["--dl",d]
    cmd+=["--out",t+"/v.jsonl","--summary",t+"/s.json","--jobs",str(jobs),"--deadline",str(deadline),"--param","tmp="+t,"--steps",str(job.get("steps",3000000)),"--viol",str(job.get("viol",6))]
    for k,v in job.get("params",{}).items(): cmd+=["--param",f"{k}={v}"]
    try: r=sh(cmd,timeout=deadline+120,cwd=t); err=r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e: err="engine timeout"
    if verbose: sys.stderr.write(err)
    s={}; vs=[]
    try: s=json.load(open(t+"/s.json"))
    except Exception: s={"failed":err[-1500:]}
    un=re.findall(r"unresolved (?:function|symbol|global)? ?(\S+)",err)
    try: vs=[json.loads(l) for l in open(t+"/v.jsonl")]
    except FileNotFoundError: pass
    try: s["samples"]=[json.loads(l)["vars"] for l in open(t+"/v.jsonl.samples")]
    except (FileNotFoundError,ValueError): s["samples"]=[]
    inc=[k for k in s.get("labels",{}) if k.startswith("INCONCLUSIVE")]
    if (("failed" in s) or any("unresolved" in k or "no model" in k or "not allowed" in k for k in inc)) and len(srcs)==len(job["src"]) and not job.get("nolib"):
        full=srcs+[x for x in libsources() if x not in srcs]
        defd=set()
        if any(x not in srcs for x in full) and not job.get("_retried"):
            job2=dict(job); job2["_retried"]=1
            shutil.rmtree(t,ignore_errors=True)
            return run_job(job2,W,tier,deadline,jobs,verbose,full)
    shutil.rmtree(t,ignore_errors=True)
    return s,vs,err
def load_known():
    p=V+"/known_findings.json"
    return json.load(open(p)) if os.path.exists(p) else []
def main():
    a=sys.argv[1:]
    if a and a[0]=="--setup": setup(); return 0
    tier="thorough" if "--thorough" in a else os.environ.get("VERIF_TIER","quick"); 
    if "--quick" in a: tier="quick"
    verbose="-v" in a; only=[x[2:] for x in a if x.startswith("-j")]
    prop=[x for x in a if not x.startswith("-")][0]
    import checks
    c=checks.CHECKS[prop]; t0=time.time(); setup()
    W=tempfile.mkdtemp(prefix="verif-")
    viol=[]; unconf=[]; notes=[]; known=[]; jobsum=[]; funcs=set(); tot={}
    try:
        rc=run_prop(prop,c,tier,W,verbose,only,viol,unconf,notes,known,jobsum,funcs,tot)
    finally: shutil.rmtree(W,ignore_errors=True)
    wall=time.time()-t0
    os.makedirs(V+"/evidence",exist_ok=True)
    ev={"property":prop,"tier":tier,"seed":int(os.environ.get("VERIF_SEED","1")),"level":c.get("level","model_checking"),
        "coverage":{"states":tot.get("paths",0),"transitions":tot.get("forks",0)+tot.get("decisions",0),"traces_validated_against_impl":len(viol)+len(unconf)+len(known)+tot.get("samples",0),
            "samples":notes[:5] or ["no sample"],"functions_encoded":sorted(funcs),"bounds":c.get("bounds",""),"queries":tot.get("queries",0),"sat":tot.get("sat",0),"unsat":tot.get("unsat",0),"unknown":tot.get("unknown",0),
            "solver_s":round(tot.get("solver_s",0),2),"assertions_decided":tot.get("asserts",0),"exhausted_within_bounds":not any(j["cut"] for j in jobsum),"jobs":jobsum,"unconfirmed_counterexamples":unconf[:10]},
        "assumptions":c.get("assumptions",[])+["LLVM -O1 bitcode of the real sources (clang 18); models of ICU stdio, libc stdio, libstdc++ and lttoolbox entry points in rt/ stand for the shared libraries; every reported violation is re-run on the natively compiled code with the real libraries"],
        "wall_s":round(wall,2),"violations":len(viol)}
    ev["coverage"]["violations_found"]=[{"label":v["label"],"replay":v["replay"]} for v in viol]
    json.dump(ev,open(f"{V}/evidence/{prop}.json","w"),indent=1)
    for k in known: print(f"KNOWN-FINDING: property={prop} {k}")
    for v in viol[:8]: print(f"VIOLATION property={prop} replay={v['replay']}"); print("  "+v["label"]+" :: "+v["show"].replace("\n"," | ")[:700])
    for j in jobsum: print(("CUT  " if j["cut"] else "full ")+j["name"],"paths",j["paths"],"queries",j["queries"],"wall",j["wall"],"unconfirmed" if j["unconfirmed"] else "", j["inconclusive"] or "", j.get("error","")[:300])
    return 1 if viol else 0
def run_prop(prop,c,tier,W,verbose,only,viol,unconf,notes,known,jobsum,funcs,tot):
    kf=[k for k in load_known() if k.get("property")==prop and k.get("status")=="open"]
    budget=c.get("budget",{"quick":60,"thorough":600})[tier]
    js=[j for j in c["jobs"] if tier=="thorough" or j.get("tier","quick")=="quick"]
    if only: js=[j for j in js if j["name"] in only]
    # compile everything first, in parallel
    pairs={(s,tuple(j.get("defs",[]))) for j in js for s in list(j["src"])+[V+"/harness/"+j["harness"]+".cc"]}
    for s,_ in pairs:
        if s.startswith("gen:"): gensrc(s,W)
    try:
        with cf.ThreadPoolExecutor(NCPU) as p: list(p.map(lambda x:compile_bc(x[0],W,x[1]),pairs))
    except BuildError as e:
        print("BUILD-ERROR",e); jobsum.append({"name":"build","paths":0,"queries":0,"wall":0,"cut":True,"unconfirmed":0,"inconclusive":[],"error":str(e)[:500]}); return
    t0=time.time()
    share=lambda j: j.get("w",1)
    for i,j in enumerate(js):
        if viol and os.environ.get("VERIF_FIRST"): break
        left=budget-(time.time()-t0); rem=sum(share(x) for x in js[i:])
        dl=max(5,left*share(j)/rem) if left>0 else 5
        t1=time.time(); s,vs,err=run_job(j,W,tier,dl,verbose=verbose)
        js_={"name":j["name"],"harness":j["harness"],"params":j.get("params",{}),"paths":s.get("paths",0),"queries":s.get("queries",0),"unsat":s.get("unsat",0),"sat":s.get("sat",0),"solver_s":s.get("solver_s",0),"instructions":s.get("instructions",0),"wall":round(time.time()-t1,1),
            "cut":bool(s.get("failed") or s.get("incomplete") or s.get("deadline_cut") or s.get("inconclusive")),"deadline_s":round(dl,1),"inconclusive":{k:v[0] for k,v in s.get("labels",{}).items() if k.startswith("INCONCLUSIVE")},"labels":{k:v for k,v in s.get("labels",{}).items() if not k.startswith("INCONCLUSIVE")},"unconfirmed":0}
        if s.get("failed"): js_["error"]=s["failed"]
        jobsum.append(js_); funcs.update(demangle(s.get("functions",[])))
        for k in ("paths","forks","decisions","queries","sat","unsat","unknown","solver_s"): tot[k]=tot.get(k,0)+s.get(k,0)
        tot["asserts"]=tot.get("asserts",0)+s.get("asserts_concrete",0)+s.get("asserts_symbolic",0)
        notes+= [f"{j['name']}: {s.get('paths',0)} symbolic paths, {s.get('queries',0)} queries, labels {list(js_['labels'].items())[:6]}"]
        seen=0
        for v in vs[:8]:
            if seen>=3: break
            mem=v["label"].startswith("memory:")
            try: exe=build_native(j,W,mem)
            except BuildError as e: js_["error"]=str(e)[:500]; break
            o,e2=replay(exe,j,j.get("params",{}),v.get("vars",{}),W,asan=mem)
            fails=[l[5:] for l in o.splitlines() if l.startswith("FAIL ")]
            if not fails and mem:
                exe=build_native(j,W,False); o,e2=replay(exe,j,j.get("params",{}),v.get("vars",{}),W); fails=[l[5:] for l in o.splitlines() if l.startswith("FAIL ")]
                if not fails: o,e2=replay(exe,j,j.get("params",{}),v.get("vars",{}),W,vg=True); fails=[l[5:] for l in o.splitlines() if l.startswith("FAIL ")]
            if not fails: unconf.append({"job":j["name"],"label":v["label"],"vars":v.get("vars"),"where":v.get("where","")[:400],"native":o[-300:]}); js_["unconfirmed"]+=1; continue
            allk=True
            for f in fails:
                k=next((k for k in kf if k["job"] in (j["name"],"*") and (f==k["label"] or (mem and k["label"]==v["label"]))),None)
                if k:
                    if k["what"] not in known: known.append(k["what"])
                else: allk=False
            if allk: continue
            o2,sh2=replay(exe,j,j.get("params",{}),v.get("vars",{}),W,asan=mem,show=True)
            d=f"{V}/evidence/replay"; os.makedirs(d,exist_ok=True); p=f"{d}/{prop}-{j['name']}-{len(viol)}.json"
            json.dump({"property":prop,"job":j["name"],"harness":j["harness"],"src":j["src"],"params":j.get("params",{}),"vars":v.get("vars"),"label":v["label"],"native_failures":fails,"detail":v.get("detail"),"where":v.get("where"),"native_io":sh2[-4000:],"rerun":f"python3 {V}/check.py --replay {p}"},open(p,"w"),indent=1)
            viol.append({"label":fails[0],"replay":p,"show":sh2[-700:]}); seen+=1
        # path models of this job run on the natively compiled code: a disagreement means the encoding (or a library model) is wrong, or the code is
        sm=s.get("samples",[]); sm=sm[-(24 if tier=="thorough" else 6):]
        if sm and not seen and not js_.get("error"):
            try: exe=build_native(j,W,False)
            except BuildError as e: js_["error"]=str(e)[:500]; continue
            with cf.ThreadPoolExecutor(NCPU) as p: rs=list(p.map(lambda v:replay(exe,j,j.get("params",{}),v,W)[0],sm))
            for v,o in zip(sm,rs):
                tot["samples"]=tot.get("samples",0)+1
                fails=[l[5:] for l in o.splitlines() if l.startswith("FAIL ")]
                if not fails or fails[0].startswith("timeout"): continue
                if all(any(k["job"] in (j["name"],"*") and f==k["label"] for k in kf) for f in fails): continue
                d=f"{V}/evidence/replay"; os.makedirs(d,exist_ok=True); p=f"{d}/{prop}-{j['name']}-{len(viol)}.json"
                json.dump({"property":prop,"job":j["name"],"harness":j["harness"],"src":j["src"],"params":j.get("params",{}),"vars":v,"label":fails[0],"native_failures":fails,"detail":"path model validated natively"},open(p,"w"),indent=1)
                viol.append({"label":"path model fails natively: "+fails[0],"replay":p,"show":replay(exe,j,j.get("params",{}),v,W,show=True)[1][-700:]}); break
def demangle(l):
    if not l: return []
    r=subprocess.run(["c++filt"],input="\n".join(l).encode(),stdout=subprocess.PIPE); return [x for x in r.stdout.decode().splitlines() if not x.startswith("std::") and "__gnu_cxx" not in x][:400]
def do_replay(p):
    d=json.load(open(p)); import checks; setup(); W=tempfile.mkdtemp(prefix="verif-")
    try:
        j=next(x for x in checks.CHECKS[d["property"]]["jobs"] if x["name"]==d["job"]); mem=d["label"].startswith("memory:")
        o,e=replay(build_native(j,W,mem),j,d["params"],d["vars"],W,asan=mem,show=True); print(o,e); return 1 if "FAIL" in o else 0
    finally: shutil.rmtree(W,ignore_errors=True)
if __name__=="__main__":
    if len(sys.argv)>2 and sys.argv[1]=="--replay": sys.exit(do_replay(sys.argv[2]))
    sys.exit(main())
