"""Scratch files made from the repository's current sources: compiled rule files, generated scanners."""
import os,subprocess,shutil,re,hashlib,threading
V=os.path.dirname(os.path.abspath(__file__)); _lock=threading.Lock()
class GenError(Exception): pass
def _check(r,what):
    if r.returncode: raise GenError(what+": "+r.stderr.decode(errors="replace")[:1500])
def tool(REPO,t,name,srcs):
    """natively compiled helper program from REPO sources, cached in the run's work directory"""
    import check
    W=os.path.dirname(t); exe=W+"/tool_"+name
    with _lock:
        if os.path.exists(exe): return exe
        ps=[]; objs=[]
        for s in srcs:
            o=f"{W}/tool_{name}_{os.path.basename(s)}.o"; objs.append(o)
            ps.append((s,subprocess.Popen(["clang++","-O1","-std=c++23","-DHAVE_CONFIG_H","-w"]+check.INC+["-c",REPO+"/"+s,"-o",o],stdout=subprocess.PIPE,stderr=subprocess.PIPE)))
        for s,p in ps:
            e=p.communicate()[1]
            if p.returncode: raise check.BuildError(s+": "+e.decode()[:1500])
        r=subprocess.run(["clang++"]+objs+["-o",exe+".tmp"]+check.LIBS,capture_output=True)
        if r.returncode: raise check.BuildError(name+": "+r.stderr.decode()[:1500])
        os.rename(exe+".tmp",exe)
    return exe
PP=["apertium/"+x for x in("transferpp.cc","trx_reader.cc","transfer_data.cc","transfer_regex.cc","apertium_re.cc","xml_reader.cc")]
def trx(REPO,t,params):
    if params["rules"].startswith("gen:"):
        import rulegen; open(t+"/rules.xml","w").write(rulegen.make(params["rules"]))
    else: shutil.copy(V+"/rules/"+params["rules"],t+"/rules.xml")
    _check(subprocess.run([tool(REPO,t,"pp",PP),t+"/rules.xml",t+"/rules.bin"],capture_output=True),"preprocess-transfer")

def crx(REPO,t,params):
    shutil.copy(V+"/rules/"+params["rules"],t+"/rules.crx")
    _check(subprocess.run([tool(REPO,t,"cc",["apertium/caps_compiler.cc","apertium/apertium_compile_caps.cc"]),t+"/rules.crx",t+"/crx.bin"],capture_output=True),"compile-caps")

def mult(REPO,t,params):
    shutil.copy(V+"/rules/mt/"+params.get("rules","m.t1x"),t+"/rules.xml")
    _check(subprocess.run([tool(REPO,t,"pp",PP),t+"/rules.xml",t+"/rules.bin"],capture_output=True),"preprocess-transfer")
    _check(subprocess.run(["lt-comp","lr",V+"/rules/mt/bil.dix",t+"/bil.bin"],capture_output=True),"lt-comp")
    o=""
    for w in open(V+"/rules/mt/words.txt").read().split("\n"):
        if w: r=subprocess.run(["lt-proc","-b",t+"/bil.bin"],input=("^"+w+"$").encode(),capture_output=True).stdout.decode(); assert r.startswith("^"+w+"/") or w[0]=="*",r; o+=w+"\t"+(w if w[0]=="*" else r[len(w)+2:-1])+"\n"
    open(t+"/bil.txt","w").write(o)

def make(spec,REPO,W):
    """C++ of a scanner that the repository's build generates: des:FMT, re:FMT (from the stylesheets) or l:NAME (NAME.l)"""
    kind,name=spec.split(":"); d=f"{W}/gen"; os.makedirs(d,exist_ok=True); out=f"{d}/{kind}_{name.replace('-','_')}.cc"
    with _lock:
        if os.path.exists(out): return out
        l=out[:-3]+".l"
        if kind=="l": shutil.copy(f"{REPO}/apertium/{name}.l",l)
        else:
            r=subprocess.run(["xsltproc",f"{REPO}/apertium/{kind}format.xsl" if kind=="re" else f"{REPO}/apertium/deformat.xsl",f"{REPO}/apertium/{name}-format.xml"],capture_output=True)
            _check(r,spec); open(l,"wb").write(r.stdout)
        r=subprocess.run(["flex","-Cfer","-o"+out+".tmp",l],capture_output=True); _check(r,"flex "+spec); os.rename(out+".tmp",out)
    return out
def separate_ll(t,suffix):
    """give the strong definitions of a generated scanner (all of them call themselves yylex, put, ...) names of their own"""
    ns=set(re.findall(r'^define (?:dso_local )?(?:noundef |signext |zeroext |nonnull |i\d+ |void |ptr |[^@(]*? )?@([\w.$]+)\(',t,re.M))
    strong={n for n in ns if not re.search(r'^define [^@]*\b(?:linkonce_odr|internal|available_externally|weak)\b[^@]*@'+re.escape(n)+r'\(',t,re.M)}
    strong|=set(re.findall(r'^@([\w.$]+) = (?:dso_local )?(?:local_unnamed_addr )?(?:global|constant)\b',t,re.M))
    strong={n for n in strong if not n.endswith("_main")}
    return re.sub(r'@([\w.$]+)',lambda m:"@"+m[1]+"."+suffix if m[1] in strong else m[0],t)
def tg(repo,t,params):
    import shutil
    for f in ("t.prob","t.dump","lsw.prob","lsw.dump","p.prob","p.dump","p.mtx","t.tsx","t.tagged","t.untagged","t.dic"): shutil.copy(V+"/rules/tg/"+f,t)

    if "tsx" in params:
        x=open(V+"/rules/tg/"+params["tsx"]).read(); shutil.copy(V+"/rules/tg/"+params["tsx"],t+"/rules.tsx")
        open(t+"/rules.txt","w").write("".join("F %s %s\n"%m for m in re.findall(r'<label-sequence><label-item label="(\w+)"/><label-item label="(\w+)"/>',x))+"".join("E %s %s\n"%(a," ".join(re.findall(r'label="(\w+)"',b))) for a,b in re.findall(r'<enforce-after label="(\w+)"><label-set>(.*?)</label-set>',x)))