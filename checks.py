"""Registry: every props/<id>.py states one property (PROP) and how it is checked (CHECK)."""
import os
def J(name,harness,src,weight=1,tier="quick",**kw):
    S=("prep","defs","steps","viol","nolib")
    d=dict(name=name,harness=harness,src=src,w=weight,tier=tier); d["params"]={k:v for k,v in kw.items() if k not in S}
    for k in S:
        if k in kw: d[k]=kw[k]
    return d
_B=["apertium/"+x for x in ("transfer_base.cc","transfer_instr.cc","transfer_token.cc","apertium_re.cc","trx_reader.cc","transfer_data.cc","transfer_regex.cc","xml_reader.cc")]
TRX=["apertium/apertium_transfer.cc","apertium/transfer.cc","apertium/transfer_word.cc"]+_B
ICH=["apertium/apertium_interchunk.cc","apertium/interchunk.cc","apertium/interchunk_word.cc"]+_B
PCH=["apertium/apertium_postchunk.cc","apertium/postchunk.cc","apertium/interchunk_word.cc"]+_B
def TT(job,rules,w_=1,**k): return J(job,"trx",TRX,w_,prep="trx",rules=rules,**k)
def TI(job,w_=1,rules="inter.t2x",**k): return J(job,"chk",ICH,w_,prep="trx",rules=rules,stage=2,**k)
def TP(job,rules,w_=1,**k): return J(job,"chk",PCH,w_,prep="trx",rules=rules,stage=3,defs=["-DPOST"],**k)
def FMT(job,fmt,w_=1,**k): n=fmt.replace("-","_"); return J(job,"fmt",["gen:des:"+fmt,"gen:re:"+fmt],w_,nolib=1,defs=[f"-DDES=gen_des_{n}_main",f"-DRE=gen_re_{n}_main"],**k)
CHECKS={}; PROPS={}; NA=[]
_d=os.path.dirname(os.path.abspath(__file__))+"/props"
for f in sorted(os.listdir(_d)):
    if f.endswith(".py"):
        g={k:v for k,v in globals().items() if k in ("J","TRX","ICH","PCH","TT","TI","TP","FMT")}; exec(compile(open(_d+"/"+f).read(),f,"exec"),g); p=g["PROP"]; p["id"]=f[:-3]; PROPS[p["id"]]=p
        if "CHECK" in g: CHECKS[p["id"]]=g["CHECK"]
        else: NA.append({"property":p["id"],"reason":g["NA"]})
