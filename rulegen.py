"""Deterministic generator of rule files: broad mixes of instructions of the transfer rule language, one rule per key tag.
spec 'gen:<stage>:<focus>:<seed>[:<n>]' with stage 1 (lu), c (transfer with chunks), 2 (interchunk), 3 (postchunk)."""
import random
KEYS="ABCDFGHIJKLMOQRTUVWXYZ"   # tag (stage 1) or name letter of the word that selects the rule
def make(spec):
    st,focus,seed,*n=spec.split(":")[1:]; return Gen(st,focus,int(seed),int(n[0]) if n else 10).file()
class Gen:
    def __init__(g,st,focus,seed,n): g.st,g.f,g.n,g.seed=st,focus,n,seed; g.r=random.Random(f"{st}{focus}{seed}"); g.depth=0
    def ch(g,*a): return g.r.choice(a)
    def pos(g): return g.r.randint(1,g.len) if g.st!="3" else g.r.randint(0 if g.r.random()<.25 else 1,g.len)
    def part(g):
        if g.st in "1c": return g.ch("lem","lem","lemh","lemq","tags","whole","num","num","pos")
        if g.st=="2": return g.ch("lem","lem","tags","num","num","sp")
        return g.ch("lem","lem","lemh","lemq","tags","num","an","an","whole")
    def clip(g,part=None,lhs=False):
        p=part or g.part(); l=""
        if lhs and p in("whole","lemq","tags","lemh"): p=g.ch("lem","num")
        pos=g.pos()
        if g.st=="3" and pos==0 and p=="whole": p="lem"
        if lhs and g.st=="3" and pos==0: pos=1
        side=f' side="{g.ch("tl","tl","tl","sl")}"' if g.st in "1c" else ""
        if lhs and side: side=' side="tl"' if g.r.random()<.8 else ' side="sl"'
        if g.st in "c" and not lhs and p in("num","pos") and g.r.random()<.3: l=f' link-to="{g.r.randint(1,4)}"'
        return f'<clip pos="{pos}"{side} part="{p}"{l}/>'
    def lit(g): return f'<lit v="{g.ch("a","xB","Y","x","aB","")}"/>'
    def lt(g): return f'<lit-tag v="{g.ch("s","p","z","s.p","n.z")}"/>'
    def var(g): return f'<var n="{g.ch("x","y","z")}"/>'
    def caseof(g):
        side=f' side="{g.ch("tl","sl")}"' if g.st in "1c" else ""
        return f'<case-of pos="{g.pos()}"{side} part="lem"/>'
    def caseval(g): return g.ch(f'<lit v="{g.ch("aa","Aa","AA")}"/>',g.caseof(),g.caseof(),g.clip("lem"))
    def text(g,d=0):
        k=g.r.random()
        if k<.5: return g.clip(g.ch("lem","lem","lemh") if g.st!="2" else "lem")
        if k<.65: return g.lit()
        if k<.8: return g.var()
        if k<.9 and d<1: return f'<get-case-from pos="{g.pos()}">{g.ch(g.clip("lem"),g.clip("lem"),g.lit(),g.var())}</get-case-from>'
        return g.caseof()
    def tagv(g): return g.ch(g.clip(g.ch("num","num","pos" if g.st in "1c" else "num")),g.lt(),g.clip("tags"))
    def anyv(g,b=True):
        k=g.r.random()
        if k<.45: return g.clip()
        if k<.6: return g.text()
        if k<.7: return g.lt()
        if k<.8: return g.lit()
        if k<.87: return "<concat>"+"".join(g.text() for _ in range(g.r.randint(2,3)))+"</concat>"
        if k<.93 and b and g.f=="blank": return "<b/>"
        return g.var()
    def lhsval(g):   # value of a let to a part of a word
        return None
    def test(g,d=0):
        k=g.r.random()
        if d<2 and k<.3:
            op=g.ch("and","or","not"); return f"<{op}>"+"".join(g.test(d+1) for _ in range(1 if op=="not" else g.r.randint(2,3)))+f"</{op}>"
        c=g.ch(' caseless="yes"',""," caseless=\"no\""); op=g.ch("equal","equal","begins-with","ends-with","contains-substring","in","begins-with-list","ends-with-list")
        a=g.ch(g.clip("lem"),g.clip("lem"),g.clip("num"),g.clip(),g.var(),g.caseof(),"<lu-count/>" if g.st=="3" else g.clip("tags"))
        if g.f=="blank" and g.r.random()<.15: a="<b/>"
        if "list" in op or op=="in": return f'<{op}{c}>{a}<list n="{g.ch("l1","l2")}"/></{op}>'
        b=g.ch(g.lit(),g.lit(),g.lt(),g.var(),g.clip(),g.clip("lem"),f'<lit v="{g.ch("aa","Aa","AA","1","2")}"/>')
        return f"<{op}{c}>{a}{b}</{op}>"
    def lu(g):
        if g.r.random()<.3: return f'<lu>{g.clip("whole")}</lu>' if g.st!="2" else ""
        body=g.text()+(g.text() if g.r.random()<.3 else "")+"".join(g.tagv() for _ in range(g.r.randint(0,2)))+(g.clip("lemq") if g.r.random()<.2 else "")
        return f"<lu>{body}</lu>"
    def word(g): return "<mlu>"+"".join(g.lu() for _ in range(g.r.randint(2,3)))+"</mlu>" if g.r.random()<(.3 if g.f in("wb","mlu") else .15) else g.lu()
    def b(g): return g.ch("<b/>","<b/>",f'<b pos="{g.r.randint(1,3)}"/>')
    def seq(g,n,f):
        o=""
        for i in range(n):
            if i and g.r.random()<.8 or g.r.random()<.1: o+=g.b()
            o+=f()
        if g.r.random()<.1: o+=g.b()
        return o
    def chunk2(g):
        k=g.r.random()
        if k<.4: return f'<chunk>{g.clip("whole")}</chunk>'
        h=g.text()+g.tagv()+(g.tagv() if g.r.random()<.3 else "")
        if k<.7: return f'<chunk>{h}{g.clip("chcontent")}</chunk>'
        return f'<chunk>{h}<lit v="{{"/>{g.clip("content")}{"<b/>"+g.clip("content") if g.r.random()<.5 else ""}<lit v="}}"/></chunk>'
    def chunk1(g):
        nm=g.ch('name="nm"','namefrom="x"','namefrom="y"','namefrom="z"','name="Ab"'); cs=g.ch('',' case="cas"',' case="y"',' case="z"')
        t="".join(f"<tag>{g.tagv1()}</tag>" for _ in range(g.r.randint(1,3)))
        return f'<chunk {nm}{cs}><tags>{t}</tags>{g.seq(g.r.randint(1,3),g.word)}</chunk>'
    def tagv1(g): return g.ch(g.clip("num").split(" link")[0].rstrip("/>")+"/>",g.lt(),g.clip("pos").split(" link")[0].rstrip("/>")+"/>",'<var n="t"/>')
    def out(g):
        n=g.r.randint(1,max(1,g.len))
        if g.st=="2": return f"<out>{g.seq(n,g.chunk2)}</out>"
        if g.st=="c" and not g.inmac: return f"<out>{g.seq(g.ch(1,1,2),g.chunk1)}</out>"
        return f"<out>{g.seq(n,g.word)}</out>"
    def instr(g,d=0):
        k=g.r.random()
        if k<.3: 
            v=g.anyv()
            if g.f=="wb" and ("<var" in v or "<clip" in v or "get-case" in v) and v.startswith("<var"): v=g.clip("lem")
            return f'<let><var n="{g.ch("x","y","z","cas" if g.st=="c" else "x")}"/>{v}</let>'
        if k<.55:
            l=g.clip(lhs=True); v=g.tagv() if 'part="num"' in l or 'part="pos"' in l or 'part="an"' in l or 'part="sp"' in l else g.text()
            return f"<let>{l}{v.replace(chr(32)+'link-to',' link-to')}</let>"
        if k<.65: return f'<append n="{g.ch("x","y","z")}">{g.text()}{g.lit() if g.r.random()<.5 else ""}</append>'
        if k<.78: return f'<modify-case>{g.ch(g.clip("lem",lhs=True),g.var())}{g.caseval()}</modify-case>'
        if k<.9 and d<2: return g.choose(d)
        if g.mac and not g.inmac: 
            m=g.ch(*g.mac); 
            pos=[g.r.randint(1,g.len) for _ in range(m[1])]; return f'<call-macro n="{m[0]}">'+"".join(f'<with-param pos="{p}"/>' for p in pos)+"</call-macro>"
        return f'<let><var n="x"/>{g.text()}</let>'
    def choose(g,d,body=None):
        o="<choose>"
        for _ in range(g.r.randint(1,2)): o+=f"<when><test>{g.test()}</test>{body() if body else g.instr(d+1)}</when>"
        if g.r.random()<.6: o+=f"<otherwise>{body() if body else g.instr(d+1)}</otherwise>"
        return o+"</choose>"
    def show(g,*parts):
        """units (or chunks) that show values"""
        if g.st=="2": return "<b/>".join(f'<chunk>{p}<lit v="!"/></chunk>' for p in parts)
        return "<b/>".join(f'<lu>{p}<lit v="!"/></lu>' for p in parts)
    def wrap(g,o):
        if g.st!="c": return f"<out>{o}</out>"
        return f'<out><chunk name="nm"><tags><tag><lit-tag v="s"/></tag></tags>{o}</chunk></out>'
    def allwords(g):
        if g.st in "1c": return "<b/>".join(f'<lu><clip pos="{i}" side="tl" part="whole"/></lu><lu><clip pos="{i}" side="sl" part="whole"/></lu>' for i in range(1,g.len+1))
        if g.st=="2": return "<b/>".join(f'<chunk><clip pos="{i}" part="whole"/></chunk>' for i in range(1,g.len+1))
        return "<b/>".join(f'<lu><clip pos="{i}" part="whole"/></lu>' for i in range(1,g.len+1))
    def sys(g):
        if g.f=="cond":   # every test instruction, case mode and kind of operand in turn
            sides=["tl","sl"] if g.st in "1c" else [""]; cl=lambda p,sd,n=0: f'<clip pos="{g.pos()}"'+(f' side="{sd}"' if sd else "")+f' part="{p}"/>'
            if not hasattr(g,"todo"):
                g.todo=[(op,c,l,r) for op in("equal","begins-with","ends-with","contains-substring","in","begins-with-list","ends-with-list") for c in(""," caseless=\"yes\""," caseless=\"no\"") for l in("lem","num","var","case","tags","count" if g.st=="3" else "lem") for r in(("l1","l2","l3") if "list" in op or op=="in" else ("lit","lit","tag","var","lem","case","num"))]
                random.Random("cond"+g.st).shuffle(g.todo); k=int(g.seed)*g.n*8%len(g.todo); g.todo=g.todo[k:]+g.todo[:k]
            o='<let><var n="wv"/><lit v=""/></let>'
            for _ in range(8):
                op,c,l,r=g.todo.pop(0); g.todo.append((op,c,l,r)); sd=g.ch(*sides)
                a={"lem":cl("lem",sd),"num":cl("num",sd),"var":g.var(),"case":g.caseof(),"tags":cl("tags",sd),"count":"<lu-count/>"}[l]
                b={"l1":'<list n="l1"/>',"l2":'<list n="l2"/>',"l3":'<list n="l3"/>',"lit":f'<lit v="{g.ch("a","A","xB","Y","aB","","b","x","ax","Aa","1","2")}"/>',"tag":g.lt(),"var":g.var(),"lem":cl("lem",g.ch(*sides)),"case":f'<lit v="{g.ch("aa","Aa","AA")}"/>',"num":cl("num",g.ch(*sides))}[r]
                t=f"<{op}{c}>{a}{b}</{op}>"
                if g.r.random()<.2: t=f"<not>{t}</not>"
                o+=f'<choose><when><test>{t}</test><append n="wv"><lit v="1"/></append></when><otherwise><append n="wv"><lit v="0"/></append></otherwise></choose>'
            return o+g.wrap(g.show('<var n="wv"/>'))
        if g.f=="let":
            o=""
            for _ in range(g.r.randint(2,4)):
                l=g.clip(lhs=True); v=g.tagv() if 'part="num"' in l or 'part="pos"' in l or 'part="an"' in l or 'part="sp"' in l else g.text(); o+=f"<let>{l}{v.split(' link-to')[0]+'/>' if ' link-to' in v else v}</let>"
                if g.r.random()<.3: o+=f'<append n="{g.ch("x","y","z")}">{g.clip()}</append>'
            return o+g.wrap(g.allwords())
        if g.f=="vars":
            o="".join(g.instr(2) for _ in range(g.r.randint(2,4)))
            return g.wrap(g.show(*(f'<var n="{v}"/>' for v in "xyz")))+o+"".join(f'<let><var n="{v}"/>{g.text()}</let>' for v in g.r.sample("xyz",g.r.randint(1,3)))
        if g.f=="case":
            o=""
            for _ in range(g.r.randint(2,3)): o+=f'<modify-case>{g.ch(g.clip("lem",lhs=True),g.clip("lem",lhs=True),g.var(),g.clip("lemh",lhs=True) if g.st not in "2" else g.var())}{g.caseval()}</modify-case>'
            if g.r.random()<.5: o+=f'<let><var n="{g.ch("x","y","z")}"/>{g.caseof()}</let>'
            gc=lambda: f'<get-case-from pos="{g.pos()}">{g.ch(g.clip("lem"),g.lit(),g.var())}</get-case-from>'
            return o+g.wrap(g.allwords()+"<b/>"+g.show('<var n="x"/>','<var n="y"/>',gc(),gc(),g.caseof()))
        if g.f=="clip":
            v=[]
            for _ in range(5): v.append("".join(g.clip() for _ in range(g.r.randint(1,3))).replace(" link-to"," link-to"))
            if g.st=="c": v=[x for x in v]
            return g.wrap(g.show(*v))
    def action(g):
        if g.f in("cond","let","vars","case","clip"): return g.sys()
        o="".join(g.instr() for _ in range(g.r.randint(0,3)))
        if g.f=="reject" and g.r.random()<.7:
            rej=lambda: f'<reject-current-rule shifting="{g.ch("no","yes",*[str(i) for i in range(2,g.len+1)])}"/>'
            where=g.r.random(); c=f"<choose><when><test>{g.test()}</test>{g.out() if where<.3 else ''}{rej()}</when></choose>"; 
            o=c+o if g.r.random()<.5 else o+c
        k=g.r.random()
        if k<.6: o+=g.out()
        elif k<.8: o+=g.choose(1,g.out)
        elif k<.93: o+=g.out()+"".join(g.instr() for _ in range(2))+g.out()
        if g.f=="blank" and g.r.random()<.2: o=g.out()+o
        return o
    def guard(g,f):
        """postchunk rules see chunks with any number of words: positions are guarded by lu-count"""
        n=g.len; return f'<choose><when><test><equal><lu-count/><lit v="{n}"/></equal></test>{f()}</when><otherwise><out><lu><lit v="o"/></lu></out></otherwise></choose>'
    def file(g):
        root={"1":"transfer default=\"lu\"","c":"transfer default=\"chunk\"","2":"interchunk","3":"postchunk"}[g.st]; g.mac=[]; g.inmac=False
        cats=attrs=""; o=[]
        keys=KEYS[:g.n]+("YZ" if g.f=="blank" else "")
        if g.st in "1c": cats="".join(f'<def-cat n="k{k}"><cat-item tags="{k}"/><cat-item tags="{k}.*"/></def-cat>' for k in keys)+'<def-cat n="n"><cat-item tags="n"/><cat-item tags="n.*"/></def-cat><def-cat n="v"><cat-item tags="v.*"/></def-cat><def-cat n="w"><cat-item tags="n.*"/><cat-item tags="v.*"/></def-cat><def-cat n="q"><cat-item tags="q.*"/></def-cat>'
        elif g.st=="2": cats="".join(f'<def-cat n="k{k}"><cat-item tags="{k}"/><cat-item tags="{k}.*"/></def-cat>' for k in keys)+'<def-cat n="n"><cat-item tags="S"/><cat-item tags="S.*"/></def-cat><def-cat n="v"><cat-item tags="P.*"/><cat-item tags="P"/></def-cat><def-cat n="w"><cat-item tags="S.*"/><cat-item tags="P.*"/></def-cat><def-cat n="q"><cat-item tags="q"/></def-cat>'
        else: cats="".join(f'<def-cat n="k{k}"><cat-item name="{k.lower()}"/></def-cat>' for k in keys)
        attrs={"1":'<def-attr n="num"><attr-item tags="s"/><attr-item tags="p"/></def-attr><def-attr n="pos"><attr-item tags="n"/><attr-item tags="v"/><attr-item tags="n.s"/></def-attr>',"2":'<def-attr n="num"><attr-item tags="S"/><attr-item tags="P"/></def-attr><def-attr n="sp"><attr-item tags="S.P"/><attr-item tags="S"/><attr-item tags="P.P"/></def-attr>',"3":'<def-attr n="num"><attr-item tags="S"/><attr-item tags="P"/></def-attr><def-attr n="an"><attr-item tags="n"/><attr-item tags="s"/><attr-item tags="n.s"/></def-attr>'}
        attrs=attrs["1" if g.st=="c" else g.st]
        var='<def-var n="x"/><def-var n="y" v="aB"/><def-var n="z" v="XyZ"/><def-var n="cas" v="Aa"/><def-var n="t"/><def-var n="wv"/>'
        lists='<def-list n="l1"><list-item v="a"/><list-item v="xB"/><list-item v="Y"/></def-list><def-list n="l2"><list-item v="aB"/><list-item v="&lt;s&gt;"/><list-item v="AA"/><list-item v="x"/></def-list><def-list n="l3"><list-item v="A"/><list-item v="bX"/><list-item v="2"/><list-item v="Aa"/></def-list>'
        macs=""
        for i in (1,2,3,2):
            g.len=i; g.inmac=True; nm=f"m{i}{len(g.mac)}"; body="".join(g.instr(1) for _ in range(g.r.randint(1,3)))
            if g.st!="c" and g.r.random()<.5: body+=g.out() if g.r.random()<.6 else g.choose(1,g.out)
            if g.st=="3": body=f"{body}"
            macs+=f'<def-macro n="{nm}" npar="{i}">{body}</def-macro>'; g.mac.append((nm,i)); g.inmac=False
        if g.f=="match": return g.matchfile(root)
        rules=""; allmac=g.mac
        for i,k in enumerate(keys[:g.n]):
            g.len=[1,2,3,2,3,1,2,3,4,2][i%10] if g.st!="3" else [1,2,2,1,2,2,1,2,2,2][i%10]; g.mac=allmac
            if g.st=="3": rules+=f'<rule><pattern><pattern-item n="k{k}"/></pattern><action>{g.guard(g.action)}</action></rule>\n'; continue
            pat=["k"+k]+[g.ch("n","n","v","w") for _ in range(g.len-1)]
            rules+="<rule><pattern>"+"".join(f'<pattern-item n="{p}"/>' for p in pat)+f"</pattern><action>{g.action()}</action></rule>\n"
            if g.f in("blank","reject") and i%3==2:   # a longer pattern with the same beginning: the matcher has to look ahead
                g.len+=2; full=pat+[g.ch("n","w"),g.ch("q","v")]; rules+="<rule><pattern>"+"".join(f'<pattern-item n="{p}"/>' for p in full)+f"</pattern><action>{g.action()}</action></rule>\n"
            if g.f=="reject" and i%2: 
                g.len=1; rules+=f'<rule><pattern><pattern-item n="k{k}"/></pattern><action>{g.action()}</action></rule>\n' if len(pat)>1 else ""
        if g.f=="blank" and g.st in "12":   # most of the blanks inside the match are left over
            u=lambda i: f'<lu><clip pos="{i}" side="tl" part="whole"/></lu>' if g.st=="1" else f'<chunk><clip pos="{i}" part="whole"/></chunk>'
            rules+=f'<rule><pattern><pattern-item n="kZ"/><pattern-item n="n"/><pattern-item n="n"/><pattern-item n="n"/></pattern><action><out>{u(1)}</out></action></rule>\n<rule><pattern><pattern-item n="kY"/><pattern-item n="n"/><pattern-item n="n"/><pattern-item n="n"/></pattern><action><out>{u(2)}<b/>{u(1)}</out></action></rule>\n'
        if g.f=="reject" and g.st in "12":   # a rejection that depends on the word, and a longer pattern that makes the matcher read ahead
            cl='<clip pos="1" side="tl" part="lem"/>' if g.st=="1" else '<clip pos="1" part="lem"/>'; lt="x" if g.st=="1" else "u"; g.len=1
            rules+=f'<rule><pattern><pattern-item n="v"/></pattern><action><choose><when><test><equal>{cl}<lit v="{lt}"/></equal></test><reject-current-rule shifting="{g.ch("no","yes")}"/></when></choose>{g.out()}</action></rule>\n<rule><pattern><pattern-item n="v"/><pattern-item n="w"/><pattern-item n="q"/></pattern><action><out></out></action></rule>\n'
        elif g.f in("blank","reject") and g.st!="3": g.len=1; rules+=f'<rule><pattern><pattern-item n="v"/></pattern><action>{g.action()}</action></rule>\n'
        if g.f=="wb": pass
        return f'<?xml version="1.0" encoding="UTF-8"?>\n<{root}>\n<section-def-cats>{cats}</section-def-cats>\n<section-def-attrs>{attrs}</section-def-attrs>\n<section-def-vars>{var}</section-def-vars>\n<section-def-lists>{lists}</section-def-lists>\n<section-def-macros>{macs}</section-def-macros>\n<section-rules>\n{rules}</section-rules>\n</{root.split()[0]}>\n'
def _match(g,root):
    """rule selection: random categories and patterns; the action shows which rule was applied to which words"""
    it=lambda: f'<cat-item{g.ch("","","",chr(32)+"lemma=\"a\"",chr(32)+"lemma=\"ab\"",chr(32)+"lemma=\"a*\"",chr(32)+"lemma=\"*b\"",chr(32)+"lemma=\"b\"")} tags="{g.ch("n","v","n.*","v.*","*","n.s","*.s","v.*.s","n.s.*","v.p","*.p","n.p.*")}"/>'
    if g.st=="2": it0=it; it=lambda: it0().replace('n"','S"').replace('n.','S.').replace('v"','P"').replace('v.','P.')
    cats="".join(f'<def-cat n="c{i}">{"".join(it() for _ in range(g.r.randint(1,3)))}</def-cat>' for i in range(6))
    rules=""; seen=set()
    while len(seen)<g.n:
        p=tuple(f"c{g.r.randint(0,5)}" for _ in range(g.ch(1,1,2,2,3,3,4)))
        if p in seen: continue
        seen.add(p); k=len(seen)
        if g.st=="2": o="".join(("<b/>" if j else "")+f'<chunk><lit v="{chr(96+k)}{j+1}"/><clip pos="{j+1}" part="whole"/></chunk>' for j in range(len(p)))
        else: o="".join(("<b/>" if j else "")+f'<lu><lit v="{chr(96+k)}{j+1}"/><clip pos="{j+1}" side="tl" part="whole"/></lu>' for j in range(len(p)))
        rules+="<rule><pattern>"+"".join(f'<pattern-item n="{c}"/>' for c in p)+f"</pattern><action><out>{o}</out></action></rule>\n"
    return f'<?xml version="1.0" encoding="UTF-8"?>\n<{root}>\n<section-def-cats>{cats}</section-def-cats>\n<section-def-attrs><def-attr n="num"><attr-item tags="s"/></def-attr></section-def-attrs>\n<section-def-vars><def-var n="x"/></section-def-vars>\n<section-rules>\n{rules}</section-rules>\n</{root.split()[0]}>\n'
Gen.matchfile=_match
if __name__=="__main__":
    import sys; print(make(sys.argv[1]))
