// apertium-tagger with a statistical model (hidden Markov or sliding window): one reading of every word, everything else
// unchanged, and the readings chosen are those the model scores highest.
#include "rt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <apertium/perceptron_tagger.h>
#include <apertium/stream.h>
#include <iostream>
extern "C" int apertium_tagger_main(int,char**);
#ifdef NEWRULES
extern "C" int apertium_tagger_apply_new_rules_main(int,char**);
#else
static int apertium_tagger_apply_new_rules_main(int,char**){ return 1; }
#endif
struct R { const char* t[2]; const char* tag[2]; int n; };          // parts of a reading and their coarse tags
struct U { const char* s; R r[4]; int n; };
#define R1(T,G) {{T,nullptr},{G,nullptr},1}
#define R2(T,G,T2,G2) {{T,T2},{G,G2},2}
static const U MENU[]={
 /*0*/{"g",{R1("g<n><sg>","NOUN"),R1("g<v><inf>","VERB")},2}, {"j",{R1("j<n><sg>","NOUN"),R1("j<v><inf>","VERB"),R1("j<adj>","ADJ")},3}, {"d",{R1("d<det><def>","DET")},1}, {"zz",{},0}, {"i",{R1("i<v><inf>","VERB"),R1("i<adj>","ADJ")},2},
 /*5*/{"k",{R1("e<pr>","PREP"),R1("k<det><def>","DET")},2}, {"m",{R1("l<det><def>","DET"),R1("el<prn>","THE")},2}, {"f",{R1("f<prn>","PRN")},1}, {".",{R1(".<sent>","SENT")},1}, {"o",{R1("e<pr>+d<det><def>","PREPDET")},1},
 /*10*/{"x",{R2("e<pr>","PREP","f<prn>","PRN")},1}, {"h",{R1("h<n><sg>","NOUN"),R1("h<n><pl>","NOUN"),R1("h<adj>","ADJ")},3}, {"r",{R1("r<aux><y>","AUX"),R1("r<v><inf>","VERB")},2}, {"u",{R1("u<aux><x>","AUX"),R1("u<v><inf>","VERB"),R1("u<adj>","ADJ")},3},
 /*14*/{"w",{R1("w<n><q>","NOUN"),R1("w<v><inf>","VERB"),R1("w<adj>","ADJ"),R1("w<aux><x>","AUX")},4}, {"y",{R1("y<n><sg>","NOUN"),R1("y<det><def>","DET")},2}, {"v",{R1("El<prn>","THE"),R1("v<prn>","PRN")},2}, {"n",{R1("n# up<v><inf>","VERB"),R1("n\\/\\+n<adj>","ADJ")},2},
 /*18*/{"q",{R1("q<aux><x>","AUX")},1}, {"t",{R1("t<n><q>","NOUN"),R1("t<aux><x>","AUX")},2}, {"b",{R1("b<v><inf>","VERB"),R1("b<v><ger>","VERB")},2}, {"S",{R2("b<v><inf>","VERB","el<prn>","THE"),R2("b<v><inf>","VERB","f<prn>","PRN")},2}, {"p",{R1("p<n><sg>","NOUN"),R1("p<prn>","PRN")},2},
 /*23*/{"c",{R1("c<adj><comp>","ADJ"),R1("c<n><pl>","NOUN"),R1("c<n><sg>","NOUN")},3},
 /*24: perceptron only*/{"X",{R2("e<pr>","PREP","f<prn>","PRN"),R1("f<prn>","PRN"),R2("e<pr>","PREP","d<det><def>","DET")},3}};
// ---- the model, from its textual dump
static int N,M; static std::map<std::string,int> tagNo; static std::set<int> openc; static std::vector<std::set<int>> classes; static std::vector<std::vector<double>> A,B; static std::vector<double> D;
static void load(const char* f,bool lsw){ FILE* h=fopen(f,"rb"); if(!h) sym_fail("no model dump"); std::string t; int c; while((c=getc(h))>=0) t+=(char)c; fclose(h); const char* p=t.c_str(); auto word=[&](){ while(*p==' '||*p=='\n') p++; std::string w; while(*p&&*p!=' '&&*p!='\n') w+=*p++; return w; };
  auto num=[&](){ std::string w=word(); int v=0; for(char d:w) v=v*10+(d-'0'); return v; };
  auto dbl=[&](){ std::string w=word(); if(w=="0x0p+0") return 0.0; double v=0; size_t i=2; double s=1; bool fr=false; for(;i<w.size()&&w[i]!='p';i++){ if(w[i]=='.'){ fr=true; continue; } int d=w[i]>='a'?w[i]-'a'+10:w[i]-'0'; v=v*16+d; if(fr) s*=16; } v/=s; i++; bool ng=w[i]=='-'; int e=0; for(i++;i<w.size();i++) e=e*10+(w[i]-'0'); for(;e>0;e--) v=ng?v/2:v*2; return v; };
  word(); N=num(); for(int i=0;i<N;i++){ std::string w=word(); tagNo[w.substr(4)]=i; } word(); for(int n=num();n>0;n--) openc.insert(num());
  if(lsw){ for(int i=0;i<N*N*N;i++) D.push_back(dbl()); return; }
  word(); M=num(); for(int k=0;k<M;k++){ std::set<int> s; for(int n=num();n>0;n--) s.insert(num()); classes.push_back(s); }
  A.resize(N); B.resize(N); for(int i=0;i<N;i++) for(int j=0;j<N;j++) A[i].push_back(dbl()); for(int i=0;i<N;i++) for(int k=0;k<M;k++) B[i].push_back(dbl()); }
static int classOf(const std::set<int>& s){ for(int k=0;k<M;k++) if(classes[k]==s) return k; int best=-1; size_t sz=openc.size(); for(int k=0;k<M;k++) if(classes[k].size()<sz){ bool in=true; for(int x:s) in&=classes[k].count(x)>0; if(in){ best=k; sz=classes[k].size(); } } if(best<0) for(int k=0;k<M;k++) if(classes[k]==openc) best=k; return best; }
// the rules of a tagger definition applied to the transitions: ruled out ones become impossible, the rest keeps its proportions
static void applyRules(const char* f){ FILE* h=fopen(f,"rb"); if(!h) sym_fail("no rules"); int c; std::vector<std::string> w(1); auto line=[&](){ if(w.size()>1){ int i=tagNo[w[1]]; std::set<int> s; for(size_t k=2;k<w.size();k++) s.insert(tagNo[w[k]]); for(int j=0;j<N;j++) if(w[0]=="F"?s.count(j):!s.count(j)) A[i][j]=1e-10; } w.assign(1,""); };
  while((c=getc(h))>=0){ if(c=='\n') line(); else if(c==' ') w.push_back(""); else w.back()+=(char)c; } fclose(h); for(int i=0;i<N;i++){ double t=0; for(double v:A[i]) t+=v; for(double& v:A[i]) v=t>0?v/t:0; } }
// ---- the stream
struct W { Syms blank,surf; int u; bool unit,nul; std::vector<Syms> rd; };          // a unit, or the blank at the end of a text
static std::vector<W> wds; static bool split,nulls,oF,oP,oM,oZ; static int lastNul;
static void genUnits(Syms& s){ int nu=sym_param("nu",1),bl=sym_param("bl",1),nn=sym_param("nul",0),lc=sym_param("lc",0); const char* mp=sym_params("menu"); std::vector<int> menu; for(const char* p=mp?mp:"0";*p;p++) if(*p>='0'&&*p<='9'){ int v=0; while(*p>='0'&&*p<='9') v=v*10+(*p++-'0'); menu.push_back(v); if(!*p) break; }
  auto blank=[&](int i){ Syms b; int k=bl>1?pick("bl",i,bl):0; if(k==0) return b; if(k==1) b.push_back(' '); else if(k==2){ add(b,"[<"); b.push_back(symch("bc",i,rt::bytes?U"<>/ ":U"<>/ \u00e1")); add(b,">] "); } else if(k==3){ b.push_back(symch("bc",i,rt::bytes?U" xA\n$/":U" xA\n\u4e2d\U0001f600$/")); } else if(k==4){ b.push_back('\\'); b.push_back(symch("bc",i,U"^$/[]@\\")); } else { add(b,"x\\^y \\\\"); } return b; };
  int cut=-1; if(nn) cut=pick("cut",-1,nu+1); 
  for(int i=0;i<=nu;i++){ W w; w.blank=blank(i); w.unit=false; w.nul=false; w.u=0; 
    if(i==cut){ W e=w; e.nul=true; wds.push_back(e); add(s,e.blank); s.push_back(0); w.blank=blank(10+i); }
    if(i<nu){ int k=menu.size()>1?menu[pick("u",i,(int)menu.size())]:menu[0]; w.unit=true; w.u=k; const U& u=MENU[k]; Syms sf; for(const char* p=u.s;*p;p++) sf.push_back(*p=='z'&&lc&&p!=u.s?symch("sc",i,rt::bytes?U"zZ ":U"zZ\u00e1\u4e2d "):(uint32_t)(unsigned char)*p); if(sym_param("esc",0)){ sf.push_back('\\'); sf.push_back(symch("se",i,U"/^$\\")); } w.surf=sf;
      add(s,w.blank); s.push_back('^'); add(s,w.surf); if(!u.n){ add(s,"/*"); add(s,w.surf); }
      for(int r=0;r<u.n;r++){ Syms t; uint32_t l=lc&&u.r[r].n==1&&u.s[0]!='m'&&u.s[0]!='v'&&u.s[0]!='l'?symch("lm",i*4+r,rt::bytes?U"nN1":U"nN1\u00e9"):0; for(int p=0;p<u.r[r].n;p++){ if(p) t.push_back('+'); add(t,u.r[r].t[p]); } if(l) t.insert(t.begin(),l); w.rd.push_back(t); s.push_back('/'); add(s,t); }
      s.push_back('$'); } else add(s,w.blank);
    wds.push_back(w); }
}
// coarse view of a unit: pieces with candidate tags and the reading part each stands for
struct P { std::vector<int> tags; std::vector<Syms> lf; int w; bool first,last,amb; };
static std::vector<P> pieces;
static bool prefers(const char* t){ return strstr(t,"<n><pl>")!=nullptr; } static bool discarded(const char* t){ return strstr(t,"<aux><x>")||strstr(t,"<n><q>"); }
static void analyse(){ for(size_t i=0;i<wds.size();i++){ W& w=wds[i]; if(!w.unit){ P p; p.w=(int)i; p.first=p.last=true; p.amb=false; p.tags.push_back(tagNo["kEOF"]); p.lf.push_back(Syms()); pieces.push_back(p); continue; } const U& u=MENU[w.u]; int np=u.n?u.r[0].n:1;
  for(int k=0;k<np;k++){ P p; p.w=(int)i; p.first=k==0; p.last=k==np-1; std::map<int,Syms> lf; std::map<int,const char*> src; for(int r=0;r<u.n;r++){ int t=tagNo[u.r[r].tag[k]]; Syms v; if(np==1) v=w.rd[r]; else add(v,u.r[r].t[k]); if(!lf.count(t)||prefers(u.r[r].t[k])){ lf[t]=v; src[t]=u.r[r].t[k]; } }
    const char* drop[2]={"<aux><x>","<n><q>"}; for(const char* d:drop) for(auto it=lf.begin();it!=lf.end()&&lf.size()>1;) if(strstr(src[it->first],d)) it=lf.erase(it); else ++it;
    p.amb=lf.size()>1; for(auto& x:lf){ p.tags.push_back(x.first); p.lf.push_back(x.second); } if(!u.n){ for(int t:openc) p.tags.push_back(t); } pieces.push_back(p); } } }
static Syms show(const P& p,int tag){ Syms o; const W& w=wds[p.w]; if(p.first) add(o,w.blank); if(!w.unit){ if(oZ) o.push_back(0); return o; } if(p.first){ o.push_back('^'); if(oM&&p.amb) o.push_back('='); if(oP||oF){ add(o,w.surf); o.push_back('/'); } }
  if(p.lf.empty()){ o.push_back('*'); add(o,w.surf); } else { for(size_t k=0;k<p.tags.size();k++) if(p.tags[k]==tag) add(o,p.lf[k]); if(oF) for(size_t k=0;k<p.tags.size();k++) if(p.tags[k]!=tag){ o.push_back('/'); add(o,p.lf[k]); } } o.push_back(p.last?'$':'+'); return o; }
static std::vector<double> sc; static std::vector<Syms> outs;
static void hmm(size_t i,int prev,double pr,const Syms& o){ if(i==pieces.size()){ sc.push_back(pr); outs.push_back(o); return; } const P& p=pieces[i]; int k; { std::set<int> s(p.tags.begin(),p.tags.end()); k=classOf(s); } for(int t:p.tags){ Syms n=o; add(n,show(p,t)); hmm(i+1,t,pr*A[prev][t]*B[t][k],n); } }
// ---- perceptron: the reading sequence of a sentence with the highest sum of feature weights
static std::map<std::string,double> wt; static std::vector<std::string> tagsOf(const char* p){ std::vector<std::string> v; for(;*p;p++) if(*p=='<'){ std::string t; for(p++;*p!='>';p++) t+=*p; v.push_back(t); } return v; }
static void loadW(const char* f){ FILE* h=fopen(f,"rb"); if(!h) sym_fail("no model dump"); std::string t; int c; bool first=true; while((c=getc(h))>=0){ if(c!='\n'){ t+=(char)c; continue; } if(!first){ size_t k=t.rfind(": "); std::string n=t.substr(k+2); size_t i=0; bool ng=n[0]=='-'; if(ng) i++; double v=0,s=1; bool fr=false; for(;i<n.size()&&n[i]!='e';i++) if(n[i]=='.') fr=true; else { v=v*10+(n[i]-'0'); if(fr) s*=10; } v/=s; if(i<n.size()){ int e=0; for(size_t q=i+2;q<n.size();q++) e=e*10+(n[q]-'0'); for(;e>0;e--) v=n[i+1]=='-'?v/10:v*10; } wt[t.substr(0,k)]=ng?-v:v; } first=false; t.clear(); } fclose(h); }
static double W1(const std::string& k){ auto i=wt.find(k); return i==wt.end()?0:i->second; }
struct M1 { std::string t,c; };          // a morpheme and its coarse tag
static std::vector<M1> morphs(const R& r){ std::vector<M1> v; for(int k=0;k<r.n;k++){ if(!strcmp(r.tag[k],"PREPDET")){ v.push_back({"e<pr>","PREP"}); v.push_back({"d<det><def>","DET"}); } else v.push_back({r.t[k],r.tag[k]}); } return v; }
static std::string surfOf(int w){ return sym_param("esc",0)?std::string("?"):std::string(MENU[wds[w].u].s); }          // an escaped surface form is in no feature
static void perc(const std::vector<int>& sent,size_t i,std::vector<std::pair<int,int>>& ch,double s,std::vector<std::pair<double,std::vector<std::pair<int,int>>>>& res){ if(i==sent.size()){ res.push_back({s,ch}); return; } const U& u=MENU[wds[sent[i]].u]; if(!u.n){ ch.push_back({sent[i],-1}); perc(sent,i+1,ch,s,res); ch.pop_back(); return; }
  for(int r=0;r<u.n;r++){ ch.push_back({sent[i],r}); double d=0; auto ms=morphs(u.r[r]); if(u.n>1) for(size_t k=0;k<ms.size();k++){ auto cur=tagsOf(ms[k].t.c_str()); std::vector<std::string> prev; if(k) prev=tagsOf(ms[k-1].t.c_str()); else if(i==0) prev.push_back("!TUF!"); else { int pr=ch[ch.size()-2].second; if(pr<0) prev.push_back("!UT!"); else { auto pm=morphs(MENU[wds[sent[i-1]].u].r[pr]); prev=tagsOf(pm.back().t.c_str()); } }
      for(auto& c:cur){ d+=W1("0; "+c); d+=W1("1; "+surfOf(sent[i])+", "+c); for(auto& p:prev) d+=W1("2; "+p+", "+c); } d+=W1("3; "+ms[k].c+", "+(i+1<sent.size()?surfOf(sent[i+1]):std::string("!SURF_OVERFLOW!"))); }
    perc(sent,i+1,ch,s+d,res); ch.pop_back(); } }
// the stored model, or one trained first: train=1 a perceptron from its specification and a partly symbolic corpus, 2/3 the stored model retrained on a small corpus
static Apertium::PerceptronTagger* pt; static bool spec,trained;          // each step redoes the earlier ones when it runs in a process of its own
static int ptSpec(int,char**){ pt->read_spec(rt::tmp("p.mtx")); spec=true; return 0; }
static int ptTrain(int,char**){ if(!spec) ptSpec(0,nullptr); Apertium::TaggerFlags f; Apertium::Stream sa(f,rt::tmp("ct")),sb(f,rt::tmp("cu")); pt->train(sa,sb,sym_param("it",1)); trained=true; return 0; }
static int ptMain(int,char**){ if(!trained) ptTrain(0,nullptr); Apertium::TaggerFlags f; Apertium::Stream st(f); pt->tag(st,std::cout); return 0; }
static rt::Res tagWith(const std::string& o,const char* model,int how){ if(!how) return rt::run(apertium_tagger_main,{"apertium-tagger",strdup(o.c_str()),rt::tmp(model)},genUnits);
  if(how==5){ const char* m=rt::tmp("new.prob"); rt::Res t=rt::runOn(apertium_tagger_apply_new_rules_main,{"apertium-tagger-apply-new-rules","--filein",rt::tmp(model),"--fileout",m,"--tsxfile",rt::tmp("rules.tsx")},Syms()); if(t.kind||t.code) sym_fail("applying rules to a model failed"); return rt::run(apertium_tagger_main,{"apertium-tagger",strdup(o.c_str()),m},genUnits); }
  if(how==4){ const char* m=rt::tmp("new.prob"); rt::Res t=rt::runOn(apertium_tagger_main,{"apertium-tagger","-s","0",rt::tmp("t.dic"),rt::tmp("t.tsx"),m,rt::tmp("t.tagged"),rt::tmp("t.untagged")},Syms()); if(t.kind||t.code) sym_fail("training on a well-formed corpus failed"); return rt::run(apertium_tagger_main,{"apertium-tagger",strdup(o.c_str()),m},genUnits); }
  if(how>1){ rt::Res t=rt::runOn(apertium_tagger_main,{"apertium-tagger",how==3?"-wr":"-r","1",rt::tmp("t.untagged"),rt::tmp(model)},Syms()); if(t.kind||t.code) sym_fail("retraining on a well-formed corpus failed"); return rt::run(apertium_tagger_main,{"apertium-tagger",strdup(o.c_str()),rt::tmp(model)},genUnits); }
  Apertium::TaggerFlags fl; fl.setShowSuperficial(oP); fl.setMark(oM); fl.setFirst(oF); if(sym_param("skip",0)) fl.setSkipErrors(true); pt=new Apertium::PerceptronTagger(fl); { rt::Res t=rt::runOn(ptSpec,{"spec"},Syms()); if(t.kind||t.code) sym_fail("a well-formed specification is not read"); } Syms tg,un; auto w=[&](int k,int r){ const U& u=MENU[k]; for(int h=0;h<2;h++){ Syms& s=h?un:tg; add(s,"^"); add(s,u.s); for(int q=0;q<(u.n?u.n:1);q++) if(h||q==r){ add(s,"/"); if(!u.n){ add(s,"*"); add(s,u.s); } else for(int p=0;p<u.r[q].n;p++){ if(p) add(s,"+"); add(s,u.r[q].t[p]); } } add(s,"$ "); } };
  static const int base[][2]={{2,0},{0,0},{8,0},{7,0},{0,1},{2,0},{1,0},{8,0},{5,0},{2,0},{11,1},{8,0}}; for(auto& x:base) w(x[0],x[1]); int nc=sym_param("nc",1); for(int i=0;i<nc;i++){ int k=pick("tu",i,25); w(k,MENU[k].n>1?pick("tr",i,MENU[k].n):0); } w(8,0); if(sym_param("skip",0)){ /* one sentence whose surface forms differ, at the start or the end, from its first or second word on */ int at=pick("at",-1,2),wd=pick("wd",-1,2); Syms a,b; if(wd){ add(a,"^f/f<prn>$ "); add(b,"^f/f<prn>$ "); } add(a,"^q/q<aux><x>$ ^./.<sent>$ "); add(b,"^u/u<aux><x>/u<adj>$ ^./.<sent>$ "); if(at){ add(tg,a); add(un,b); } else { tg.insert(tg.begin(),a.begin(),a.end()); un.insert(un.begin(),b.begin(),b.end()); } }
  rt::vfile(rt::tmp("ct"),tg); rt::vfile(rt::tmp("cu"),un); rt::Res t=rt::runOn(ptTrain,{"train"},Syms()); if(t.kind||t.code) sym_fail("training on a well-formed corpus failed"); Syms in; genUnits(in); return rt::runOn(ptMain,{"tag"},in); }
static void perceptron(const std::string& op){ rt::bytes=1; bool choice=sym_param("choice",1); loadW(rt::tmp("p.dump")); std::string o="-"+op+"xg"; rt::Res r=tagWith(o,"p.prob",sym_param("train",0)); if(r.kind!=0||r.code!=0){ sym_fail("tagger failed on a well-formed stream"); return; }
  std::vector<Syms> acc(1); std::vector<int> sent; auto end=[&](){ std::vector<std::pair<double,std::vector<std::pair<int,int>>>> res; std::vector<std::pair<int,int>> ch; perc(sent,0,ch,0,res); double mx=-1e99; for(auto& x:res) if(x.first>mx) mx=x.first; std::vector<Syms> nx;
    for(auto& a:acc) for(auto& x:res) if(!choice||x.first>=mx-1e-3){ Syms n=a; for(auto& c:x.second){ const W& w=wds[c.first]; const U& u=MENU[w.u]; add(n,w.blank); n.push_back('^'); if(oM&&u.n>1) n.push_back('='); if(oP){ add(n,w.surf); n.push_back('/'); } if(c.second<0){ n.push_back('*'); add(n,w.surf); } else { add(n,w.rd[c.second]); if(oF) for(int q=0;q<u.n;q++) if(q!=c.second){ n.push_back('/'); add(n,w.rd[q]); } } n.push_back('$'); } nx.push_back(n); } acc=nx; sent.clear(); };
  for(size_t i=0;i<wds.size();i++){ W& w=wds[i]; if(!w.unit){ end(); for(auto& a:acc){ add(a,w.blank); if(w.nul) a.push_back(0); } continue; } sent.push_back((int)i); const U& u=MENU[w.u]; if(u.n==1&&u.r[0].n==1&&!strcmp(u.r[0].t[0],".<sent>")) end(); }
  int ok=0; for(auto& a:acc) ok|=sameSyms(r.out,a); for(auto& a:acc) showSyms("want",a); showSyms("got",r.out); sym_assert(ok,choice?"the readings chosen are not those the model scores highest":"not one reading per word with everything else unchanged"); }
extern "C" void harness_main(){ const char* opt=sym_params("opt"); std::string op=opt?opt:""; for(char c:op){ oF|=c=='f'; oP|=c=='p'; oM|=c=='m'; oZ|=c=='z'; } if(sym_param("px",0)){ perceptron(op); return; } if(oF) oP=false; bool lsw=sym_param("lsw",0); nulls=oZ; bool choice=sym_param("choice",1);
  load(rt::tmp(lsw?"lsw.dump":"t.dump"),lsw); if(sym_param("train",0)==5) applyRules(rt::tmp("rules.txt")); std::string o="-"+op+(lsw?"wg":"g"); rt::Res r=tagWith(o,lsw?"lsw.prob":"t.prob",sym_param("train",0));
  if(r.kind!=0||r.code!=0){ sym_fail("tagger failed on a well-formed stream"); return; }
  analyse();
  // each text (up to its end) is tagged on its own: the candidate outputs multiply
  std::vector<Syms> acc(1); std::vector<P> all=pieces; size_t b=0;
  while(b<all.size()){ size_t e=b; while(wds[all[e].w].unit) e++; pieces.assign(all.begin()+b,all.begin()+e+1); b=e+1; sc.clear(); outs.clear(); int sent=tagNo["SENT"];
    if(!lsw){ hmm(0,sent,1.0,Syms()); }
    else { outs.assign(1,Syms()); sc.assign(1,1); for(size_t i=0;i<pieces.size();i++){ const P& p=pieces[i]; std::vector<int> tags=p.lf.empty()&&wds[p.w].unit?std::vector<int>(1,0):p.tags; std::vector<double> s; double mx=-1; for(int t:tags){ double n=0; std::vector<int> L; if(i==0) L.push_back(sent); else if(!(pieces[i-1].lf.empty()&&wds[pieces[i-1].w].unit)) L=pieces[i-1].tags; std::vector<int> Rr; if(i+1<pieces.size()&&!(pieces[i+1].lf.empty()&&wds[pieces[i+1].w].unit)) Rr=pieces[i+1].tags; for(int l:L) for(int q:Rr) n+=D[(l*N+t)*N+q]; s.push_back(n); if(n>mx) mx=n; }
        std::vector<Syms> nx; for(auto& a:outs) for(size_t k=0;k<tags.size();k++) if(!choice||s[k]>=mx*(1-1e-9)){ Syms n=a; add(n,show(p,tags[k])); nx.push_back(n); } outs=nx; } sc.assign(outs.size(),1); }
    double mx=0; for(double v:sc) if(v>mx) mx=v; std::vector<Syms> nx; for(auto& a:acc) for(size_t k=0;k<outs.size();k++) if(!choice||sc[k]>=mx*(1-1e-9)){ Syms n=a; add(n,outs[k]); nx.push_back(n); } acc=nx; }
  int ok=0; for(auto& a:acc) ok|=sameSyms(r.out,a);
  for(auto& a:acc) showSyms("want",a); showSyms("got",r.out); sym_assert(ok,choice?"the readings chosen are not those the model scores highest":"not one reading per word with everything else unchanged"); }
