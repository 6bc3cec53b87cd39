// apertium-tagger with a unigram model: trained on a (partly symbolic) corpus, then used on a symbolic stream.  Every word
// keeps one of its readings, everything else is unchanged, and the reading is the first that scores highest under the
// documented formula evaluated on the corpus.
#include "rt.h"
#include <cstdio>
#include <cstring>
#include <map>
#include <vector>
extern "C" int apertium_tagger_main(int,char**);
struct Part { int lem,tag; };                            // lemma and tag group numbers
struct Rd { std::vector<Part> p; int q; };               // parts, lemma queue (0 none)
static const char* LEM[]={"a","b","\xc3\xa9\\/"}; static const char* TAG[]={"<n>","<v><inf>","<prn>"};
static int nl,nt;
static std::string parts(const Rd& r,bool canon){ std::string s; for(size_t i=0;i<r.p.size();i++){ if(i) s+='+'; s+=LEM[r.p[i].lem]; if(canon&&i==0&&r.q) s+="# q"; s+=TAG[r.p[i].tag]; } if(!canon&&r.q) s+="# q"; return s; }
static Rd reading(const char* n,int i,int np,int q){ Rd r; char b[24]; for(int k=0;k<np;k++){ Part p; if(np==3&&k<1){ r.p.push_back(Part{0,0}); continue; } if(np==3&&k==1){ snprintf(b,sizeof b,"%st%d_",n,i); p.lem=1; p.tag=pick(b,k,nt); r.p.push_back(p); continue; } snprintf(b,sizeof b,"%sl%d_",n,i); p.lem=k?pick(b,k,nl>2?2:nl):pick(b,k,nl); snprintf(b,sizeof b,"%st%d_",n,i); p.tag=pick(b,k,nt); r.p.push_back(p); } r.q=0; if(q){ snprintf(b,sizeof b,"%sq",n); r.q=pick(b,i,2); } return r; }
struct Unit { std::vector<Rd> r; };
static std::vector<Unit> corpus; static long coef;
// counts over the corpus, a unit with n readings counting 1/n for each (all scaled by the same factor)
typedef std::string K; static K lemma(const Rd& r){ return std::string(LEM[r.p[0].lem])+(r.q?"# q":""); }
static K rest(const Rd& r){ K s=TAG[r.p[0].tag]; for(size_t i=1;i<r.p.size();i++){ s+='+'; s+=LEM[r.p[i].lem]; s+=TAG[r.p[i].tag]; } return s; }
typedef std::map<K,std::map<K,long>> Tab; static std::map<K,long> M1; static Tab M2,LT,CLT,CTL;
static void count(){ coef=1; for(auto& u:corpus) if(coef%(long)u.r.size()) coef*=u.r.size();
  for(auto& u:corpus) for(auto& r:u.r){ long w=coef/u.r.size(); M1[parts(r,true)]+=w; M2[rest(r)][lemma(r)]+=w; LT[TAG[r.p[0].tag]][lemma(r)]+=w; for(size_t i=1;i<r.p.size();i++){ CLT[TAG[r.p[i-1].tag]][LEM[r.p[i].lem]]+=w; CTL[LEM[r.p[i].lem]][TAG[r.p[i].tag]]+=w; } } }
struct Q { double n,d; };
static void frac(Tab& t,const K& a,const K& b,double& tok,double& all,double& types){ tok=all=1; types=1; auto it=t.find(a); if(it==t.end()) return; types=it->second.size(); auto j=it->second.find(b); if(j!=it->second.end()) tok+=j->second; else types+=1; for(auto& x:it->second) all+=x.second; }
static Q score(int model,const Rd& r){ double t,a,y; if(model==1){ auto it=M1.find(parts(r,true)); return {1.0+(it==M1.end()?0:it->second),1}; }
  if(model==2){ frac(M2,rest(r),lemma(r),t,a,y); return {t*a,a+y}; }
  frac(LT,TAG[r.p[0].tag],lemma(r),t,a,y); Q q{t*a,a+y}; for(size_t i=1;i<r.p.size();i++){ double t2,a2,y2; frac(CLT,TAG[r.p[i-1].tag],LEM[r.p[i].lem],t,a,y); frac(CTL,LEM[r.p[i].lem],TAG[r.p[i].tag],t2,a2,y2); q.n*=t*t2; q.d*=(a+y)*(a2+y2); } return q; }
static void adds(Syms& s,const std::string& t){ add(s,t.c_str()); }
extern "C" void harness_main(){ rt::bytes=1; int model=sym_param("model",1); nl=sym_param("nl",2); nt=sym_param("nt",2); const char* opt=sym_params("opt"); std::string op=opt?opt:""; bool oF=op.find('f')!=op.npos,oP=op.find('p')!=op.npos,oM=op.find('m')!=op.npos; bool choice=sym_param("choice",1);
  int nc=sym_param("nc",2),ca=sym_param("ca",2),cp=sym_param("cp",1),nu=sym_param("nu",1),na=sym_param("na",2),np=sym_param("np",1),bl=sym_param("bl",1),qq=sym_param("q",0),base=sym_param("base",1);
  Syms ct; auto put=[&](const Unit& u){ adds(ct,"^s"); for(auto& r:u.r){ adds(ct,"/"); adds(ct,parts(r,false)); } adds(ct,"$ "); corpus.push_back(u); };
  auto mk=[&](std::initializer_list<Rd> l){ Unit u; for(auto& r:l) u.r.push_back(r); put(u); };
  auto fixed=[&](){ if(base==2){ mk({Rd{{{0,2}},0},Rd{{{1,2}},0}}); return; } if(!base) return; mk({Rd{{{0,0}},0}}); mk({Rd{{{0,0}},0}}); mk({Rd{{{0,1}},0}}); mk({Rd{{{1,0}},0},Rd{{{1,1}},0}}); mk({Rd{{{0,1},{1,2}},0}}); mk({Rd{{{1,1},{0,2}},1}}); if(np==3) mk({Rd{{{1,1},{0,1},{1,0}},0}}); }; bool first=sym_param("first",0); if(!first) fixed();
  for(int i=0;i<nc;i++){ Unit u; char b[8]; snprintf(b,8,"C%d",i); int k=ca>1?1+pick("cn",i,ca):1; for(int j=0;j<k;j++) u.r.push_back(reading(b,j,cp==3?3:cp>1?1+pick((std::string(b)+"p").c_str(),j,cp):1,qq)); put(u); } if(first) fixed();
  const char *cf=rt::tmp("corpus"),*mf=rt::tmp("model"); rt::vfile(cf,ct); rt::vfile(mf,Syms());
  char mn[2]={(char)('0'+model),0}; rt::Res t=rt::runOn(apertium_tagger_main,{"apertium-tagger","-s","0","-u",strdup(mn),mf,cf},Syms()); if(t.kind||t.code) sym_fail("training on a well-formed corpus failed");
  count(); Syms in; std::vector<Syms> want(1); auto both=[&](const Syms& x){ add(in,x); for(auto& w:want) add(w,x); };
  int cut=sym_param("nul",0)?pick("cut",-1,nu+1):-1;
  for(int i=0;i<=nu;i++){ Syms b; int k=bl>1?pick("bl",i,bl):0; if(k==1) b.push_back(' '); else if(k==2){ add(b,"[<"); b.push_back(symch("bc",i,U"<>/ x")); add(b,">] "); } else if(k==3) b.push_back(symch("bc",i,U" xA\n$/")); else if(k==4){ b.push_back('\\'); b.push_back(symch("bc",i,U"^$/[]@\\")); } else if(k==5) add(b,"x\\^y \xf0\x9f\x98\x80"); both(b);
    if(i==cut) both(Syms(1,0)); if(i==nu) break;
    std::string n="U"+std::string(1,'0'+i); int ku=na>1?pick((n+"n").c_str(),-1,na+1):1; Syms sf; sf.push_back('s'); if(sym_param("esc",0)){ sf.push_back('\\'); sf.push_back(symch("se",i,U"/^$\\")); } else if(sym_param("sc",0)) sf.push_back(symch("sc",i,U"xX*+<# ")); 
    add(in,"^"); add(in,sf); for(auto& w:want) add(w,"^");
    if(ku==0){ add(in,"/*"); add(in,sf); add(in,"$"); for(auto& w:want){ if(oP){ add(w,sf); add(w,"/"); } add(w,"*"); add(w,sf); add(w,"$"); } continue; }
    std::vector<Rd> rs; for(int j=0;j<ku;j++){ rs.push_back(reading(n.c_str(),j,np==3?3:np>1?1+pick((n+"p").c_str(),j,np):1,qq)); adds(in,"/"); adds(in,parts(rs[j],false)); } add(in,"$");
    std::vector<Q> sc; double mx=0; for(auto& r:rs){ Q q=score(model,r); sc.push_back(q); if(q.n/q.d>mx) mx=q.n/q.d; } std::vector<Syms> nx;
    for(int j=0;j<ku;j++){ if(choice){ if(sc[j].n/sc[j].d<mx*(1-1e-9)) continue; bool dup=false; for(int h=0;h<j;h++) dup|=sc[h].n==sc[j].n&&sc[h].d==sc[j].d; if(dup) continue; }
      for(auto w:want){ if(oM&&ku>1) add(w,"="); if(oP){ add(w,sf); add(w,"/"); } std::string c=parts(rs[j],true); adds(w,c); if(oF) for(auto& r:rs) if(parts(r,true)!=c){ add(w,"/"); adds(w,parts(r,true)); } add(w,"$"); nx.push_back(w); } }
    want=nx; }
  std::string o="-"+op+"u"; rt::Res r=rt::runOn(apertium_tagger_main,{"apertium-tagger",strdup(o.c_str()),strdup(mn),"-g",mf},in); if(r.kind||r.code) sym_fail("tagger failed on a well-formed stream");
  int ok=0; for(auto& w:want) ok|=sameSyms(r.out,w); for(auto& w:want) showSyms("want",w); showSyms("got",r.out);
  sym_assert(ok,choice?"the readings chosen are not those the model scores highest":"not one reading per word with everything else unchanged"); }
