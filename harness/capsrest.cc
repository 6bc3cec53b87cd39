// apertium-restore-caps: capitalisation chosen by the weighted rules, word-bound blanks, blanks, flushes.
#include "trxref.h"
extern "C" int apertium_restore_caps_main(int,char**);
using tr::X; using tr::sy;
enum { LIT,ANY,UP,LOW,SP,TLIT,TONE,TSTAR,TPLUS };
struct It { int k; Syms v; };
struct M { std::vector<It> ss,sl,lem,surf; std::string sel; };
struct Seq { std::vector<const M*> m; std::vector<int> begins; };   // begins: number of matches that precede each <begin/>
struct Rule { double w; std::vector<Seq> alts; };
static std::vector<Rule> rules;
static void spec(std::vector<It>& o,const std::string& s){ for(uint32_t c:sy(s)) o.push_back({c=='*'?ANY:c==' '?SP:u_isupper(c)?UP:LOW,Syms()}); }
static void lits(std::vector<It>& o,const std::string& s){ for(uint32_t c:sy(s)) if(c=='*') o.push_back({ANY,Syms()}); else o.push_back({LIT,Syms(1,c)}); }
static M* match(X* x){ M* m=new M; auto g=[&](const char* k){ return x->has(k)?x->at(k):std::string("*"); }; spec(m->ss,g("srcsurf")); spec(m->sl,g("srclem"));
  if(g("lemma")=="*") spec(m->lem,g("trglem")); else lits(m->lem,g("lemma"));
  std::string cur; for(char c:g("tags")+"."){ if(c!='.'){ cur+=c; continue; } if(cur=="*") m->lem.push_back({TSTAR,{}}); else if(cur=="+") m->lem.push_back({TPLUS,{}}); else if(cur=="?") m->lem.push_back({TONE,{}}); else if(!cur.empty()) m->lem.push_back({TLIT,sy("<"+cur+">")}); cur.clear(); }
  if(g("surface")=="*") spec(m->surf,g("trgsurf")); else lits(m->surf,g("surface"));
  m->sel=x->has("select")?"<"+x->at("select")+">":"<skip>"; return m; }
static std::vector<Seq> expand(X* x);
static std::vector<Seq> cat(const std::vector<Seq>& a,const std::vector<Seq>& b){ std::vector<Seq> r; for(auto& p:a) for(auto& q:b){ Seq s=p; for(int n:q.begins) s.begins.push_back(n+(int)p.m.size()); for(auto m:q.m) s.m.push_back(m); r.push_back(s); } return r; }
static std::vector<Seq> seqOf(X* x){ std::vector<Seq> r(1); for(X* c:x->c) r=cat(r,expand(c)); return r; }
static std::vector<Seq> expand(X* x){ std::vector<Seq> r; if(x->n=="match"){ Seq s; s.m.push_back(match(x)); r.push_back(s); } else if(x->n=="begin"){ Seq s; s.begins.push_back(0); r.push_back(s); }
  else if(x->n=="or"){ for(X* c:x->c) for(auto& s:expand(c)) r.push_back(s); }
  else { auto one=seqOf(x); std::vector<Seq> acc(1); int to=atoi(x->at("upto").c_str()),fr=atoi(x->at("from").c_str()); for(int i=0;i<=to;i++){ if(i>=fr) for(auto& s:acc) r.push_back(s); acc=cat(acc,one); } }
  return r; }
static void load(const char* f){ xmlDoc* d=xmlReadFile(f,nullptr,0); X* root=tr::conv(xmlDocGetRootElement(d)); xmlFreeDoc(d); for(X* s:root->c) for(X* r:s->c){ Rule R; R.w=r->has("weight")?atof(r->at("weight").c_str()):1.0; R.alts=seqOf(r); rules.push_back(R); } }
struct W { Syms blank,wb,form,surf; bool unit=true,nul=false; Syms sc,lc; double w[4]={0,0,0,0}; };   // w: dix aa Aa AA
static std::vector<W> ws;
struct El { bool tag; Syms v; };
static bool isup(const Syms& v){ return u_isupper(v[0]); }
static bool fits(const std::vector<It>& p,const std::vector<El>& e){ std::vector<char> st(p.size()+1,0); auto clos=[&](){ for(size_t k=0;k<p.size();k++) if(st[k]&&p[k].k==TSTAR) st[k+1]=1; }; st[0]=1; clos();
  for(auto& x:e){ std::vector<char> nx(p.size()+1,0); auto ok=[&](const It& q){ switch(q.k){ case LIT: return !x.tag&&x.v[0]==q.v[0]; case ANY: return !x.tag; case UP: return !x.tag&&isup(x.v); case LOW: return !x.tag&&!isup(x.v); case SP: return !x.tag&&x.v[0]==' '; case TLIT: return x.tag&&sameSyms(x.v,q.v)!=0; default: return x.tag; } };
    for(size_t k=0;k<=p.size();k++) if(st[k]){ if(k<p.size()){ if(p[k].k==TSTAR){ if(x.tag) nx[k]=1; } else if(ok(p[k])) nx[k+1]=1; } if(k>0&&(p[k-1].k==ANY||p[k-1].k==UP||p[k-1].k==LOW||p[k-1].k==SP||p[k-1].k==TPLUS)&&ok(p[k-1])) nx[k]=1; }
    st=nx; clos(); }
  return st[p.size()]; }
static std::vector<El> els(const Syms& s,bool raw){ std::vector<El> r; for(size_t i=0;i<s.size();i++){ if(!raw&&s[i]=='\\'){ Syms c(1,s[++i]); r.push_back({false,c}); } else if(!raw&&s[i]=='<'){ Syms t; while(s[i]!='>') t.push_back(s[i++]); t.push_back('>'); r.push_back({true,t}); } else r.push_back({false,Syms(1,s[i])}); } return r; }
static bool fitsWord(const M* m,W& w,int){ return fits(m->ss,els(w.sc,true))&&fits(m->sl,els(w.lc,true))&&fits(m->lem,els(w.form,false))&&fits(m->surf,els(w.surf,false)); }
static void apply(size_t a,size_t b){ // words of one segment (units only)
  std::vector<size_t> u; for(size_t i=a;i<b;i++) if(ws[i].unit) u.push_back(i); std::map<std::pair<const M*,size_t>,bool> memo;
  for(size_t k=0;k<u.size();k++) for(auto& r:rules){ const Seq* best=nullptr; std::vector<std::string> bp; for(auto& s:r.alts){ size_t n=s.m.size(); if(n==0||n>k+1) continue; bool ok=true; for(int x:s.begins) if(x!=0||k+1!=n) ok=false; for(size_t i=0;i<n&&ok;i++){ auto key=std::make_pair(s.m[i],k+1-n+i); auto it=memo.find(key); if(it==memo.end()) it=memo.insert({key,fitsWord(s.m[i],ws[u[k+1-n+i]],0)}).first; ok=it->second; } if(!ok) continue;
      std::vector<std::string> p; for(auto m:s.m) p.push_back(m->sel); if(!best||p<bp){ best=&s; bp=p; } }
    if(best) for(size_t i=0;i<bp.size();i++){ const char* nm[]={"<dix>","<aa>","<Aa>","<AA>"}; for(int c=0;c<4;c++) if(bp[i]==nm[c]) ws[u[k+1-bp.size()+i]].w[c]+=r.w; } } }
static Syms title(const Syms& s){ Syms r; bool in=false; for(uint32_t c:s){ bool al=u_isalnum(c); r.push_back(al&&!in?u_toupper(c):u_tolower(c)); in=al; } return r; }
static const char32_t* dom(const char* p,const char32_t* d){ const char* s=sym_params(p); if(!s) return d; char32_t* b=new char32_t[24]; int k=0; for(uint32_t c:sy(s)) b[k++]=c; b[k]=0; return b; }
static void cc(Syms& s,W& w,bool use){ Syms a; if(sym_param("lcfix",0)){ static const char* C[]={"aa/aa","Aa/aa","AA/aa","aa/Aa"}; addlit(a,C[pick("cf",gctr++,sym_param("lcfix",0))]); if(use){ w.sc=tr::cut(a,0,2); w.lc=tr::cut(a,3,5); } addlit(s,"c:"); add(s,a); return; } for(int i=0;i<2;i++){ if(i) a.push_back('/'); a.push_back(symch("c",gctr++,U"Aa")); a.push_back(symch("c",gctr++,U"Aa")); } if(use){ w.sc=tr::cut(a,0,2); w.lc=tr::cut(a,3,5); } addlit(s,"c:"); add(s,a); }
static int K;
static void gen(Syms& s){ ws.clear(); gctr=0; int nw=sym_param("nw",2),nul=sym_param("nul",-1),ll=sym_param("ll",1),sl=sym_param("sl",2),wk=sym_param("wk",2),bl=sym_param("bl",1),tg=sym_param("tg",1); const char32_t *LD=dom("ld",U"aBé"),*SD=dom("sd",U"aBé"),*TD=dom("td",U"ns");
  auto blank=[&](Syms& b,int i){ switch(pick("bk",i,bl)){ case 0: b.push_back(' '); break; case 1: break; case 2: addlit(b,". "); break; case 3: addlit(b,"[\\[[]"); break; case 4: addlit(b,"\\^x"); break; } };
  for(int i=0;i<=nw;i++){ W w; if(i==nul){ W n; n.unit=false; n.nul=true; blank(n.blank,20+i); add(s,n.blank); s.push_back(0); ws.push_back(n); }
    if(i==nw){ w.unit=false; blank(w.blank,i); add(s,w.blank); ws.push_back(w); break; }
    blank(w.blank,i); add(s,w.blank); addlit((w.sc.clear(),w.sc),"aa"); addlit((w.lc.clear(),w.lc),"aa"); Syms wb,keep; int kd=wk?pick("wk",i,wk):0; auto other=[&](Syms& o){ addlit(o,"t:"); o.push_back(symch("v",gctr++,U"bc")); };
    if(kd){ Syms o1,o2; addlit(wb,"[["); switch(kd){ case 1: cc(wb,w,true); break; case 2: other(o1); add(wb,o1); addlit(wb,"; "); cc(wb,w,true); break; case 3: cc(wb,w,true); other(o2); addlit(wb,"; "); add(wb,o2); break; case 4: other(o1); add(wb,o1); break; case 5: other(o1); add(wb,o1); addlit(wb,"; "); cc(wb,w,true); addlit(wb,"; "); other(o2); add(wb,o2); addlit(wb,"; "); cc(wb,w,false); break; }
      addlit(wb,"]]"); if(K) keep=wb; else if(!o1.empty()||!o2.empty()){ addlit(keep,"[["); add(keep,o1); if(!o1.empty()&&!o2.empty()) addlit(keep,"; "); add(keep,o2); addlit(keep,"]]"); } }
    w.wb=keep; add(s,wb); int L=pick("ll",i,ll)+1,S=pick("sl",i,sl)+sym_param("smin",1); for(int k=0;k<L;k++) gl(w.form,"l",LD); int T=tg<0?-tg:pick("tg",i,tg)+1; for(int k=0;k<T;k++) gtag(w.form,k?U"pq":TD); if(sym_param("sfix",0)) addlit(w.surf,"aB"); else for(int k=0;k<S;k++) gl(w.surf,"m",SD);
    s.push_back('^'); add(s,w.form); s.push_back('/'); add(s,w.surf); s.push_back('$'); ws.push_back(w); } }
extern "C" void harness_main(){ glesc=U"^$[]/\\<"; K=sym_param("k",0); load(rt::tmp("rules.crx")); std::vector<const char*> a{"apertium-restore-caps"}; if(K) a.push_back("-k"); a.push_back("-z"); a.push_back(rt::tmp("crx.bin"));
  rt::Res r=rt::run(apertium_restore_caps_main,a,gen); Syms want; size_t b=0; for(size_t i=0;i<=ws.size();i++) if(i==ws.size()||ws[i].nul){ apply(b,i); b=i+1; }
  for(auto& w:ws){ add(want,w.blank); if(w.nul){ want.push_back(0); continue; } if(!w.unit||w.surf.empty()) continue; double* x=w.w; Syms o=w.surf; if(x[0]>=x[1]&&x[0]>=x[2]&&x[0]>=x[3]); else if(x[1]>=x[2]&&x[1]>=x[3]) for(auto& c:o) c=u_tolower(c); else if(x[2]>=x[3]) o=title(o); else for(auto& c:o) c=u_toupper(c);
    add(want,w.wb); add(want,o); if(!w.wb.empty()) addlit(want,"[[/]]"); }
  showSyms("want",want); showSyms("out",r.out); sym_assert(r.kind!=4,"terminates"); sym_assert(r.kind==0&&r.code==0,"succeeds"); sym_assert(sameSyms(r.out,want),"capitalisation is what the rules' weights select"); }
