// apertium-multiple-translations: the translations of every word or matched sequence of words, as alternatives.  The bilingual dictionary
// is the table bil.txt (what lt-proc -b answers for the words of the menu).
#include "trxref.h"
#include <lttoolbox/fst_processor.h>
extern "C" int apertium_multiple_translations_main(int,char**);
using namespace tr;
struct E { std::string src; Syms s; std::vector<Syms> t; UString us,ut; };
static std::vector<E> bil; static Rules R; static std::vector<int> ws; static std::vector<Syms> bls; static bool trunc_;
std::pair<UString,int> FSTProcessor::biltransWithQueue(UStringView w,bool){ for(auto& e:bil) if(e.us==w) return {e.ut,0}; sym_fail("the dictionary is asked for something that is not a word of the text"); return {}; }
static void blank(Syms& b,int i,int m){ switch(pick("bk",i,m)){ case 0: b.push_back(' '); break; case 1: break; case 2: b.push_back('['); gl(b,"s",U"a<{^$|\\"); b.push_back(']'); break; case 3: gl(b,"y",U". \n\x1F600\\"); break; case 4: b.push_back(' '); addlit(b,"[<x>]"); gl(b,"y",U".,"); break; } }
static void gen(Syms& s){ gctr=0; ws.clear(); bls.clear(); int nw=sym_param("nw",2),bl=sym_param("bl",1); const char* mp=sym_params("menu"); std::vector<int> menu; if(!mp) for(size_t i=0;i<bil.size();i++) menu.push_back((int)i); else for(;*mp;mp++) menu.push_back(*mp-'a');
  for(int i=0;i<=nw;i++){ Syms b; blank(b,i,bl); bls.push_back(b); add(s,b); if(i==nw) break; int k=menu[pick("w",i,(int)menu.size())]; ws.push_back(k); s.push_back('^'); add(s,bil[k].s); s.push_back('$'); }
  if(trunc_){ int c=pick("cut",-1,(int)s.size()); s.resize(c); } }
static void say(Syms& out,size_t from,size_t to){ size_t n=1; for(size_t i=from;i<to;i++) n*=bil[ws[i]].t.size(); if(n>1) addlit(out,"[{]"); std::vector<size_t> ix(to-from,0);
  for(size_t c=0;c<n;c++){ if(c) addlit(out,"[|]"); for(size_t i=from;i<to;i++){ if(i>from) add(out,bls[i]); out.push_back('^'); add(out,bil[ws[i]].t[ix[i-from]]); out.push_back('$'); } for(size_t k=to-from;k--;){ if(++ix[k]<bil[ws[from+k]].t.size()) break; ix[k]=0; } }
  if(n>1) addlit(out,".[][}]"); }
static size_t longest(size_t i){ size_t best=0; for(auto& r:R.rules){ size_t n=r.pat.size(); if(n<=best||i+n>ws.size()) continue; bool ok=true; for(size_t k=0;k<n&&ok;k++){ bool m=false; auto el=elems(bil[ws[i+k]].s,1); for(auto& ci:R.cats[r.pat[k]]) m=m||matchEl(ci,el); ok=m; } if(ok) best=n; } return best; }
extern "C" void harness_main(){ glesc=U"^$[]/\\"; trunc_=sym_param("cut",0); load(R,rt::tmp("rules.xml"),1); FILE* f=fopen(rt::tmp("bil.txt"),"rb"); std::string l; int c; while((c=getc(f))>=0){ if(c!='\n'){ l+=(char)c; continue; } E e; size_t t=l.find('\t'); e.src=l.substr(0,t); e.s=sy(e.src); std::string tt=l.substr(t+1); e.us=us(e.s); e.ut=us(sy(tt));
    if(tt[0]=='@') tt=tt.substr(1); std::vector<std::string> v(1); for(size_t i=0;i<tt.size();i++){ if(tt[i]=='/'){ v.push_back(""); continue; } v.back()+=tt[i]; if(tt[i]=='\\') v.back()+=tt[++i]; }
    for(size_t i=1;i<v.size();i++) if(v[i].find(" D<")!=v[i].npos) std::swap(v[0],v[i]);
    std::vector<std::string> mk; for(auto& x:v) if(x.find("__")!=x.npos) mk.push_back(x); if(mk.size()>=2) v=mk; for(auto& x:v) e.t.push_back(sy(x)); bil.push_back(e); l.clear(); } fclose(f);
  rt::Res r=rt::run(apertium_multiple_translations_main,{"apertium-multiple-translations",rt::tmp("rules.bin"),rt::tmp("bil.bin")},gen);
  sym_assert(r.kind!=4,"terminates"); sym_assert(r.kind==0&&r.code==0,"succeeds"); if(trunc_) return;
  Syms want; for(size_t i=0;i<ws.size();){ add(want,bls[i]); size_t n=longest(i); if(!n) n=1; say(want,i,i+n); i+=n; } add(want,bls[ws.size()]);
  showSyms("want",want); showSyms("out",r.out); sym_assert(sameSyms(r.out,want),"output is every combination of the translations, and everything else"); }
