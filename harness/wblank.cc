// apertium-wblank-attach / -detach: word-bound blanks distributed over the tokens they enclose / closed after one token.
#include "../rt/gen.h"
extern "C" int wblank_attach_main(int,char**); extern "C" int wblank_detach_main(int,char**);
static Syms IN; static int raw,N,det;
static const char32_t T[]=U"ab\\ ;";
static bool lean;
static void tok(Syms& s){ if(lean){ addlit(s,"^x$"); return; } s.push_back('^'); int l=pick("tl",gctr++,2); for(int i=0;i<=l;i++) gl(s,"w",U"a[];/<\\\x00c3"); s.push_back('$'); }
static void gen(Syms& s){ gctr=0; glesc=U"^$[]\\; "; int depth=0; if(raw){ for(int i=0;i<N;i++) s.push_back(symch("c",i,U"a/;[]^$\\ \xFDD0")); }
  else for(int k=0;k<N;k++) switch(pick("k",k,7)){ case 0: break; case 1: tok(s); break; case 2: if(lean){ s.push_back(symch("b",gctr++,U" .")); break; } gl(s,"b",U" .\x00c3\n\\]/"); break;
     case 3: if(lean) break; s.push_back('['); gl(s,"s",U"a<^$\\ /"); if(pick("s2",k,2)) gl(s,"s",U"a\\;^"); s.push_back(']'); break;
     case 4: addlit(s,"[["); if(lean){ s.push_back("ab;"[pick("y",k,3)]); if(pick("w2",k,2)){ addlit(s,"; "); s.push_back("ac"[pick("z",k,2)]); } } else { int l=pick("wl",k,sym_param("wl",2)); for(int i=0;i<=l;i++) gl(s,"y",i?T:U"ab;\\"); } addlit(s,"]]"); depth++; if(det&&pick("wt",k,2)) tok(s); break;
     case 5: if(!det&&(depth>0||sym_param("extra",1))){ addlit(s,"[[/]]"); depth--; } break;
     case 6: if(sym_param("nul",1)) s.push_back(0); break; }
  IN=s; }
static void trim(Syms& w){ while(!w.empty()&&(w.back()==';'||w.back()==' ')&&!(w.size()>1&&w[w.size()-2]=='\\')) w.pop_back(); size_t h=0; while(h<w.size()&&(w[h]==';'||w[h]==' ')) h++; w.erase(w.begin(),w.begin()+h); }
static bool eq(const Syms& a,const Syms& b){ if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();i++) if(a[i]!=b[i]) return false; return true; }
static bool ref(const Syms& s,Syms& o){ std::vector<Syms> open; std::vector<int> cnt; size_t i=0; bool had=false;
  while(i<s.size()){ uint32_t c=s[i];
    if(c=='\\'){ if(i+1>=s.size()||s[i+1]==0) return false; o.push_back(c); o.push_back(s[i+1]); i+=2; }
    else if(c==0){ o.push_back(0); open.clear(); cnt.clear(); had=false; i++; }
    else if(c=='^'){ size_t j=i+1; while(j<s.size()&&s[j]!='$'){ if(s[j]=='^'||s[j]==0) return false; if(s[j]=='\\'){ j++; if(j<s.size()&&s[j]==0) return false; } j++; } if(j>=s.size()) return false;
      if(!det&&!open.empty()){ addlit(o,"[["); for(size_t k=0;k<open.size();k++){ if(k) addlit(o,"; "); add(o,open[k]); } addlit(o,"]]"); }
      for(size_t k=i;k<=j;k++) o.push_back(s[k]); if(det&&had){ addlit(o,"[[/]]"); had=false; } i=j+1; }
    else if(c=='$') return false;
    else if(c=='['&&i+1<s.size()&&s[i+1]=='['){ size_t j=i+2; Syms w; while(j<s.size()&&s[j]!=']'){ if(s[j]=='['||s[j]==0) return false; if(s[j]=='\\'){ if(j+1>=s.size()||s[j+1]==0) return false; w.push_back(s[j++]); } w.push_back(s[j++]); } if(j+1>=s.size()||s[j+1]!=']') return false;
      bool close=w.size()==1&&w[0]=='/';
      if(det){ had=true; for(size_t k=i;k<j+2;k++) o.push_back(s[k]); i=j+2; continue; }
      if(close){ if(!cnt.empty()){ for(int k=0;k<cnt.back();k++) open.pop_back(); cnt.pop_back(); } }
      else { cnt.push_back(0); size_t b=0; while(b<=w.size()){ size_t e=b; while(e<w.size()&&w[e]!=';'){ if(w[e]=='\\') e++; e++; } Syms p=sub(w,b,e-b); trim(p); bool dup=false; for(auto& x:open) if(eq(x,p)) dup=true; if(!p.empty()&&!dup){ open.push_back(p); cnt.back()++; } b=e+1; } }
      i=j+2; }
    else if(c=='['){ size_t j=i+1; while(j<s.size()&&s[j]!=']'){ if(s[j]=='['||s[j]==0) return false; if(s[j]=='\\'){ j++; if(j<s.size()&&s[j]==0) return false; } j++; } if(j>=s.size()) return false; for(size_t k=i;k<=j;k++) o.push_back(s[k]); i=j+1; }
    else { o.push_back(c); i++; } }
  return true; }
extern "C" void harness_main(){ rt::bytes=1; raw=sym_param("raw",0); N=sym_param("len",4); lean=sym_param("lean",0); det=sym_param("det",0); rt::Res r=rt::run(det?wblank_detach_main:wblank_attach_main,{det?"apertium-wblank-detach":"apertium-wblank-attach"},gen);
  sym_assert(r.kind!=4,"terminates on every input"); sym_assert(r.kind==0&&r.code==0,"never crashes"); Syms w; if(!ref(IN,w)) return; sym_note("well-formed"); showSyms("want",w); showSyms("out",r.out); sym_assert(sameSyms(r.out,w),det?"every word-bound blank is closed after its unit, nothing else changes":"word-bound blanks are distributed over the units they enclose, nothing else changes"); }
